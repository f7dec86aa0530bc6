import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
from props import PROPS
from rules_forward import p01
from rules_failstop import p03

from rules_values import p02

from rules_json import p08, p09
from rules_number import p10
from rules_io import p11
from rules_defaults import p04
from rules_convert import p06
from rules_unsafe import p05
from rules_buffer import p07
from rules_fmt import p12
from rules_serde import p13, p14
from rules_nested import p15
from rules_flatten import p16
from rules_derive import p17
from rules_data import p18
from rules_test import p19
FNS = {"P19": p19, "P18": p18, "P17": p17, "P16": p16, "P15": p15, "P13": p13, "P14": p14, "P12": p12, "P07": p07, "P05": p05, "P06": p06, "P01": p01, "P02": p02, "P03": p03, "P08": p08, "P09": p09, "P10": p10, "P11": p11, "P04": p04}
CHECKS = {p['id']: (FNS[p['id']], {'level': 'other', 'explanation': p['technique'] + ' ' + p['level_note']})
          for p in PROPS if p["id"] in FNS}
for k in FNS:
    CHECKS.setdefault(k, (FNS[k], {"level": "other", "explanation": ""}))
