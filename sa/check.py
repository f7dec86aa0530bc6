import argparse
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common  # noqa: E402
from registry import CHECKS  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
a = ap.parse_args()
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
fn, meta = CHECKS[a.prop]
common.main(a.prop, fn, a.tier if a.tier in ('quick', 'thorough') else 'quick', seed, meta)
