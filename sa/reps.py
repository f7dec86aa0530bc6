"""Representative tags, labels and indexes, obtained by analysing the public constructors themselves."""
from interp import Interp
from lib import *

NONE = ('adt', 'core::option::Option', 0, ())


def SOME(v):
    return ('adt', 'core::option::Option', 1, (v,))


def rename(v):
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'adt' and v[1].startswith('data::'):
        return ('adt', 'sval::' + v[1].split('::')[-1], v[2], tuple(rename(x) for x in v[3]))
    return tuple(rename(x) if isinstance(x, tuple) else x for x in v)


def constval(v):
    if 'int' in v:
        return ('i', v['int'])
    if 'str' in v:
        return ('str', v['str'])
    return None


class Reps:
    def __init__(self, ctx, cfg='full'):
        self.sv = ctx.crate('sval', cfg)
        self.js = ctx.crate('sval_json', cfg)

    def tag(self, name):
        for c, crate in ((self.sv, 'sval'), (self.js, 'sval_json')):
            for p, k in (c.consts.items() if c else ()):
                if p.split('::')[-1] == name and 'fields' in k.get('v', {}):
                    return ('adt', 'sval::Tag', k['v']['variant'], tuple(constval(x) for x in k['v']['fields']))
        raise KeyError(name)

    def other_tag(self):
        t = self.tag('NUMBER')
        return ('adt', t[1], t[2], (('i', 77),) + (('str', 'SOMETHING_ELSE'),) + t[3][2:])

    def ctor(self, suffix, args):
        for f in self.sv.roots:
            if f['path'].endswith(suffix):
                g = run(self.sv, f, args)
                rets = [t for t in g.term.values() if t['kind'] == 'ret']
                if len(rets) == 1:
                    return rets[0]['snap']
        raise KeyError(suffix)

    def label(self, text, tag=None, made='new_computed'):
        l = self.ctor('Label::<\'computed>::%s' % made, [text])
        if tag is not None:
            l = self.ctor('Label::<\'computed>::with_tag', [l, ('&', tag)])
        return rename(l)

    def index(self, n, tag=None):
        l = self.ctor('Index::new_u64', [('i', n)])
        if tag is not None:
            l = self.ctor('Index::with_tag', [l, ('&', tag)])
        return rename(l)
