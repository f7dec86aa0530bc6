"""A stream implementation as a finite transition system.

The abstract state is whatever the implementation keeps in `self`, restricted to the parts that have finitely many
values (flags, enum variants, options of those); everything else is 'unknown'.  Transitions come from abstractly
interpreting each token method from each reachable abstract state."""
from interp import Interp, Incomplete, show
from lib import *
from typestate import Unknown

LOC = ('M', 'self')


def canon(v, keep=None, path=()):
    """keep constants, variants and aggregates; forget the rest"""
    if not isinstance(v, tuple) or not v:
        return ('top',) + path
    k = v[0]
    if k == 'adt':
        return ('adt', v[1], v[2], tuple(canon(x, keep, path + (v[2], i)) for i, x in enumerate(v[3])))
    if k == 'tup':
        return ('tup', tuple(canon(x, keep, path + (i,)) for i, x in enumerate(v[1])))
    if k == 'i' and (v[1] in (0, 1)):
        return v
    if k == 'undef':
        return v
    return ('top',) + path


class Machine:
    def __init__(self, crate, methods, opaque=None, extra=None, canonf=canon, interp_kw=None):
        self.c = crate
        self.methods = methods
        self.opaque = opaque
        self.cache = {}
        self.canon = canonf
        self.kw = interp_kw or {}

    def call(self, name, state, args, unroll=1):
        """[(post-state, events, kind, value)] over all paths; kind: ok / err / fail / panic
        (err: something it called failed; fail: it failed by itself)"""
        k = (name, state, args)
        if k in self.cache:
            return self.cache[k]
        f = self.methods.get(name)
        if f is None:
            raise Unknown('no method %s' % name)
        it = Interp(self.c, opaque_inst=self.opaque, **self.kw)
        # immutable reference parameters are given as constants, `self` as a known object
        g = it.run(f, [('ref', LOC, ())] + list(args), mem={LOC: state})
        if g.incomplete:
            raise Unknown('%s: %s' % (name, g.incomplete))
        out = []
        seen = set()
        stack = [(g.start, (), False, {})]
        while stack:
            n, evs, failed, used = stack.pop()
            if n in g.term:
                t = g.term[n]
                if t['kind'] == 'unreachable':
                    continue
                if t['kind'] == 'ret':
                    kind = res_kind(t)
                    if kind == 'err':
                        kind = 'err' if failed else 'fail'
                else:
                    kind = t['kind']
                post = self.canon(it.snap(t['state'], it.load(t['state'], LOC)))
                key = (post, evs, kind)
                if key not in seen:
                    seen.add(key)
                    out.append((post, evs, kind, t))
                continue
            if len(out) > 3000:
                raise Unknown('%s: too many paths' % name)
            for i, (e, m) in enumerate(g.edges[n]):
                c = used.get((n, i), 0)
                if c >= unroll:
                    continue
                u = used
                if len(g.edges[n]) > 1:
                    u = dict(used)
                    u[(n, i)] = c + 1
                if is_res(e, 'err'):
                    stack.append((m, evs, True, u))
                elif is_ev(e):
                    stack.append((m, evs + (EvW(e),), failed, u))
                else:
                    stack.append((m, evs, failed, u))
        self.cache[k] = out
        return out


class EvW:
    """an event compared by content (so that equal outputs on different paths merge)"""
    __slots__ = ('e', 'k')

    def __init__(self, e):
        self.e = e
        self.k = (e.trait, e.method, noref(e.recv), tuple(noref(a) for a in e.args))

    def __eq__(self, o):
        return self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return repr(self.e)


def impl_methods(crate, self_ty_pred, trait):
    out = {}
    for f in crate.roots:
        s = f.get('impl_self') or f.get('inh_self')
        tr = (f.get('impl_trait') or f.get('inh_trait') or '').split('::')[-1]
        if s and tr == trait and self_ty_pred(s):
            out[f['name']] = f
    return out
