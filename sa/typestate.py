"""The token protocol as a typestate: a pushdown of open containers, propagated over an event graph."""
from interp import show
from lib import *

SC = set(SCALARS) | {'tag'}
OPENERS = {'text_begin': 'text', 'binary_begin': 'binary', 'map_begin': 'map', 'seq_begin': 'seq',
           'enum_begin': 'enum', 'tagged_begin': 'tagged', 'record_begin': 'record',
           'record_tuple_begin': 'record_tuple', 'tuple_begin': 'tuple'}
CLOSERS = {k.replace('_begin', '_end'): v for k, v in OPENERS.items()}
FRAGS = {'text_fragment': 'text', 'text_fragment_computed': 'text', 'binary_fragment': 'binary',
         'binary_fragment_computed': 'binary'}
ITEM_B = {'map_key_begin': 'map', 'map_value_begin': 'map', 'seq_value_begin': 'seq',
          'record_value_begin': 'record', 'tuple_value_begin': 'tuple',
          'record_tuple_value_begin': 'record_tuple'}
ITEM_E = {k.replace('_begin', '_end'): k for k in ITEM_B}
VALUEISH = {'value', 'value_computed'}
# how many leading arguments identify the container (tag, label, index); the rest is a size hint
IDN = {'enum': 3, 'tagged': 3, 'record': 3, 'record_tuple': 3, 'tuple': 3}


class Bad(Exception):
    pass


class Unknown(Exception):
    pass


# a stack is a tuple of frames (kind, identity-args, phase); the bottom is the expected single value
# phase: for 'one value expected' frames: 0 nothing yet, 1 done
START = (('top', (), 0),)
ONE = {'top', 'tagged', 'enum', 'item'}


def take_value(st, what, site, variant=False):
    k, a, ph = st[-1]
    if k in ONE:
        if ph:
            raise Bad('`%s` (%s): a second value where exactly one belongs (inside %s)' % (what, site, k))
        if k == 'enum' and not variant:
            raise Bad('`%s` (%s): not a variant, directly inside an enum' % (what, site))
        return st[:-1] + ((k, a, 1),)
    raise Bad('`%s` (%s): a value is not allowed directly inside %s' % (what, site, k))


def step(st, m, args, site, child_hook=None):
    args = tuple(noref(a) for a in args)
    if m in SC:
        return take_value(st, m, site, m == 'tag')
    if m in VALUEISH:
        return take_value(st, m, site, True)
    if m in OPENERS:
        k = OPENERS[m]
        st = take_value(st, m, site, k in ('tagged', 'record', 'tuple', 'record_tuple', 'enum'))
        return st + ((k, args[:IDN.get(k, 0)], 0),)
    if m in CLOSERS:
        k, a, ph = st[-1]
        if k != CLOSERS[m]:
            raise Bad('`%s` (%s) while %s is open' % (m, site, k))
        if k in ('tagged',) and not ph:
            raise Bad('`%s` (%s) ends a tagged value that has no value' % (m, site))
        if k == 'map' and ph == 1:
            raise Bad('`%s` (%s) after a key without a value' % (m, site))
        if a != args[:len(a)]:
            raise Bad('`%s` (%s) ends with (%s) what began with (%s)' % (
                m, site, ', '.join(map(show, args)), ', '.join(map(show, a))))
        return st[:-1]
    if m in FRAGS:
        if st[-1][0] != FRAGS[m]:
            raise Bad('`%s` (%s) outside of %s' % (m, site, FRAGS[m]))
        return st
    if m in ITEM_B:
        k, a, ph = st[-1]
        if k != ITEM_B[m]:
            raise Bad('`%s` (%s) while %s is open' % (m, site, k))
        if m == 'map_key_begin' and ph == 1:
            raise Bad('`%s` (%s): two keys in a row' % (m, site))
        if m == 'map_value_begin' and ph == 0:
            raise Bad('`%s` (%s): a value without a key' % (m, site))
        return st + (('item', (m,) + args, 0),)
    if m in ITEM_E:
        k, a, ph = st[-1]
        if k != 'item' or a[0] != ITEM_E[m]:
            raise Bad('`%s` (%s) while %s is open' % (m, site, a[0] if k == 'item' else k))
        if not ph:
            raise Bad('`%s` (%s): no value between begin and end' % (m, site))
        if a[1:] != args:
            raise Bad('`%s` (%s) ends with (%s) what began with (%s)' % (
                m, site, ', '.join(map(show, args)), ', '.join(map(show, a[1:]))))
        st = st[:-1]
        k, ca, ph = st[-1]
        if m == 'map_key_end':
            st = st[:-1] + ((k, ca, 1),)
        if m == 'map_value_end':
            st = st[:-1] + ((k, ca, 0),)
        return st
    raise Unknown(m)


def stream_event(e, stream):
    """(method, args) when the event is a token on `stream`; ('value', ..) when something streams itself into it"""
    r = noref(e.recv)
    if r == stream:
        return e.method, e.args
    for a in e.args:
        if mentions(noref(a), stream):
            tr = e.trait.split('::')[-1]
            if e.method in ('stream', 'stream_ref', 'dispatch_stream'):
                return 'value', (e.recv,)
            raise Unknown('%s receives the stream' % e.method)
    if mentions(r, stream):
        if e.trait.split('::')[-1] == 'Stream':
            return e.method, e.args
        raise Unknown('%s on something holding the stream' % e.method)
    return None


def balance(g, stream, start=START, final=None, maxstacks=24, maxdepth=24):
    """Propagate the typestate over g. Returns None or raises Bad/Unknown. Success terminals must reach `final`
    (default: exactly one complete value)."""
    final = final or (('top', (), 1),)
    seen = {}
    work = [(g.start, start)]
    n_steps = 0
    while work:
        n, st = work.pop()
        s = seen.setdefault(n, set())
        if st in s:
            continue
        s.add(st)
        n_steps += 1
        if len(s) > maxstacks or len(st) > maxdepth:
            raise Bad('the number of open containers grows around a loop')
        if n in g.term:
            t = g.term[n]
            if t['kind'] == 'ret' and res_kind(t) == 'ok' and st != final:
                fr = st[-1]
                raise Bad('success is returned %s' % (
                    'although nothing was streamed' if st == start else 'while %s is still open' % (
                        fr[1][0] if fr[0] == 'item' else fr[0])))
            continue
        for e, m in g.edges[n]:
            if is_res(e, 'err'):
                continue
            st2 = st
            if is_ev(e):
                se = stream_event(e, stream)
                if se is not None:
                    st2 = step(st, se[0], se[1], e.site)
            work.append((m, st2))
    return n_steps


def ok_paths(g, unroll=1, maxn=2000):
    """event sequences of success paths; every edge is taken at most `unroll`+... times on a path"""
    out = []

    def go(n, acc, used):
        if len(out) > maxn:
            raise Unknown('too many paths')
        if n in g.term:
            out.append((acc, g.term[n]))
            return
        for i, (e, m) in enumerate(g.edges[n]):
            if is_res(e, 'err'):
                continue
            k = (n, i)
            c = used.get(k, 0)
            if c >= unroll:
                continue
            u = dict(used)
            u[k] = c + 1
            go(m, acc + [e] if e is not None and not is_res(e) else acc, u)
    go(g.start, [], {})
    return out
