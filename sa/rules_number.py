"""JSON scalars (P10): integers, floats, booleans and arbitrary-precision number text."""
from interp import Interp, Note, show
from lib import *
from common import fn_where
from machine import LOC, canon
from reps import NONE
from typestate import Bad, Unknown
from rules_json import JsonChecker, byte_item, const_text, fns_at, helper_events, is_slice, TEXT, NUM


# ---------------------------------------------------------------- scalar methods
def is_fmt_of(v, arg):
    """the text a formatting buffer produces for `arg`, whole"""
    v = noref(v)
    if v[0] == 'app' and v[1].split('::')[-1] in ('format', 'format_finite', 'format32', 'format64'):
        rest = [x for x in v[2:] if isinstance(x, tuple)]
        flat = []
        for x in rest:
            flat.extend(x if x and isinstance(x[0], tuple) else [x])
        return noref(arg) in flat
    return None


def writes_of(evs):
    out = []
    for ev in evs:
        e = ev.e
        if e.trait.split('::')[-1] != 'Write':
            raise Unknown('calls %s' % e.method)
        out.append(e)
    return out


CLASSES = {'is_nan': {'nan'}, 'is_infinite': {'inf'}, 'is_finite': {'finite'}, 'is_normal': {'finite'}}


def float_classes(facts, arg):
    """which of nan / inf / finite the branch conditions leave possible; None: other conditions on it"""
    cl = {'nan', 'inf', 'finite'}
    for k, v in facts.items():
        kk = noref(k)
        while kk[0] == 'not' or kk[0] == 'bin' and kk[1] in ('Eq', 'Ne') and kk[3][0] == 'i' and kk[3][1] in (0, 1) and kk[2][0] == 'app':
            if kk[0] == 'not':
                kk, v = kk[1], 1 - v
            else:
                v = v if (kk[1] == 'Eq') == (kk[3][1] == 1) else 1 - v
                kk = kk[2]
        if not mentions(kk, noref(arg)):
            continue
        nm = kk[1].split('::')[-1] if kk[0] == 'app' else None
        if nm not in CLASSES or v not in (0, 1):
            return None
        if nm == 'is_normal' and v == 0:
            continue
        cl = cl & CLASSES[nm] if v else cl - CLASSES[nm]
    return cl


def scalar_paths(jc, s0, name, arg):
    for post, evs, kind, t in jc.m.call(name, s0, (arg,) if arg is not None else ()):
        if kind == 'err':
            continue
        if kind != 'ok':
            raise Bad('`%s` may %s' % (name, 'panic' if kind == 'panic' else 'fail'))
        yield writes_of(evs), t['state'].facts


def check_int(jc, s0, name):
    n = 0
    for ws, facts in scalar_paths(jc, s0, name, NUM):
        if len(ws) != 1:
            raise Bad('an integer is written with %d writes' % len(ws))
        a = ws[0].args[0]
        f = is_fmt_of(a, NUM)
        if f is None:
            raise Unknown('writes %s' % show(a)[:80])
        if not f:
            raise Bad('an integer is written as %s, not as itself' % show(noref(a))[:100])
        n += 1
    if not n:
        raise Bad('never succeeds')


def check_float(jc, s0, name):
    for ws, facts in scalar_paths(jc, s0, name, NUM):
        cl = float_classes(facts, NUM)
        if cl is not None and not cl:
            continue
        if len(ws) != 1:
            raise Bad('a float is written with %d writes' % len(ws))
        c = const_text(ws)
        if c is not None:
            if c != 'null':
                raise Bad('a float is written as %r' % c)
            if cl is None:
                raise Unknown('which floats are written as null')
            if 'finite' in cl:
                raise Bad('a finite float may be written as null')
        else:
            f = is_fmt_of(ws[0].args[0], NUM)
            if f is False:
                raise Bad('a float is written as %s, not as itself' % show(noref(ws[0].args[0]))[:80])
            if f is None:
                raise Unknown('writes %s' % show(noref(ws[0].args[0]))[:80])
            if cl is None:
                raise Unknown('which floats are written as numbers')
            if cl - {'finite'}:
                raise Bad('a float that may be %s is written as a number, which JSON does not have' % ' or '.join(sorted(cl - {'finite'})))


def check_bool(jc, s0):
    for b in (0, 1):
        for ws, facts in scalar_paths(jc, s0, 'bool', ('i', b)):
            c = const_text(ws)
            if c is None:
                raise Unknown('bool')
            if c != ('true' if b else 'false'):
                raise Bad('%s is written as %r' % (bool(b), c))


def check_null(jc, s0):
    for ws, facts in scalar_paths(jc, s0, 'null', None):
        if const_text(ws) != 'null':
            raise Bad('null is written as %r' % const_text(ws))


# ---------------------------------------------------------------- number text as a transducer
DIGITS = [ord(c) for c in '0123456789']
LETTERS = [ord(c) for c in 'sniSNI']
MORE = [ord(c) for c in 'naftyNAFTYiIsS']


def find_adt(v, name):
    if isinstance(v, tuple):
        if v and v[0] == 'adt' and v[1].split('::')[-1] == name:
            return v
        for x in v:
            r = find_adt(x, name)
            if r is not None:
                return r
    return None


def replace_adt(v, name, new):
    if isinstance(v, tuple):
        if v and v[0] == 'adt' and v[1].split('::')[-1] == name:
            return new
        return tuple(replace_adt(x, name, new) for x in v)
    return v


def subst(v, env):
    """env: phi key tuple -> value"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'phi' and v in env:
        return env[v]
    if v[0] == 'lin':
        b = subst(v[1], env)
        return lin(b, v[2])
    return tuple(subst(x, env) if isinstance(x, tuple) else x for x in v)


def lin(b, k):
    if b[0] == 'i':
        return ('i', b[1] + k)
    if b[0] == 'lin':
        return lin(b[1], b[2] + k)
    return ('lin', b, k) if k else b


def flat_vals(note):
    """phi -> value after, for every havocked part of every loop variable"""
    out = {}
    for h, v in note.vals.items():
        def go(x, path):
            out[('phi', h) + path] = x
            if isinstance(x, tuple) and x and x[0] == 'adt':
                for i, y in enumerate(x[3]):
                    go(y, path + (i,))
            elif isinstance(x, tuple) and x and x[0] == 'tup':
                for i, y in enumerate(x[1]):
                    go(y, path + (i,))
        go(v, ())
    return out


class Transducer:
    """the per-byte behaviour of the number text helper, from each of its states"""

    def __init__(self, crate, f):
        self.c, self.f = crate, f
        self.args = Interp(crate).default_args(f)
        self.v = noref(self.args[1])
        self.cache = {}
        self.havoc = ()

    def graph(self, q, b):
        it = Interp(self.c)
        it.note_loops = True
        it.havoc_heads = self.havoc
        it.iter_payload = byte_item(b)
        g = it.run(self.f, [('ref', LOC, ())] + self.args[1:], mem={LOC: q})
        if g.incomplete:
            raise Unknown(g.incomplete)
        g.it = it
        return g

    def learn(self, q0):
        """which loop variables change in some iteration"""
        hv = set()
        for b in (0x30, 0x31, 0x2d, 0x2e, 0x6e):
            g = self.graph(q0, b)
            for es in g.edges:
                for e, m in es:
                    if isinstance(e, Note) and e.n >= 1:
                        for h, v in e.vals.items():
                            if v != e.prev.get(h):
                                hv.add(h)
        self.havoc = frozenset(hv)

    def walk(self, g, n0, stop_at_note=True):
        """(events, iter outcomes, end) from node n0 over success edges; end: (note, node) or terminal"""
        out = []
        stack = [(n0, (), None)]
        while stack:
            n, evs, it = stack.pop()
            if n in g.term:
                out.append((evs, it, g.term[n]))
                continue
            for e, m in g.edges[n]:
                if is_res(e, 'err'):
                    continue
                if isinstance(e, Note):
                    out.append((evs, it, (e, m)))
                elif is_ev(e):
                    stack.append((m, evs + (e,), it))
                elif isinstance(e, tuple) and e and e[0] == 'iter':
                    stack.append((m, evs, e[1]))
                else:
                    stack.append((m, evs, it))
                if len(out) + len(stack) > 500:
                    raise Unknown('too many paths')
        return out

    def text(self, evs):
        """(constant text, window) the events write; window: (lo, hi) of the fragment or None"""
        s, win = '', None
        for e in evs:
            if e.trait.split('::')[-1] != 'Write':
                raise Unknown('calls %s' % e.method)
            a = noref(e.args[0])
            if is_slice(a) and a[1] == self.v:
                if win is not None:
                    raise Unknown('two slices')
                win = (a[2], a[3])
            elif a == self.v:
                win = (('i', 0), None)
            else:
                t = const_text([e])
                if t is None:
                    raise Unknown('writes %s' % show(a)[:60])
                if win is not None:
                    raise Unknown('writes after the text')
                s += t
        return s, win

    def step(self, q, b):
        """{(post state, constant text written, mode)}; mode: keep / drop (this byte), stop (byte and rest of the
        fragment dropped, as is the text pending in it), whole / nothing (the fragment is not looked at)"""
        k = (q, b)
        if k in self.cache:
            return self.cache[k]
        g = self.graph(q, b)
        out = set()
        for evs, it, end in self.walk(g, g.start):
            if isinstance(end, dict):
                if end['kind'] == 'panic':
                    raise Bad('may panic: %s' % end['why'])
                if end['kind'] != 'ret':
                    continue
                if res_kind(end) != 'ok':
                    raise Bad('fails without a write failing')
                s, win = self.text(evs)
                if s:
                    raise Unknown('constant text for any fragment')
                post = canon(g.it.snap(end['state'], g.it.load(end['state'], LOC)))
                if win is not None and (noref(win[0]) != ('i', 0) or win[1] is not None and win[1] != ('len', self.v)):
                    raise Bad('only part of a fragment is written: %s' % show(win))
                out.add((post, '', 'nothing' if win is None else 'whole', None))
                continue
            if evs:
                raise Unknown('writes before the loop')
            note, head = end
            out |= self.loop(g, note, head, q, b)
        self.cache[k] = out
        return out

    def loop(self, g, note, head, q, b):
        out = set()
        body = self.walk(g, head)
        exits = set()
        for evs, it, end in body:
            if it == 'none':
                if not isinstance(end, dict) or end['kind'] != 'ret' or res_kind(end) != 'ok':
                    raise Unknown('after the loop')
                s, win = self.text(evs)
                if s:
                    raise Unknown('constant text after the loop')
                exits.add(win)
        if len(exits) != 1:
            raise Unknown('several ways out of the loop')
        win = exits.pop()
        if win is None:
            raise Unknown('nothing pending')
        env0 = flat_vals(note)
        X = subst(noref(win[0]), env0)
        Y = subst(noref(win[1]), env0) if win[1] is not None else None
        for evs, it, end in body:
            if it == 'none':
                continue
            s, w = self.text(evs)
            if isinstance(end, dict):
                if end['kind'] == 'panic':
                    raise Bad('byte %r may panic: %s' % (chr(b), end['why']))
                if end['kind'] != 'ret':
                    continue
                if res_kind(end) != 'ok':
                    raise Bad('byte %r makes writing fail' % chr(b))
                mode = 'stop'
                if w is not None and not (w[1] is not None and noref(w[0]) == noref(w[1])):
                    if (subst(noref(w[0]), env0), subst(noref(w[1]), env0) if w[1] is not None else None) != (X, Y) or Y is None:
                        raise Unknown('leaves the loop with pending text')
                post = canon(g.it.snap(end['state'], g.it.load(end['state'], LOC)))
                out.add((post, s, 'stop', pending_cond(end['state'].facts, X, Y, env0)))
                continue
            if w is not None:
                raise Unknown('writes part of the fragment in the loop')
            n2, _ = end
            env = flat_vals(n2)
            X2 = subst(X, env)
            Y2 = subst(Y, env) if Y is not None else None
            post = canon(n2.mem[LOC])
            dx = diff(X2, X)
            dy = 1 if Y is None else diff(Y2, Y)
            if dx is None or dy is None:
                raise Unknown('window %s..%s' % (show(X2), show(Y2) if Y2 else ''))
            if (dx, dy) == (0, 1):
                out.add((post, s, 'keep', pending_cond(n2.facts, X, Y, env0)))
            elif (dx, dy) == (1, 1):
                out.add((post, s, 'drop', pending_cond(n2.facts, X, Y, env0)))
            else:
                raise Bad('byte %r moves the pending text by (%d, %d): bytes are lost or repeated' % (chr(b), dx, dy))
        return out


def pending_cond(facts, X, Y, env):
    """does the path require pending text (True), none (False) or either (None)?"""
    for k, v in facts.items():
        k = noref(k)
        if k[0] == 'bin' and len(k) == 4:
            a, b = subst(k[2], env), subst(k[3], env)
            if {a, b} == {X, Y}:
                op = k[1]
                if op in ('Eq', 'Ne'):
                    return (v == 1) == (op == 'Ne')
                if (op, a) in (('Lt', X), ('Gt', Y)):
                    return v == 1
                if (op, a) in (('Ge', X), ('Le', Y)):
                    return v == 0
    return None


def diff(a, b):
    if a == b:
        return 0
    ba, ka = (a[1], a[2]) if a[0] == 'lin' else (a, 0)
    bb, kb = (b[1], b[2]) if b[0] == 'lin' else (b, 0)
    if ba == bb:
        return ka - kb
    return None


# the documented grammar of sval::tags::NUMBER with the normalised JSON it stands for:
# state -> byte -> (state, text); states: S start, M/P after -/+, z/y only zeros (plain / negative), N digits, D0 '.', D, E0, E1, E, X non-finite
def spec(st, ch):
    c = chr(ch)
    neg = st in ('M', 'y')
    if st in ('S', 'P', 'M'):
        if st == 'S' and c in '+-':
            return ('P' if c == '+' else 'M'), ''
        if ch in LETTERS:
            return 'X', 'null'
        if c == '0':
            return ('y' if neg else 'z'), ''
        if c in '123456789':
            return 'N', ('-' if neg else '') + c
    elif st in ('z', 'y'):
        if c == '0':
            return st, ''
        if c in '123456789':
            return 'N', ('-' if neg else '') + c
        if c == '.':
            return 'D0', ('-' if neg else '') + '0.'
        if c in 'eE':
            return 'E0', ('-' if neg else '') + '0e'
    elif st in ('N', 'D'):
        if c.isdigit():
            return st, c
        if c == '.' and st == 'N':
            return 'D0', '.'
        if c in 'eE':
            return 'E0', 'e'
    elif st == 'D0' and c.isdigit():
        return 'D', c
    elif st in ('E0', 'E1', 'E'):
        if c.isdigit():
            return 'E', c
        if st == 'E0' and c in '+-':
            return 'E1', c
    elif st == 'X' and ch in MORE:
        return 'X', ''
    return None


FINAL = {'z': ('0',), 'y': ('-0', '0'), 'N': ('',), 'D': ('',), 'E': ('',), 'X': ('',)}
ALPHA = sorted(set(DIGITS + [ord(c) for c in '+-.eE'] + LETTERS + MORE))


def advance(lag, want, got):
    """lag: ('', '') balanced, (want pending, '') or ('', got pending)"""
    w, g = lag[0] + want, lag[1] + got
    g = g.replace('E', 'e')
    i = 0
    while i < len(w) and i < len(g) and w[i] == g[i]:
        i += 1
    w, g = w[i:], g[i:]
    if w and g:
        return None
    if len(w) > 8 or len(g) > 8:
        return None
    return (w, g)


def check_text(jc, s0, tr, name, rep):
    """product of the documented grammar, the transducer and the expected output"""
    starts = set()
    for post, evs, kind, t in jc.m.call('tagged_begin', s0, (jc.T['NUMBER'], NONE, NONE)):
        if kind == 'ok':
            for p2, e2, k2, t2 in jc.m.call('text_begin', post, (NONE,)):
                if k2 == 'ok':
                    a = const_text(writes_of(evs) + writes_of(e2))
                    starts.add((p2, a))
    if len(starts) != 1:
        raise Unknown('start')
    sf, pre = starts.pop()
    q0 = find_adt(sf, name)
    if q0 is None:
        raise Unknown('no number state')
    tr.learn(q0)
    init = (q0, 'S', ('', pre or ''), False)
    seen = {init: ''}
    work = [init]
    while work:
        conf = work.pop()
        q, g, lag, pend = conf
        path = seen[conf]
        # the end of the number
        if g in FINAL:
            full = replace_adt(sf, name, q)
            for p1, e1, k1, t1 in jc.m.call('text_end', full, ()):
                if k1 != 'ok':
                    continue
                for p2, e2, k2, t2 in jc.m.call('tagged_end', p1, (jc.T['NUMBER'], NONE, NONE)):
                    if k2 != 'ok':
                        continue
                    got = const_text(writes_of(e1) + writes_of(e2))
                    if got is None:
                        raise Unknown('end of a number')
                    if not any(advance(lag, w, got) == ('', '') for w in FINAL[g]):
                        raise Bad('the number text `%s` ends as %r, expected %r' % (path, got, [lag[0] + x for x in FINAL[g]]))
                    rep.ok('number-end', '%s after %r' % (g, path))
        for ch in ALPHA:
            sp = spec(g, ch)
            if sp is None:
                continue
            g2, want = sp
            for post, s, mode, cond in tr.step(q, ch):
                if cond is not None and cond != pend:
                    continue
                txt = path + chr(ch)
                got = s
                pend2 = pend
                if mode in ('keep', 'whole'):
                    got = s + chr(ch)
                    pend2 = True
                elif mode == 'drop' and pend:
                    raise Bad('in `%s` a byte is skipped although text before it is still pending: the wrong bytes are written' % txt)
                elif mode == 'stop':
                    if pend:
                        raise Bad('in `%s` the text before the last byte is dropped' % txt)
                    if g2 != 'X':
                        raise Bad('in `%s` the text after the last byte is dropped' % txt)
                if s and pend:
                    raise Bad('in `%s`, %r is written before text that precedes it' % (txt, s))
                l2 = advance(lag, want, got)
                if l2 is None:
                    raise Bad('the number text `%s` is written so that %r follows instead of %r (JSON number or null)' % (
                        txt, lag[1] + got, lag[0] + want))
                for pd in {pend2, False}:
                    c2 = (post, g2, l2, pd)
                    if c2 not in seen:
                        seen[c2] = txt
                        work.append(c2)
                rep.ok('number-byte', '%r in %s' % (chr(ch), g))
        if len(seen) > 5000:
            raise Unknown('too many configurations')


def p10(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        crate = ctx.crate('sval_json', cfg)
        rep.cfg = cfg
        jc = JsonChecker(ctx, cfg, crate)
        try:
            s0 = jc.initial()
        except Unknown as e:
            rep.inconclusive('scalar', 'json/src/to_fmt.rs', str(e))
            continue
        ms = jc.m.methods
        jobs = [(n, lambda n=n: check_int(jc, s0, n)) for n in INTS] + \
            [(n, lambda n=n: check_float(jc, s0, n)) for n in ('f32', 'f64')] + \
            [('bool', lambda: check_bool(jc, s0)), ('null', lambda: check_null(jc, s0))]
        for n, fn in jobs:
            where = fn_where(ms[n]) if n in ms else 'json/src/to_fmt.rs'
            try:
                fn()
                rep.ok('scalar', n)
            except Bad as e:
                rep.viol('scalar:%s' % n, 'scalar', where, '%s: %s' % (n, e))
            except Unknown as e:
                rep.inconclusive('scalar', where, '%s: %s' % (n, e))
        try:
            fs = fns_at(crate, helper_events(jc, s0, 'NUMBER'))
            if len(fs) != 1:
                raise Unknown('%d number text helpers' % len(fs))
            f = fs[0]
            tyname = crate.ty(f['locals'][1][0])['s'].split('::')[-1].split('<')[0]
            check_text(jc, s0, Transducer(crate, f), tyname, rep)
        except Bad as e:
            rep.viol('number-text', 'number-byte', fn_where(f), str(e))
        except Unknown as e:
            rep.inconclusive('number-byte', 'json/src/to_fmt.rs', str(e))
    rep.cfg = 'full'
