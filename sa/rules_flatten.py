"""P16: flattening puts the items of a value onto its parent.

The state the entry points start from is taken from the entry points themselves; the methods unknown code may call on the
flattening stream are analysed for each parent.  Positions (root, inside an enum, key, value, inside a nested container of
any depth) are the states the methods lead to; from each of them every token is delivered symbolically.  A round of one
item must come back to the state it started from except for the running offset, which makes the argument inductive over
items; the depth is generalised to a symbol as soon as it is above the flattened container."""
from common import fn_where, pmap
from interp import Interp, show
from lib import *
from machine import LOC
from reps import *
from rules_nested import NInterp, buffer_fn, Out
from rules_serde import Names
from typestate import Bad, Unknown

A = lambda n: ('arg', n)
PARENTS = ('map', 'seq', 'record', 'tuple', 'record_tuple')
ISIZE = (-(1 << 63), (1 << 63) - 1)
TB = '$textbuf'
INTS = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, (1 << 32) - 1), 'u64': (0, (1 << 64) - 1), 'u128': (0, (1 << 128) - 1),
        'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-(1 << 31), (1 << 31) - 1), 'i64': ISIZE, 'i128': (-(1 << 127), (1 << 127) - 1)}
# the running number of an item is a machine word that does not overflow
RANGES = {A('offset'): ISIZE, A('CUR'): ISIZE, A('IX'): ISIZE, A('D'): (2, (1 << 63) - 1)}
for _t, _r in INTS.items():
    RANGES[A('v_' + _t)] = _r
SCAL = [('null', ())] + [(t, (A('v_' + t),)) for t in INTS] + [('f32', (A('v_f32'),)), ('f64', (A('v_f64'),)), ('bool', (A('v_bool'),))]
ID = (A('tag'), A('label'), A('index'))
TEXTS = [('text_begin', (A('n'),)), ('text_fragment', (A('F'),)), ('text_fragment_computed', (A('F'),)), ('text_end', ()),
         ('binary_begin', (A('n'),)), ('binary_fragment', (A('F'),)), ('binary_fragment_computed', (A('F'),)), ('binary_end', ())]
LEAVES = SCAL + TEXTS + [('tag', ID), ('tag_hint', (A('tagref'),))]
# containers below the flattened one: begin, the round of one item (None: a value comes here), end
NESTED = {
    'map': (('map_begin', (A('n'),)), [('map_key_begin', ()), None, ('map_key_end', ()), ('map_value_begin', ()), None, ('map_value_end', ())], ('map_end', ())),
    'seq': (('seq_begin', (A('n'),)), [('seq_value_begin', ()), None, ('seq_value_end', ())], ('seq_end', ())),
    'record': (('record_begin', ID + (A('n'),)), [('record_value_begin', (A('tag2'), A('label2'))), None, ('record_value_end', (A('tag2'), A('label2')))], ('record_end', ID)),
    'tuple': (('tuple_begin', ID + (A('n'),)), [('tuple_value_begin', (A('tag2'), A('index2'))), None, ('tuple_value_end', (A('tag2'), A('index2')))], ('tuple_end', ID)),
    'record_tuple': (('record_tuple_begin', ID + (A('n'),)), [('record_tuple_value_begin', (A('tag2'), A('label2'), A('index2'))), None,
                                                               ('record_tuple_value_end', (A('tag2'), A('label2'), A('index2')))], ('record_tuple_end', ID)),
    'enum': (('enum_begin', ID), [None], ('enum_end', ID)),
    'tagged': (('tagged_begin', ID), [None], ('tagged_end', ID)),
}


class FInterp(NInterp):
    """text buffers are lists of fragments; integers have the range of their type"""

    def rng(self, t):
        if t[0] == 'i':
            return t[1], t[1]
        if t in RANGES:
            return RANGES[t]
        if t[0] == 'exact':
            return self.rng(t[2])
        if t[0] == 'lin':
            r = self.rng(t[1])
            if r and t[1] == A('D'):
                return r[0] + t[2], r[1] + t[2]
            return (max(r[0] + t[2], ISIZE[0]), min(r[1] + t[2], ISIZE[1])) if r else None
        if t[0] == 'bin' and t[1] in ('Add', 'Sub') and self.rng(t[2]) and self.rng(t[3]):
            return ISIZE
        return None

    def binop(self, st, op, a, b, tid):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        ra, rb = self.rng(a), self.rng(b)
        if ra and rb and not (a[0] == 'i' and b[0] == 'i'):
            if base in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                if base in ('Gt', 'Le'):
                    ra, rb = rb, ra
                neg = base in ('Le', 'Ge', 'Ne')
                r = None
                if base in ('Eq', 'Ne'):
                    if ra[1] < rb[0] or rb[1] < ra[0]:
                        r = 0
                elif ra[1] < rb[0]:
                    r = 1
                elif ra[0] >= rb[1]:
                    r = 0
                if r is not None:
                    return ('i', 1 - r if neg else r)
            r = Interp.binop(self, st, op, a, b, tid)
            if 'WithOverflow' in op and r[0] == 'tup':
                return ('tup', (r[1][0], ('i', 0)))
            return r
        return Interp.binop(self, st, op, a, b, tid)

    def possible(self, term, v, ty):
        r = self.rng(term) if ty['k'] in ('int', 'uint') else None
        return not r or r[0] <= v <= r[1]

    def fits(self, v, to):
        r = self.rng(v)
        lo, hi = INTS[to] if to in INTS else ISIZE if to == 'isize' else (0, (1 << 64) - 1)
        if r and lo <= r[0] and r[1] <= hi:
            return 1
        if r and (r[1] < lo or hi < r[0]):
            return 0

    def cast(self, st, kind, v, to, frm):
        tt = self.c.ty(to)
        if kind == 'IntToInt' and v[0] != 'i' and tt['k'] in ('int', 'uint') and self.fits(v, tt['s']):
            while v[0] == 'exact':
                v = v[2]
            return v
        return NInterp.cast(self, st, kind, v, to, frm)

    def call(self, st, t):
        c = t[1]
        path = c.get('path', '')
        s = path + ' ' + (c.get('rpath') or '') + ' ' + (self.c.ty(c['self_ty'])['s'] if 'self_ty' in c else '')
        m = c.get('method') or path.split('::')[-1]
        if m in ('saturating_add', 'saturating_sub', 'wrapping_add', 'wrapping_sub') and len(t[2]) == 2:
            a, b = [self.operand(st, o) for o in t[2]]
            ra, rb = self.rng(a), self.rng(b)
            ty = self.c.ty(t[5])
            lim = INTS.get(ty['s']) or (ISIZE if ty['s'] == 'isize' else (0, (1 << 64) - 1))
            if ra and rb:
                lo, hi = (ra[0] + rb[0], ra[1] + rb[1]) if m.endswith('add') else (ra[0] - rb[1], ra[1] - rb[0])
                if lim[0] <= lo and hi <= lim[1] or b[0] == 'i' and a[0] in ('arg', 'lin') and a != A('D'):
                    return self.set_ret(st, t, self.binop(st, 'Add' if m.endswith('add') else 'Sub', a, b, t[5]))
        if 'TextBuf' in s:
            r = self.textbuf(st, t, m)
            if r is not NotImplemented:
                return r
        return NInterp.call(self, st, t)

    def textbuf(self, st, t, m):
        if m in ('new', 'default') and not t[2]:
            return self.set_ret(st, t, ('adt', TB, 0, ()))
        if not t[2]:
            return NotImplemented
        args = [self.operand(st, o) for o in t[2]]
        a = args[0]
        v = self.read(st, a[1], a[2]) if a[0] == 'ref' else a[1] if a[0] == '&' else a
        if v is None or v[0] != 'adt' or v[1] != TB:
            return NotImplemented
        if m in ('push_fragment', 'push_fragment_computed', 'write_str') and a[0] == 'ref':
            self.store(st, a[1], a[2], ('adt', TB, 0, v[3] + (self.snap(st, args[1]),)))
            rt = self.c.ty(t[5])
            return self.set_ret(st, t, ('adt', rt['path'], 0, (('tup', ()),)))
        if m in ('as_str', 'get', 'deref', 'as_ref', 'borrow'):
            return self.set_ret(st, t, ('cat', v[3]))
        if m == 'clear' and a[0] == 'ref':
            self.store(st, a[1], a[2], ('adt', TB, 0, ()))
            return self.set_ret(st, t, ('tup', ()))
        return NotImplemented


def subst(v, path, new):
    if not path:
        return new
    assert v[0] == 'adt'
    return v[:3] + (tuple(subst(x, path[1:], new) if i == path[0] else x for i, x in enumerate(v[3])),)


def at(v, path):
    for i in path:
        if v[0] != 'adt' or i >= len(v[3]):
            return None
        v = v[3][i]
    return v


def diffs(a, b, path=()):
    if a == b:
        return []
    if a[0] == 'adt' and b[0] == 'adt' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
        return [d for i, (x, y) in enumerate(zip(a[3], b[3])) for d in diffs(x, y, path + (i,))]
    return [(path, a, b)]


def pieces(t):
    """a text as the list of what it concatenates"""
    t = noref(t)
    while t[0] in ('wrapv', '&'):
        t = noref(t[1])
    if t[0] == 'cat':
        return [p for x in t[1] for p in pieces(x)]
    if t[0] == 'str':
        return [t] if t[1] else []
    if t[0] == 'app' and t[1].split('::')[-1] in ('format', 'format_finite'):
        x = noref(t[2][-1])
        while x[0] == 'exact':
            x = x[2]
        return [('num', x)]
    return [t]


class Parent:
    def __init__(self, ctx, rep, cfg, crate, kind):
        self.ctx, self.rep, self.cfg, self.c, self.kind = ctx, rep, cfg, crate, kind
        self.names = Names(ctx, cfg)
        self.R = self.names.R
        self.f = None
        self.entry_f = self.entry_function(kind)
        self.ms = {}

    def entry_function(self, kind):
        fs = [f for f in self.c.roots if f['path'].split('::')[-1] == 'flatten_to_' + kind]
        if len(fs) != 1:
            raise Unknown('no entry point flatten_to_%s' % kind)
        return fs[0]

    # ------------------------------------------------------------------ running
    def interpret(self, f, args, state=None):
        it = FInterp(self.c, opaque_inst=buffer_fn)
        mem = {}
        args = list(args)
        if state is not None:
            mem = {LOC: state}
            args = [('ref', LOC, ())] + args
        g = it.run(f, args, mem=mem)
        if g.incomplete:
            raise Unknown('%s: %s' % (f['path'], g.incomplete))
        if g.escapes:
            raise Unknown('%s hands a closure to %s' % (f['path'], g.escapes[0][0]))
        out = []
        stack = [(g.start, (), None, {})]
        while stack:
            n, evs, failed, used = stack.pop()
            if n in g.term:
                t = g.term[n]
                if t['kind'] == 'unreachable':
                    continue
                post = it.snap(t['state'], it.load(t['state'], LOC)) if mem else None
                out.append(Out(evs, failed, t.get('snap', t.get('ret')) if t['kind'] == 'ret' else None, post,
                               t['kind'] if t['kind'] != 'ret' else res_kind(t)))
                continue
            if len(out) > 200:
                raise Unknown('too many paths')
            for i, (e, d) in enumerate(g.edges[n]):
                if isinstance(e, tuple) and e[:2] == ('fmt', 'fail'):
                    continue        # only numbers are formatted here, which does not fail by itself
                u = used
                if len(g.edges[n]) > 1:
                    if used.get((n, i), 0) >= 2:
                        continue
                    u = dict(used)
                    u[(n, i)] = u.get((n, i), 0) + 1
                if is_res(e, 'err'):
                    stack.append((d, evs, failed or e[2], u))
                elif is_ev(e):
                    stack.append((d, evs + (e,), failed, u))
                else:
                    stack.append((d, evs, failed, u))
        return out

    def entry(self):
        """runs the entry point; the state it hands to the value, the methods on it, and where it reads the offset it returns"""
        f = self.f = self.entry_f
        names = [f['locals'][i + 1][1] for i in range(f['nargs'])]
        if f['nargs'] < 2:
            raise Unknown('parameters of %s' % f['path'])
        args = [A('stream'), A('value')] + [A('offset')] * (f['nargs'] - 2)
        cbs = [x for b in f['blocks'] if b and b['t'][0] == 'call' for x in b['t'][1].get('cb', ())]
        state, path = None, None
        for o in self.interpret(f, args):
            if o.kind == 'panic':
                raise Bad('it may panic')
            evs = [e for e in o.evs if e.method != 'drop']
            if o.failed is not None:
                if o.kind == 'ok':
                    raise Bad('it succeeds although `%s` failed' % o.failed.method)
                continue
            if o.kind != 'ok':
                raise Bad('it fails by itself')
            if len(evs) != 1 or evs[0].method not in ('stream', 'stream_ref') or noref(evs[0].recv) != A('value'):
                if [e for e in evs if noref(e.recv) == A('value')] and len(evs) > 1:
                    raise Bad('it makes the calls %s instead of streaming the value once' % [e.method for e in evs])
                if not evs:
                    raise Bad('it does not stream the value')
                raise Unknown('it makes the calls %s' % [e.method for e in evs])
            s = noref(evs[0].args[-1])
            if s[0] != 'adt':
                raise Unknown('what the value is streamed into')
            state = s
            if f['nargs'] > 2:
                r = noref(o.ret)
                r = r[3][0] if r[0] == 'adt' and r[3] else r
                if r[0] == 'havoc':
                    path = tuple(r[2][1:])
                elif r == A('offset') or r[0] == 'i':
                    raise Bad('the offset it returns is %s, whatever was flattened' % show(r))
                else:
                    raise Unknown('the offset it returns is %s' % show(r)[:80])
        cbs = [x for x in cbs if self.c.ty(x['ty']).get('path') == state[1]]
        if len(cbs) != 1:
            raise Unknown('the methods of the stream the value is given')
        self.ms = {m: self.c.fns[i] for m, i in cbs[0]['methods'] if i in self.c.fns}
        if path is not None and at(state, path) != A('offset'):
            raise Bad('the offset it returns does not start from the one it was given')
        return state, path

    def call(self, state, m, args):
        """events on the parent stream and the state after, on success"""
        f = self.ms.get(m)
        if f is None:
            raise Unknown('no method %s' % m)
        self.f = f
        res = []
        for o in self.interpret(f, args, state):
            if o.kind == 'panic':
                raise Bad('`%s` may panic' % m)
            evs = [e for e in o.evs if e.method != 'drop']
            for e in evs:
                if noref(e.recv) != A('stream'):
                    raise Unknown('a call of `%s` on %s' % (e.method, show(e.recv)[:60]))
            if o.failed is not None:
                if o.kind == 'ok':
                    raise Bad('`%s` succeeds although `%s` failed' % (m, o.failed.method))
                if evs and evs[-1] is not o.failed and o.failed in evs:
                    raise Bad('`%s` calls `%s` after `%s` failed' % (m, evs[-1].method, o.failed.method))
                continue
            if o.kind != 'ok':
                raise Bad('`%s` fails by itself' % m)
            res.append((evs, o.post))
        if not res:
            raise Bad('`%s` never succeeds' % m)
        return res

    def one(self, state, m, args, look=None):
        res = self.call(state, m, args)
        posts = []
        for e, p in res:
            if look is not None:
                look(e)
            if p not in posts:
                posts.append(p)
        if len(posts) > 1:
            raise Unknown('`%s` leaves several states' % m)
        return [e for e, _ in res], posts[0]

    def silent(self, state, m, args):
        def look(evs):
            if evs:
                raise Bad('`%s` here calls `%s` on the parent' % (m, evs[0].method))
        return self.one(state, m, args, look)[1]

    def passed(self, state, m, args):
        """the token reaches the parent as itself"""
        return self.one(state, m, args, lambda evs: self.is_token(evs, m, args))[1]

    def is_token(self, evs, m, args):
        if len(evs) != 1:
            raise Bad('`%s` inside a flattened value is dropped' % m if not evs else '`%s` inside a flattened value becomes %s' % (m, [e.method for e in evs]))
        e = evs[0]
        if e.method != m:
            raise Bad('`%s` inside a flattened value becomes `%s`' % (m, e.method))
        for i, (x, y) in enumerate(zip(e.args, args)):
            if noref(x) != noref(y):
                raise Bad('argument %d of `%s` inside a flattened value is %s' % (i + 1, m, show(x)[:80]))

    def same(self, a, b, what):
        d = diffs(a, b)
        if d:
            self.after_differs(a, b, what, d)

    def after_differs(self, a, b, what, d):
        raise Unknown('%s leaves another state: %s instead of %s' % (what, show(d[0][2])[:60], show(d[0][1])[:60]))

    # ------------------------------------------------------------------ obligations
    def ob(self, rule, what, go):
        self.f = self.entry_f
        try:
            r = go()
            self.rep.ok(rule, '%s [%s] %s: %s' % (fn_where(self.f), self.cfg, self.kind, what))
            return r
        except Bad as e:
            self.rep.viol('flatten_to_%s/%s/%s' % (self.kind, rule, what), rule, fn_where(self.f),
                          'flattening onto a %s, %s: %s' % (self.kind, what, e))
        except Unknown as e:
            self.rep.inconclusive(rule, fn_where(self.f), '[%s] onto a %s, %s: %s' % (self.cfg, self.kind, what, e))
        return None

    def index(self, n, tagged=True):
        l = self.R.ctor('Index::new_isize', [n])
        if tagged:
            l = self.R.ctor('Index::with_tag', [l, ('&', self.R.tag('VALUE_OFFSET'))])
        return rename(l)

    def check(self, curpath=None):
        r = self.ob('entry', 'entry point', self.entry)
        if r is None:
            return None
        s0, cp = r
        cp = cp or curpath
        self.cp = cp
        self.s0 = s0
        if cp is None:
            self.rep.inconclusive('entry', fn_where(self.entry_f), 'where the running offset is kept')
            return None
        base = subst(s0, cp, A('CUR'))
        self.root(base)
        Scripts(self).check()
        return cp

    def root(self, s):
        for m, a in LEAVES:
            def leaf():
                self.same(s, self.silent(s, m, a), '`%s`' % m)
            self.ob('root', 'a value that cannot be flattened is left out: `%s`' % m, leaf)

        def tagged():
            t = self.silent(s, 'tagged_begin', ID)
            self.same(s, t, '`tagged_begin`')
            self.same(s, self.silent(t, 'tagged_end', ID), '`tagged_end`')
        self.ob('root', 'a tagged value stands for what it wraps', tagged)
        for k in ('map', 'seq', 'record', 'tuple', 'record_tuple'):
            self.ob('container', 'items of a %s' % k, lambda: self.container(s, k))

        def enum():
            e = self.silent(s, 'enum_begin', ID)
            for m, a in [('tag', ID)]:
                self.same(e, self.silent(e, m, a), '`%s`' % m)
            e2 = self.silent(e, 'enum_begin', ID)
            if e2 != e:
                raise Unknown('an enum in an enum')
            # every way an enum ends, with the enums and tagged values around it
            p = self.silent(e, 'enum_end', ID)
            self.same(p, self.silent(p, 'enum_end', ID), '`enum_end` of the enclosing enum')
            q = self.silent(p, 'tagged_end', ID)
            self.same(p, q, '`tagged_end` of the enclosing tagged value')
            if at(p, self.cp) != at(s, self.cp):
                raise Bad('an empty enum changes the offset')
            return e
        e = self.ob('enum', 'an enum stands for its variant', enum)
        if e is None:
            return
        for k in ('record', 'tuple', 'record_tuple'):
            self.ob('container', 'items of a %s variant' % k, lambda: self.container(e, k))
        for lab in (1, 0):
            for ix in ('none', 'offset', 'plain'):
                if lab or ix != 'none':
                    self.ob('variant', 'a tagged variant %s label, index %s' % ('with' if lab else 'without', ix), lambda: self.variant(e, lab, ix))

    # ------------------------------------------------------------------ items
    def expect_begin(self, evss, tag, label, index, keyed, m):
        for evs in evss:
            self.item(evs, 'begin', tag, label, index, keyed, m)

    def expect_end(self, evss, tag, label, index, m):
        for evs in evss:
            self.item(evs, 'end', tag, label, index, True, m)

    def item(self, evs, which, tag, label, index, keyed, m):
        evs = list(evs)
        if self.kind == 'map' and which == 'begin' and not keyed:
            evs = self.key(evs, label, m)
        name = {'map': 'map_value_', 'seq': 'seq_value_', 'record': 'record_value_', 'tuple': 'tuple_value_',
                'record_tuple': 'record_tuple_value_'}[self.kind] + which
        if [e.method for e in evs] != [name]:
            raise Bad('`%s` becomes %s instead of `%s`' % (m, [e.method for e in evs] or 'nothing', name))
        a = list(evs[0].args)
        if self.kind in ('record', 'tuple', 'record_tuple'):
            t = noref(a.pop(0))
            if tag != 'any' and t != noref(tag):
                raise Bad('`%s` is given the tag %s' % (name, show(t)[:60]))
            self.seen_tag = t
        if self.kind in ('record', 'record_tuple'):
            self.label(a.pop(0), label, name)
        if self.kind in ('tuple', 'record_tuple'):
            self.index_is(a.pop(0), index, name)

    def label(self, v, want, name):
        v = noref(v)
        if want[0] == 'same':
            if v != noref(want[1]):
                if mentions_any(v, lambda x: x == noref(want[1])):
                    text = self.names.label(v)[0]
                    if text == self.names.label(noref(want[1]))[0]:
                        return
                raise Bad('`%s` is given the label %s' % (name, show(v)[:80]))
            return
        self.text(self.names.label(v)[0], want[1], name)

    def text(self, t, want, name):
        got = pieces(t)
        if got != want:
            if mentions_any(t, lambda x: isinstance(x, tuple) and x and x[0] in ('havoc', 'post', 'ret')):
                raise Unknown('the label of `%s`' % name)
            raise Bad('`%s` is given the label %s instead of %s' % (name, [show(x)[:40] for x in got], [show(x)[:40] for x in want]))

    def key(self, evs, label, m):
        """the events that stream the label as a map key; returns what follows them"""
        ms = [e.method for e in evs]
        if not ms or ms[0] != 'map_key_begin' or 'map_key_end' not in ms:
            raise Bad('`%s` becomes %s without a key' % (m, ms))
        i = ms.index('map_key_end')
        ps = []
        text = ms[1:i] and ms[1] == 'text_begin'
        for e in evs[1:i]:
            if e.method in ('text_begin', 'text_end'):
                continue
            if e.method in (('text_fragment', 'text_fragment_computed') if text else ('value', 'value_computed')):
                v = noref(e.args[0])
                ps.append(v)
            else:
                raise Unknown('the key is streamed with `%s`' % e.method)
        if not text and len(ps) != 1:
            raise Bad('the key of an item is %d values' % len(ps))
        if label[0] == 'same':
            l = noref(label[1])
            want = [self.names_text(l)]
            for p in ps:
                got = p
                if not text and p[0] == 'adt' and 'Label' in p[1]:
                    got = self.names_text(p)
                if pieces(got) != [x for w in want for x in pieces(w)]:
                    if l in (got,):
                        continue
                    raise Bad('the key of an item is %s instead of its label' % show(got)[:80])
        else:
            self.text(('cat', tuple(ps)), label[1], 'the key')
        return evs[i + 1:]

    def names_text(self, l):
        return self.names.label(l)[0]

    def index_is(self, v, want, name):
        v = noref(v)
        n, tag, same = want
        if same is not None and v == noref(same):
            return
        if n is None:
            raise Bad('`%s` is given the index %s' % (name, show(v)[:80]))
        if v[0] != 'adt' or not v[1].endswith('Index'):
            raise Unknown('the index of `%s`: %s' % (name, show(v)[:80]))
        want = self.index(n, tag)
        if self.num(v[3][0]) != self.num(want[3][0]) or noref(v[3][1]) != noref(want[3][1]):
            if noref(v[3][1]) == noref(want[3][1]) and mentions_any(v, lambda x: isinstance(x, tuple) and x and x[0] in ('havoc', 'post', 'ret')):
                raise Unknown('the index of `%s`' % name)
            raise Bad('`%s` is given the index %s instead of %s' % (name, show(v)[:80], show(want)[:80]))

    def num(self, x):
        x = noref(x)
        while x[0] == 'exact':
            x = x[2]
        if x[0] == 'bin' and x[1] == 'Add':
            return ('bin', 'Add') + tuple(sorted((self.num(x[2]), self.num(x[3])), key=repr))
        return x

    def advanced(self, t, post, n, what):
        """the state after an item: as before, with the running offset one past the item"""
        want = subst(t, self.cp, ('lin', n, 1) if n[0] != 'lin' else ('lin', n[1], n[2] + 1))
        d = diffs(want, post)
        d = [x for x in d if not (x[0] == self.cp and self.num(self.unlin(x[1])) == self.num(self.unlin(x[2])))]
        for p, a, b in d:
            if p == self.cp:
                raise Bad('after %s the running offset is %s instead of %s' % (what, show(b)[:60], show(a)[:60]))
        d = [x for x in d if not self.stale(x)]
        if d:
            raise Unknown('%s leaves another state: %s instead of %s' % (what, show(d[0][2])[:60], show(d[0][1])[:60]))

    def stale(self, d):
        """a label kept from the last item is overwritten before it is used again (checked by running the next item)"""
        return any(isinstance(x, tuple) and x and x[0] == 'adt' and 'LabelBuf' in x[1] for x in (d[1], d[2]))

    def unlin(self, x):
        return x

    def container(self, s, k):
        begin, rnd, end = NESTED[k]
        t = self.silent(s, begin[0], begin[1])
        # no items
        self.same(s, self.silent(t, end[0], end[1]), 'an empty %s' % k)
        last = {'map': self.map_items, 'seq': self.seq_items, 'record': self.record_items, 'tuple': self.tuple_items,
                'record_tuple': self.record_tuple_items}[k](t)
        for x in last:
            # the next item starts from the state the last one left
            {'map': self.map_items, 'seq': self.seq_items, 'record': self.record_items, 'tuple': self.tuple_items,
             'record_tuple': self.record_tuple_items}[k](subst(x, self.cp, A('CUR')), again=True)
            b = self.silent(x, end[0], end[1])
            d = [y for y in diffs(s, b) if y[0] != self.cp and not self.stale(y)]
            if d:
                raise Unknown('the end leaves another state: %s' % show(d[0][2])[:60])
            if at(b, self.cp) != at(x, self.cp):
                raise Bad('`%s` changes the running offset' % end[0])

    def round(self, t, begin, end, tag, label, index, n, keyed=False, again=False, step=True):
        evss, v = self.one(t, begin[0], begin[1])
        self.expect_begin(evss, tag, label, index, keyed, begin[0])
        if not again:
            self.values(v)
        seen = getattr(self, 'seen_tag', None)
        evss, post = self.one(v, end[0], end[1])
        self.expect_end(evss, tag, label, index, end[0])
        if tag == 'any' and seen is not None and self.seen_tag != seen:
            raise Bad('an item begins with the tag %s and ends with %s' % (show(seen)[:40], show(self.seen_tag)[:40]))
        if step:
            self.advanced(t, post, n, '`%s`' % end[0])
        return post

    def seq_items(self, t, again=False):
        cur = A('CUR')
        return [self.round(t, ('seq_value_begin', ()), ('seq_value_end', ()), 'any', ('text', [('num', cur)]), (cur, True, None), cur, again=again)]

    def labels(self):
        out = []
        for f in self.R.sv.roots:
            if f['path'].split('::')[-1] in ('new', 'new_computed') and 'Label' in f['path']:
                g = run(self.R.sv, f, [A('LABEL')])
                rets = [x for x in g.term.values() if x['kind'] == 'ret']
                if len(rets) == 1 and not g.incomplete:
                    l = self.R.ctor("Label::<'computed>::with_tag", [rets[0]['snap'], ('&', self.R.tag('NUMBER'))])
                    out.append(rename(l))
        if len(out) < 2:
            raise Unknown('no label constructors')
        return out

    def record_items(self, t, again=False):
        cur = A('CUR')
        out = []
        for l in self.labels():
            a = (A('tag2'), ('&', l))
            out.append(self.round(t, ('record_value_begin', a), ('record_value_end', a), A('tag2'), ('same', l), (cur, True, None), cur, again=again))
            again = True
        return out[:1]

    def indexes(self):
        """(index given, number and tag it must arrive with, term it must arrive as when it is not an offset)"""
        ix = self.index(A('IX'))
        init = A('offset') if self.kind != 'seq' else ('i', 0)
        n = ('bin', 'Add', A('IX'), init) if init[0] != 'i' else A('IX')
        return [(ix, n, (n, True, None)), (self.index(A('IX'), False), A('IX'), (None, False, self.index(A('IX'), False)))]

    def tuple_items(self, t, again=False):
        out = []
        for ix, n, want in self.indexes():
            a = (A('tag2'), ('&', ix))
            out.append(self.round(t, ('tuple_value_begin', a), ('tuple_value_end', a), A('tag2'), ('text', [('num', n)]), want, n, again=again))
            again = True
        return out[:1]

    def record_tuple_items(self, t, again=False):
        out = []
        l = self.labels()[0]
        for ix, n, want in self.indexes():
            a = (A('tag2'), ('&', l), ('&', ix))
            out.append(self.round(t, ('record_tuple_value_begin', a), ('record_tuple_value_end', a), A('tag2'), ('same', l), want, n, again=again))
            again = True
        return out[:1]

    def variant(self, e, lab, ix):
        cur = A('CUR')
        l = self.labels()[0]
        want = (cur, True, None)
        n, index = cur, None
        if ix != 'none':
            index, n, want = self.indexes()[0 if ix == 'offset' else 1]
        a = (NONE, SOME(('&', l)) if lab else NONE, SOME(('&', index)) if index is not None else NONE)
        label = ('same', l) if lab else ('text', [('num', n)])
        v = self.round(e, ('tagged_begin', a), ('tagged_end', a), 'any', label, want, n)
        p = self.silent(v, 'enum_end', ID)
        if at(p, self.cp) != at(v, self.cp):
            raise Bad('`enum_end` changes the running offset')
        q = self.silent(p, 'tagged_end', ID)
        if at(q, self.cp) != at(v, self.cp):
            raise Bad('`tagged_end` around the enum changes the running offset')

    def map_items(self, t, again=False):
        cur = A('CUR')
        if self.kind == 'map':
            kb = self.passed(t, 'map_key_begin', ())
            if not again:
                self.values(kb)
            ke = self.passed(kb, 'map_key_end', ())
            return [self.finish_item(t, ke, None, cur, again)]
        kb = self.silent(t, 'map_key_begin', ())
        if self.kind in ('seq', 'tuple'):
            if not again:
                self.dropped(kb)
            ke = self.silent(kb, 'map_key_end', ())
            return [self.finish_item(t, ke, None, cur, again)]
        last = None
        for toks, text in self.keys() if not again else self.keys()[:1] + self.keys('2')[:1]:
            s = kb
            for m, a in toks:
                s = self.silent(s, m, a)
            ke = self.silent(s, 'map_key_end', ())
            try:
                last = self.finish_item(t, ke, text, cur, again)
            except Bad as b:
                raise Bad('with the key %s, %s' % ('+'.join(m for m, _ in toks), b))
            again = True
        return [last]

    def finish_item(self, t, ke, text, cur, again):
        return self.round_from(t, ke, ('map_value_begin', ()), ('map_value_end', ()), 'any', ('text', text), (cur, True, None), cur, again)

    def round_from(self, t, s, begin, end, tag, label, index, n, again):
        evss, v = self.one(s, begin[0], begin[1])
        self.expect_begin(evss, tag, label, index, True, begin[0])
        if not again:
            self.values(v)
        seen = getattr(self, 'seen_tag', None)
        evss, post = self.one(v, end[0], end[1])
        self.expect_end(evss, tag, label, index, end[0])
        if seen is not None and self.seen_tag != seen:
            raise Bad('an item begins with the tag %s and ends with %s' % (show(seen)[:40], show(self.seen_tag)[:40]))
        self.advanced(t, post, n, '`%s`' % end[0])
        return post

    def keys(self, n=''):
        """keys and the text they stand for"""
        F, G, H = 'F' + n, 'G' + n, 'H' + n
        T = lambda *fs: [('text_begin', (A('n'),))] + [('text_fragment_computed' if c else 'text_fragment', (A(x),)) for x, c in fs] + [('text_end', ())]
        l = self.labels()[0]
        lt = self.names_text(l)
        ix = self.index(A('IX'), False)
        out = [(T((F, 0)), [A(F)]), (T((F, 1)), [A(F)]), (T(), []), (T((F, 0), (G, 1), (H, 0)), [A(F), A(G), A(H)]),
               ([('null', ())], [('str', 'null')]), ([('bool', (('i', 1),))], [('str', 'true')]), ([('bool', (('i', 0),))], [('str', 'false')]),
               ([('tag', (NONE, SOME(('&', l)), SOME(('&', ix))))], pieces(lt)), ([('tag', (NONE, NONE, SOME(('&', ix))))], [('num', A('IX'))])]
        for ty in list(INTS) + ['f64']:
            out.append(([(ty, (A('v_' + ty),))], [('num', A('v_' + ty))]))
        num = lambda ty: (ty, (A('v_' + ty),))
        V = lambda *xs: [('seq_begin', (A('n'),))] + [y for x in xs for y in [('seq_value_begin', ())] + x + [('seq_value_end', ())]] + [('seq_end', ())]
        N = lambda ty: ('num', A('v_' + ty))
        out += [(V(T((F, 0)), T((G, 1))), [A(F), A(G)]), (V([num('u64')], [num('i64')]), [N('u64'), N('i64')]),
                (V([num('f64')], T((F, 0)), [num('i64')]), [N('f64'), A(F), N('i64')]), (V(T((F, 1)), [num('u128')]), [A(F), N('u128')]),
                (V([num('i128')], [('null', ())]), [N('i128'), ('str', 'null')]), (V(V(T((F, 0))), V(V([num('u64')]))), [A(F), N('u64')]), (V(), [])]
        return out

    # ------------------------------------------------------------------ inside items
    def dropped(self, v):
        """a value here leaves nothing behind"""
        self.walk(v, lambda s, m, a: self.silent(s, m, a))

    def values(self, v):
        """a value here reaches the parent as itself, however deep"""
        self.walk(v, lambda s, m, a: self.passed(s, m, a))

    def walk(self, v, go):
        work, seen = [v], []
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.append(s)
            if len(seen) > 12:
                raise Unknown('too many states inside a value')
            for m, a in LEAVES:
                p = go(s, m, a)
                self.same(s, p, '`%s` inside a value' % m)
            for k, (b, rnd, e) in NESTED.items():
                x, dp = self.deeper(s, go(s, b[0], b[1]))
                cur = x
                for r in rnd:
                    if r is None:
                        if cur not in seen and cur not in work:
                            work.append(cur)
                    else:
                        cur = go(cur, r[0], r[1])
                self.same(x, cur, 'an item of a %s inside a value' % k)
                p = go(x, e[0], e[1])
                if dp is not None:
                    if at(p, dp) != ('lin', A('D'), -1):
                        raise Unknown('the depth after a %s is %s' % (k, show(at(p, dp))))
                    p = subst(p, dp, at(s, dp))
                self.same(s, p, 'a %s inside a value' % k)

    def deeper(self, s, x):
        """entering a container adds one to a depth counter: from there on it stands for any depth"""
        d = diffs(s, x)
        if len(d) == 1:
            p, a, b = d[0]
            if a == A('D') and b == ('lin', A('D'), 1) or a[0] == 'i' and b == ('i', a[1] + 1) and b[1] >= 2:
                return subst(x, p, A('D')), p
        return x, None


class Scripts:
    """whole values, two items and two levels below them in every combination, followed from the entry point and compared with
    the documented result; decides what an item leaves behind when the states differ"""

    def __init__(self, p):
        self.p = p
        self.cache = {}
        self.start = A('offset') if p.kind != 'seq' else ('i', 0)

    # -- values as trees: ('leaf', tokens) ('map', [(key, value)]) ('seq', [value]) ('record', [(label, value)])
    #    ('tuple', [(k, value)]) ('record_tuple', [(label, k, value)]) ('tagged', label, index, value) ('enum', value) ('tag',)
    def ix(self, k):
        return ('&', self.p.index(('i', k)))

    def tokens(self, v):
        k = v[0]
        if k == 'leaf':
            return list(v[1])
        if k == 'tag':
            return [('tag', ID)]
        if k == 'enum':
            return [('enum_begin', ID)] + (self.tokens(v[1]) if v[1] else []) + [('enum_end', ID)]
        if k == 'tagged':
            a = self.tagged_args(v)
            return [('tagged_begin', a)] + self.tokens(v[3]) + [('tagged_end', a)]
        b, _, e = NESTED[k]
        out = [b]
        for item in v[1]:
            if k == 'map':
                out += [('map_key_begin', ())] + self.tokens(item[0]) + [('map_key_end', ()), ('map_value_begin', ())] + self.tokens(item[1]) + [('map_value_end', ())]
            else:
                a = self.item_args(k, item)
                out += [(k + '_value_begin', a)] + self.tokens(item if k == 'seq' else item[-1]) + [(k + '_value_end', a)]
        return out + [e]

    def tagged_args(self, v):
        return (NONE, SOME(('&', v[1])) if v[1] is not None else NONE, SOME(self.ix(v[2])) if v[2] is not None else NONE)

    def item_args(self, k, item):
        return {'seq': lambda: (), 'record': lambda: (A('tag2'), ('&', item[0])), 'tuple': lambda: (A('tag2'), self.ix(item[0])),
                'record_tuple': lambda: (A('tag2'), ('&', item[0]), self.ix(item[1]))}[k]()

    def plus(self, n, k):
        if n[0] == 'i':
            return ('i', n[1] + k)
        if n[0] == 'lin':
            n, k = n[1], n[2] + k
        return n if k == 0 else ('lin', n, k)

    def expected(self, v, enum=False):
        """([what the parent is sent], running offset after)"""
        k = v[0]
        off = self.start
        if k in ('leaf', 'tag'):
            return [], off
        if k == 'enum':
            return self.expected(v[1], True) if v[1] else ([], off)
        if k == 'tagged':
            if not enum:
                return self.expected(v[3])
            n = self.plus(self.start, v[2]) if v[2] is not None else off
            l = ('same', v[1]) if v[1] is not None else ('text', [('num', n)])
            it = ('any', l, (n, True, None))
            return [('begin', it, False)] + [('tok', t) for t in self.tokens(v[3])] + [('end', it)], self.plus(n, 1)
        out = []
        for item in v[1]:
            n = off
            if k == 'map':
                keyed = True
                l = ('text', self.key_text(item[0]))
                tag = 'any'
                if self.p.kind == 'map':
                    out += [('tok', t) for t in [('map_key_begin', ())] + self.tokens(item[0]) + [('map_key_end', ())]]
            else:
                keyed = False
                tag = 'any' if k == 'seq' else A('tag2')
                if k in ('tuple', 'record_tuple'):
                    n = self.plus(self.start, item[-2])
                l = ('same', item[0]) if k in ('record', 'record_tuple') else ('text', [('num', n)])
            it = (tag, l, (n, True, None))
            out += [('begin', it, keyed)] + [('tok', t) for t in self.tokens(item if k == 'seq' else item[-1])] + [('end', it)]
            off = self.plus(n, 1)
        return out, off

    def key_text(self, v):
        out = []
        for m, a in self.tokens(v):
            if m in ('text_fragment', 'text_fragment_computed'):
                out.append(a[0])
        return out

    # -- running
    def step(self, s, m, a):
        k = (s, m, a)
        if k not in self.cache:
            self.cache[k] = self.p.call(s, m, a)
        return self.cache[k]

    def outcomes(self, toks):
        cur = [(self.p.s0, ())]
        for m, a in toks:
            nxt = []
            for s, evs in cur:
                for e, post in self.step(s, m, a):
                    x = (post, evs + tuple(e))
                    if x not in nxt:
                        nxt.append(x)
            if len(nxt) > 40:
                raise Unknown('too many ways through a value')
            cur = nxt
        return cur

    def compare(self, evs, want, post, off):
        p = self.p
        evs = list(evs)
        seen = None
        for w in want:
            if not evs:
                raise Bad('the parent is not sent `%s`' % (w[1][0] if w[0] == 'tok' else 'the %s of an item' % w[0]))
            if w[0] == 'tok':
                p.is_token(evs[:1], w[1][0], w[1][1])
                evs = evs[1:]
                continue
            n = 1
            if p.kind == 'map' and w[0] == 'begin' and not w[2]:
                ms = [e.method for e in evs]
                if 'map_value_begin' not in ms:
                    raise Bad('the parent is sent %s for an item' % ms[:6])
                n = ms.index('map_value_begin') + 1
            tag, l, ix = w[1]
            p.item(evs[:n], w[0], tag, l, ix, w[0] == 'end' or w[2], 'an item')
            if w[0] == 'begin':
                seen = getattr(p, 'seen_tag', None)
            elif seen is not None and p.seen_tag != seen:
                raise Bad('an item begins with the tag %s and ends with %s' % (show(seen)[:40], show(p.seen_tag)[:40]))
            evs = evs[n:]
        if evs:
            raise Bad('the parent is also sent `%s`' % evs[0].method)
        if p.kind != 'seq' and p.num(at(post, p.cp)) != p.num(off):
            raise Bad('the offset after it is %s instead of %s' % (show(at(post, p.cp))[:60], show(off)[:60]))

    # -- the values
    def values(self):
        L = self.p.labels()
        l1, l2 = L[0], L[1]
        leaf = ('leaf', (('u64', (A('v_u64'),)),))
        text = ('leaf', (('text_begin', (A('n'),)), ('text_fragment', (A('F'),)), ('text_fragment_computed', (A('G'),)), ('text_end', ())))
        other = ('leaf', (('text_begin', (A('n'),)), ('text_fragment', (A('H'),)), ('text_end', ())))
        tag = ('tag',)

        def around(x, y):
            return [('map', [(text, x), (other, y)]), ('map', [(x, text), (leaf, y)]), ('seq', [x, y]), ('record', [(l1, x), (l2, y)]), ('tuple', [(0, x), (1, y)]),
                    ('record_tuple', [(l1, 0, x), (l2, 1, y)]), ('tagged', l1, 3, x), ('enum', ('tagged', l1, 3, x)), ('enum', ('record', [(l1, x)])), ('enum', ('enum', ('tuple', [(0, x)])))]
        c0 = [leaf, text, tag, ('enum', tag), ('enum', None), ('seq', []), ('map', [])]
        c1 = around(leaf, text)
        c2 = [y for x in c1 for y in around(x, leaf)]

        def roots(x):
            return [('map', [(text, x), (other, leaf)]), ('seq', [x, leaf]), ('record', [(l1, x), (l2, leaf)]), ('tuple', [(0, x), (1, leaf)]), ('record_tuple', [(l1, 0, x), (l2, 1, leaf)])]

        def variants(x):
            return [('enum', ('tagged', l, i, x)) for l in (l1, None) for i in (0, 2, None) if l is not None or i is not None] + \
                [('enum', v) for v in roots(x)[2:]] + [('enum', ('enum', v)) for v in roots(x)[2:3]]
        out = list(c0)
        for x in c0 + c1 + c2:
            out += roots(x)
        for x in c0 + c1:
            vs = variants(x)
            out += vs + [('tagged', l1, 1, v) for v in vs + roots(x)] + [('tagged', None, None, ('tagged', l1, 1, v)) for v in vs[:2]]
            out += [('enum', v) for v in vs[:3]]
        if self.p.kind in ('map', 'seq', 'tuple'):
            for x in c1 + c2:
                out.append(('map', [(x, leaf), (text, x)]))
        for k in range(6):
            x = leaf
            for _ in range(30):
                x = around(x, leaf)[(0, 2, 3, 4, 5, 6)[k]]
            out += [('seq', [x, leaf]), ('record', [(l1, x), (l2, leaf)])]
        return out

    def check(self):
        p = self.p

        def go():
            n = 0
            for v in self.values():
                want, off = self.expected(v)
                for post, evs in self.outcomes(self.tokens(v)):
                    try:
                        self.compare(evs, want, post, off)
                    except Bad as e:
                        raise Bad('%s (flattening %s)' % (e, self.name(v)))
                    n += 1
            p.f = p.entry_f
            return n
        n = p.ob('values', 'whole values', go)
        if n:
            p.rep.ok('values', '%s [%s] %s: %d values followed through' % (fn_where(p.entry_f), p.cfg, p.kind, n))

    def name(self, v, d=0):
        if v[0] in ('leaf', 'tag') or d > 3:
            return v[1][0][0] if v[0] == 'leaf' else v[0]
        if v[0] == 'enum':
            return 'enum{%s}' % (self.name(v[1], d + 1) if v[1] else '')
        if v[0] == 'tagged':
            return 'tagged{%s}' % self.name(v[3], d + 1)
        return '%s{%s}' % (v[0], ', '.join((self.name(i[0], d + 1) + ': ' if v[0] == 'map' else '') + self.name(i[-1] if v[0] != 'seq' else i, d + 1) for i in v[1]))


def p16(ctx, rep):
    ctx.prepare()
    tasks = []
    for cfg in ctx.configs():
        c = ctx.crate('sval_flatten', cfg)
        if c is None:
            continue
        tasks += [(cfg, k) for k in PARENTS]
    pmap(rep, tasks, lambda t, sub: one(ctx, sub, *t))
    rep.cfg = 'full'


def one(ctx, rep, cfg, kind):
    rep.cfg = cfg
    c = ctx.crate('sval_flatten', cfg)
    try:
        cp = None
        if kind == 'seq':
            from common import Report
            cp = Parent(ctx, Report('P16'), cfg, c, 'tuple')
            try:
                cp = cp.entry()[1]
            except (Bad, Unknown):
                cp = None
        Parent(ctx, rep, cfg, c, kind).check(cp)
    except Unknown as e:
        rep.inconclusive('entry', 'flatten_to_%s' % kind, '[%s] %s' % (cfg, e))
