"""P15: flat token streams become nested calls faithfully.

The state of the flat stream at every position a value can be in (root, tagged, element, key, ...) is obtained by
interpreting the methods that lead there; from each such state every kind of value is delivered and must become exactly
one nested call with its own content.  Positions are entered again after an element, so the argument is inductive in the
number of elements; deeper containers go to a buffer, token by token, so it is inductive in the depth.  Buffers are
opaque here (P07 decides them)."""
from common import fn_where, pmap
from interp import Interp, show, NONE as INONE
from lib import *
from machine import LOC
from reps import *
from rules_serde import Names, leaves, opt, same_number, is_mut_self
from typestate import Bad, Unknown

A = lambda n: ('arg', n)
DEQ = '$deque'
OK = ('adt', 'core::result::Result', 0, (('tup', ()),))


class NInterp(Interp):
    """sval's tags, labels and indexes are data: cloning them or making them owned is the identity (P05, P18); a deque is a list"""

    def call(self, st, t):
        c = t[1]
        path = c.get('path', '')
        m = c.get('method') or path.split('::')[-1]
        if m in ('clone', 'to_owned', 'clone_from') and len(t[2]) == 1:
            tys = [self.c.ty(c['self_ty'])['s']] if 'self_ty' in c else []
            s = (c.get('rpath') or path) + ' ' + ' '.join(tys)
            if any(x in s for x in ('Label', 'sval::Tag', 'tag::Tag', 'Index')) and 'Option' not in s:
                a = self.operand(st, t[2][0])
                v = self.read(st, a[1], a[2]) if a[0] == 'ref' else a[1] if a[0] == '&' else None
                if v is not None and v[0] != 'vview':
                    return self.set_ret(st, t, v)
        if 'VecDeque' in path or 'VecDeque' in (c.get('rpath') or ''):
            r = self.deque(st, t, m)
            if r is not NotImplemented:
                return r
        return Interp.call(self, st, t)

    def deque(self, st, t, m):
        if m in ('new', 'default', 'with_capacity'):
            return self.set_ret(st, t, ('adt', DEQ, 0, ()))
        if not t[2]:
            return NotImplemented
        args = [self.operand(st, o) for o in t[2]]
        a = args[0]
        v = self.read(st, a[1], a[2]) if a[0] == 'ref' else a[1] if a[0] == '&' else None
        if v is None or v[0] != 'adt' or v[1] != DEQ:
            return NotImplemented
        items = v[3]
        if m == 'len':
            return self.set_ret(st, t, ('i', len(items)))
        if m == 'is_empty':
            return self.set_ret(st, t, ('i', int(not items)))
        if a[0] != 'ref':
            return NotImplemented
        w = lambda xs: self.store(st, a[1], a[2], ('adt', DEQ, 0, tuple(xs)))
        if m == 'push_back':
            w(items + (args[1],))
            return self.set_ret(st, t, UNIT)
        if m == 'push_front':
            w((args[1],) + items)
            return self.set_ret(st, t, UNIT)
        if m in ('pop_front', 'pop_back'):
            if not items:
                return self.set_ret(st, t, NONE)
            x = items[0] if m == 'pop_front' else items[-1]
            w(items[1:] if m == 'pop_front' else items[:-1])
            return self.set_ret(st, t, SOME(x))
        return NotImplemented


def buffer_fn(cf, c):
    return 'sval_buffer' in (cf.get('impl_self') or cf.get('inh_self') or '') or cf['path'].startswith('sval_buffer')


class Out:
    def __init__(self, evs, failed, ret, post, kind, facts=None):
        self.evs, self.failed, self.ret, self.post, self.kind = evs, failed, ret, post, kind
        self.facts = facts or {}


def is_buffer(e):
    return 'sval_buffer' in (e.path or '') or 'sval_buffer::' in (e.data or '').split('<')[0]


def interpret(crate, f, args, state=None, values=False):
    it = NInterp(crate, opaque_inst=buffer_fn)
    mem = {}
    args = list(args)
    if state is not None:
        if is_mut_self(crate, f):
            mem = {LOC: state}
            args = [('ref', LOC, ())] + args
        else:
            args = [state] + args
    g = it.run(f, args, mem=mem)
    if g.incomplete:
        raise Unknown('%s: %s' % (f['name'] if 'name' in f else f['path'], g.incomplete))
    if g.escapes:
        raise Unknown('%s hands a closure to %s' % (f['path'], g.escapes[0][0]))
    out = []
    stack = [(g.start, (), None, {})]
    while stack:
        n, evs, failed, used = stack.pop()
        if n in g.term:
            t = g.term[n]
            if t['kind'] == 'unreachable':
                continue
            post = it.snap(t['state'], it.load(t['state'], LOC)) if mem and 'state' in t else None
            out.append(Out(evs, failed, t.get('snap', t.get('ret')) if t['kind'] == 'ret' else None, post,
                           t['kind'] if t['kind'] != 'ret' else res_kind(t), t['state'].facts if 'state' in t else None))
            continue
        if len(out) > 300:
            raise Unknown('too many paths')
        for i, (e, d) in enumerate(g.edges[n]):
            u = used
            if len(g.edges[n]) > 1:
                if used.get((n, i), 0) >= 2:
                    continue
                u = dict(used)
                u[(n, i)] = u.get((n, i), 0) + 1
            if is_res(e, 'err'):
                stack.append((d, evs, failed or e[2], u))
            elif is_ev(e):
                stack.append((d, evs + (e,), failed, u))
            else:
                stack.append((d, evs, failed, u))
    return out


VALUE = {'root': ('value', 'value_ref'), 'seq': ('value', 'value_ref'), 'key': ('key', 'key_ref'), 'mapvalue': ('value', 'value_ref'),
         'field': ('value', 'value_ref'), 'tagged': ('tagged', 'tagged_ref')}
COMPUTED = {'root': ('value_computed',), 'seq': ('value_computed',), 'key': ('key_computed',), 'mapvalue': ('value_computed',),
            'field': ('value_computed',), 'tagged': ('tagged_computed',)}


class Pos:
    """a position a value can be in: the state, the object that receives it and what it is given besides the value"""

    def __init__(self, name, kind, state, recv, extra, last):
        self.name, self.kind, self.state, self.recv, self.extra, self.last = name, kind, state, recv, extra, last
        self.nested = ()


class Flat:
    def __init__(self, ctx, rep, cfg, crate, mask=(1, 1, 1)):
        self.mask = mask
        self.ctx, self.rep, self.cfg, self.c = ctx, rep, cfg, crate
        self.names = Names(ctx, cfg)
        R = self.names.R
        self.alloc = 'alloc' in cfg or cfg == 'full'
        self.ms, self.inh, self.enum_ms = {}, {}, {}
        for f in crate.roots:
            s = (f.get('impl_self') or f.get('inh_self') or '').split('<')[0].split('::')[-1]
            tr = (f.get('impl_trait') or '').split('::')[-1]
            if s == 'FlatStream' and tr == 'Stream':
                self.ms[f['name']] = f
            elif s == 'FlatStreamEnum' and tr == 'Stream':
                self.enum_ms[f['name']] = f
            elif not tr and 'FlatStream' in f['path'] and 'Enum' not in f['path']:
                self.inh[f['name']] = f
        # symbolic identities: every part differs from every other, and nothing is known about any
        self.tag = lambda i: A('TAG%d' % i)
        self.index = lambda i: rename(R.ctor('Index::new_u32', [A('INDEX%d' % i)]))
        self.label = lambda i: rename(self.static_label(i))
        self.R = R

    def static_label(self, i):
        l = None
        for f in self.R.sv.roots:
            if f['path'].endswith('::new') and 'Label' in f['path'] and 'computed' not in f['name']:
                g = run(self.R.sv, f, [A('LABEL%d' % i)])
                rets = [t for t in g.term.values() if t['kind'] == 'ret']
                if len(rets) == 1 and not g.incomplete:
                    l = rets[0]['snap']
                    break
        if l is None:
            raise Unknown('no label constructor')
        return self.R.ctor("Label::<'computed>::with_tag", [l, ('&', self.tag(i + 50))])

    def ids(self, i):
        return [SOME(('&', x)) if m else NONE for m, x in zip(self.mask, (self.tag(i), self.label(i), self.index(i)))]

    def cl(self, i):
        return [SOME(x) if m else NONE for m, x in zip(self.mask, (self.tag(i), self.label(i), self.index(i)))]

    # ------------------------------------------------------------------ running
    def call(self, state, m, *args):
        f = self.ms.get(m)
        if f is None:
            raise Unknown('no method %s' % m)
        self.f = f
        return interpret(self.c, f, args, state)

    def result(self, state):
        """what `finish` reports in this state"""
        f = self.inh.get('finish')
        if f is None:
            raise Unknown('how the stream is finished')
        rs = {(o.kind, noref(o.ret) if o.ret is not None else None) for o in interpret(self.c, f, (), state) if o.kind != 'panic'}
        if len(rs) != 1:
            raise Unknown('the result of the stream')
        return rs.pop()

    def step(self, state, m, args, want, silent=False, done=None):
        """want(events) checks the calls made when it succeeds; returns the state after.
        A failure of any call must make this fail and be what `finish` reports."""
        posts = []
        good, bad = 0, None
        for o in self.call(state, m, *args):
            if o.kind == 'panic':
                raise Bad('`%s` may panic' % m)
            if o.failed is not None:
                if o.kind == 'ok':
                    raise Bad('it succeeds although `%s` failed' % o.failed.method)
                k = self.result(o.post)
                if k[0] == 'ok':
                    raise Bad('a failure of `%s` is not what the stream finishes with' % o.failed.method)
                after = o.evs[[id(e) for e in o.evs].index(id(o.failed)) + 1:] if o.failed in o.evs else ()
                for e in after:
                    if not is_buffer(e) and e.method != 'into_err':
                        raise Bad('it calls `%s` after `%s` failed' % (e.method, o.failed.method))
                continue
            if o.kind != 'ok':
                raise Bad('it fails by itself')
            want([e for e in o.evs if e.method not in ('default', 'drop')], o)
            if o.post not in posts:
                posts.append(o.post)
        if not posts:
            raise Bad('it never succeeds')
        if len(posts) > 1 and not silent:
            raise Unknown('it leaves several states')
        return posts[0] if not silent else posts

    # ------------------------------------------------------------------ expectations
    def same(self, a, b, what):
        a, b = noref(a), noref(b)
        if a == b:
            return
        if a[0] == 'adt' and b[0] == 'adt' and a[1].endswith('Option') and b[1].endswith('Option'):
            if not a[3] or not b[3]:
                raise Bad('%s is %s instead of %s' % (what, show(a)[:80], show(b)[:80]))
            return self.same(a[3][0], b[3][0], what)
        if a[0] == 'adt' and b[0] == 'adt' and 'Label' in a[1] and 'Label' in b[1]:
            if self.names.label(a)[0] == self.names.label(b)[0]:
                ta, tb = self.ltag(a), self.ltag(b)
                if ta == tb:
                    return
                raise Bad('%s has lost its tag' % what)
        if mentions_any(a, lambda x: isinstance(x, tuple) and x and x[0] in ('app', 'havoc', 'post', 'ret')):
            raise Unknown('%s is %s' % (what, show(a)[:80]))
        raise Bad('%s is %s instead of %s' % (what, show(a)[:80], show(b)[:80]))

    def ltag(self, v):
        for f in self.R.sv.roots:
            if f['path'].endswith('::tag') and 'Label' in (f.get('impl_self') or f['path']) and not f.get('impl_trait'):
                g = run(self.R.sv, f, [('&', v)])
                r = {noref(t['ret']) for t in g.term.values() if t['kind'] == 'ret'}
                if g.incomplete or len(r) != 1:
                    raise Unknown('the tag of %s' % show(v)[:60])
                return r.pop()
        raise Unknown('how the tag of a label is read')

    def one(self, methods, recv, args, where=''):
        def want(evs, o):
            if len(evs) != 1:
                raise Bad('it makes the calls %s instead of one' % [e.method for e in evs] if evs else 'it is dropped')
            self.ev(evs[0], methods, recv, args)
        return want

    def ev(self, e, methods, recv, args):
        if e.method not in methods:
            raise Bad('it becomes `%s` instead of `%s`' % (e.method, methods[0]))
        if recv is not None and noref(e.recv) != recv:
            if recv[0] == 'any' or mentions_any(noref(e.recv), lambda x: x == recv):
                pass
            else:
                raise Bad('`%s` goes to %s' % (e.method, show(e.recv)[:80]))
        if len(e.args) != len(args):
            raise Unknown('`%s` with %d arguments' % (e.method, len(e.args)))
        for i, (x, y) in enumerate(zip(e.args, args)):
            if callable(y):
                y(x)
            else:
                self.same(x, y, 'argument %d of `%s`' % (i + 1, e.method))

    def none(self, evs, o):
        if evs:
            raise Bad('it calls `%s`' % evs[0].method)

    def is_value(self, v):
        """the value given on is v, wrapped at most in a transparent wrapper"""
        v = noref(v)

        def check(x):
            y = noref(x)
            if y == v or leaves(y) == [v] and not mentions_any(y, lambda z: isinstance(z, tuple) and z and z[0] == 'cast'):
                return
            if mentions(y, v) and not mentions_any(y, lambda z: isinstance(z, tuple) and z and z[0] in ('cast', 'bin', 'lin', 'not', 'neg')):
                raise Unknown('the value given on is %s' % show(y)[:80])
            raise Bad('the value given on is %s instead of %s' % (show(y)[:80], show(v)[:80]))
        return check

    def deliver(self, pos, evs, o, borrowed, valchk, root=None):
        """the events are one delivery at this position"""
        evs = list(evs)
        if len(evs) != 1:
            if not evs:
                raise Bad('it is dropped')
            raise Bad('it makes the calls %s instead of one' % [e.method for e in evs])
        e = evs[0]
        recv, nested = pos.recv, list(pos.nested)
        while nested:
            e, recv = self.enter(e, recv, nested.pop(0))
        if pos.kind == 'root' and root is not None:
            self.ev(e, root[0], recv, root[1])
        else:
            self.ev(e, (VALUE if borrowed else COMPUTED)[pos.kind], recv, list(pos.extra) + [valchk])
        # the result
        if pos.last:
            k, v = self.result(o.post)
            if k != 'ok':
                raise Bad('the stream is not finished afterwards')
            if not pos.nested and not mentions(v, noref(e.ret)):
                raise Bad('the stream does not finish with what `%s` returned' % e.method)

    def enter(self, e, recv, ident):
        """a call of `nested`: checks the identity, then interprets the closure on the inner enum stream"""
        self.ev(e, ('nested',), recv, list(ident) + [lambda x: None])
        clo = e.args[3]
        inner = A('INNER%d' % len(repr(recv)))
        outs = self.closure(clo, [inner])
        evs = {tuple(o.evs) for o in outs if o.failed is None}
        if any(o.kind == 'panic' for o in outs):
            raise Bad('the nested variant may panic')
        if len(evs) != 1 or len(list(evs)[0]) != 1:
            raise Bad('the nested variant becomes %s' % [[x.method for x in y] for y in evs])
        for o in outs:
            if o.failed is not None and o.kind == 'ok':
                raise Bad('the nested variant succeeds although `%s` failed' % o.failed.method)
            if o.failed is None and o.kind == 'err' and o.evs[0].method not in ('stream', 'stream_ref'):
                raise Bad('the nested variant fails by itself')
        return list(evs)[0][0], inner

    def closure(self, clo, args):
        clo = noref(clo) if clo[0] == '&' else clo
        if clo[0] != 'clo':
            raise Unknown('the nested variant is streamed by %s' % show(clo)[:60])
        f = self.c.fns.get(clo[3]) if len(clo) > 3 else None
        if f is None or f.get('truncated'):
            raise Unknown('the code of the nested variant')
        return interpret(self.c, f, [clo] + list(args))

    # ------------------------------------------------------------------ obligations
    def obligation(self, rule, what, go, f=None):
        f = f or self.ms.get(what.split(' ')[0]) or next(iter(self.ms.values()))
        try:
            r = go()
            self.rep.ok(rule, fn_where(f))
            return r
        except Bad as e:
            self.rep.viol('%s:%s:%s' % (rule, fkey(self.c, f), what), rule, fn_where(f), '%s: %s' % (what, e))
        except Unknown as e:
            self.rep.inconclusive(rule, fn_where(f), '%s: %s' % (what, e))

    def check(self):
        new = self.inh.get('new')
        if new is None or 'finish' not in self.inh or not self.ms:
            raise Unknown('the flat stream')
        o = interpret(self.c, new, [A('S')])
        if len(o) != 1:
            raise Unknown('the first state')
        s0 = o[0].ret
        self.positions(s0)

    def begin(self, m, state, args, recv, cargs, then=()):
        """a container begun at the root or as a variant: its call, and the object it returned"""
        got = {}

        def want(evs, o):
            self.one((m,), recv, cargs)(evs, o)
            got['obj'] = ('vfld', evs[0].ret, 0, 0)
        st = self.step(state, m, args, want)
        return st, noref(got['obj'])

    def positions(self, s0):
        S = A('S')
        N = A('N')
        P = [Pos('the root', 'root', s0, S, [], True)]
        self.identity = {}
        root = P[0]
        ids = self.ids(1)
        cl = self.cl
        ends = []

        def build(rule, what, go):
            return self.obligation(rule, what, go)

        # sequences and maps
        r = build('begin', 'seq_begin', lambda: self.begin('seq_begin', s0, [N], S, [N]))
        if r:
            st, q = r
            ends.append(('seq_end', st, [], q, ('end',), ()))
            st2 = build('marker', 'seq_value_begin', lambda: self.step(st, 'seq_value_begin', [], self.none))
            if st2:
                P.append(Pos('a sequence element', 'seq', st2, q, [], False))
                P[-1].again = [('seq_value_end', []), ('seq_value_begin', [])]
                P[-1].end = ('seq_end', [])
        r = build('begin', 'map_begin', lambda: self.begin('map_begin', s0, [N], S, [N]))
        if r:
            st, q = r
            ends.append(('map_end', st, [], q, ('end',), ()))
            k = build('marker', 'map_key_begin', lambda: self.step(st, 'map_key_begin', [], self.none))
            if k:
                P.append(Pos('a map key', 'key', k, q, [], False))
                P[-1].again = [('map_key_end', []), ('map_value_begin', []), ('map_value_end', []), ('map_key_begin', [])]
                v = build('marker', 'map_value_begin', lambda: self.step(self.step(k, 'map_key_end', [], self.none), 'map_value_begin', [], self.none))
                if v:
                    P.append(Pos('a map value', 'mapvalue', v, q, [], False))
                    P[-1].again = [('map_value_end', []), ('map_key_begin', []), ('map_key_end', []), ('map_value_begin', [])]
                    P[-1].end = ('map_end', [])
        # tuples and records, at the root and as variants
        en = build('begin', 'enum_begin', lambda: self.begin('enum_begin', s0, ids, S, cl(1)))
        starts = [('', s0, S, 'root')]
        if en:
            starts.append((' variant', en[0], en[1], 'enum'))
        for nm, st0, recv, where in starts:
            for kind, vi in (('tuple', [self.ids(21)[0], ('&', self.index(21))]), ('record', [self.ids(21)[0], ('&', self.label(21))])):
                b = kind + '_begin'
                r = build('begin', b + nm, lambda: self.begin(b, st0, self.ids(11) + [N], recv, cl(11) + [N]))
                if not r:
                    continue
                st, q = r
                ends.append((kind + '_end', st, self.ids(11), q, ('end',), ()))
                vb, ve = kind + '_value_begin', kind + '_value_end'
                st2 = build('marker', vb + nm, lambda: self.step(st, vb, vi, self.none))
                if st2:
                    p = Pos('a %s%s field' % (kind, nm), 'field', st2, q, [noref(x) for x in vi], False)
                    p.again = [(ve, vi), (vb, vi)]
                    p.end = (kind + '_end', self.ids(11))
                    P.append(p)
                    # the next field is given its own identity
                    other = [self.ids(31)[0], ('&', self.index(31) if kind == 'tuple' else self.label(31))]
                    st3 = build('marker', vb + nm + ' again', lambda: self.step(self.step(st2, ve, vi, self.none), vb, other, self.none))
                    if st3:
                        p2 = Pos('the next %s%s field' % (kind, nm), 'field', st3, q, [noref(x) for x in other], False)
                        p2.brief = True
                        P.append(p2)
            # tagged
            st2 = build('marker', 'tagged_begin' + nm, lambda: self.step(st0, 'tagged_begin', self.ids(12), self.none))
            if st2:
                P.append(Pos('a tagged%s value' % nm, 'tagged', st2, recv, cl(12), True))
        # nested enums
        if en and self.alloc:
            st, q = en
            nested = []
            for d in (1, 2):
                st1 = st
                st = build('marker', 'enum_begin nested %d' % d, lambda: self.step(st1, 'enum_begin', self.ids(12 + d), self.none))
                if not st:
                    break
                nested.append(cl(12 + d))
                ni = list(nested)
                self.variant(st, q, ni, cl, d)
        if en:
            self.variant(en[0], en[1], [], cl, 0)
        for m, st, args, q, ms, _ in ends:
            self.end(m, st, args, q, ms)
        for p in P:
            self.values(p)
        self.P = P

    def end(self, m, st, args, q, ms):
        def go():
            def want(evs, o):
                self.one(ms, q, [])(evs, o)
                k, v = self.result(o.post)
                if k != 'ok' or not mentions(v, noref(evs[0].ret)):
                    raise Bad('the stream does not finish with what `end` returned')
            self.step(st, m, args, want)
        self.obligation('end', m, go)

    def variant(self, st, q, nested, cl, depth):
        """an enum, possibly nested in others: its variants"""
        nm = ' in an enum nested %d deep' % depth if depth else ' in an enum'
        p = Pos('variant', 'variant', st, q, [], True)
        p.nested = nested

        def tag():
            def want(evs, o):
                self.deliver2(p, evs, o, ('tag',), cl(41))
            s = self.step(st, 'tag', self.ids(41), want)
            self.done_stays(s, [('enum_end', self.ids(1))] * (depth + 1))
        self.obligation('variant', 'tag' + nm, tag)

        def empty():
            def want(evs, o):
                self.deliver2(p, evs, o, ('empty',), [])
            s = self.step(st, 'enum_end', self.ids(1), want)
            self.done_stays(s, [('enum_end', self.ids(1))] * depth)
        self.obligation('variant', 'enum_end' + nm, empty)

        def tagged():
            s1 = self.step(st, 'tagged_begin', self.ids(42), self.none)
            for m, ms in (('i64', ('tagged_computed',)), ('value', ('tagged', 'tagged_ref'))):
                s2 = self.step(s1, m, [A('V')], lambda evs, o: self.deliver2(p, evs, o, ms, cl(42) + [self.is_value(A('V'))]))
                self.done_stays(s2, [('tagged_end', self.ids(42))] + [('enum_end', self.ids(1))] * (depth + 1))
        self.obligation('variant', 'tagged_begin' + nm, tagged)
        for m in ('value', 'value_computed'):
            def val():
                outs = self.call(st, m, A('V'))
                for o in outs:
                    if o.kind == 'panic':
                        raise Bad('it may panic')
                    if o.failed is None and (len(o.evs) != 1 or noref(o.evs[0].recv) != A('V') or o.evs[0].method not in ('stream', 'stream_ref')):
                        raise Bad('the variant is not streamed: %s' % [e.method for e in o.evs])
                    if o.failed is not None and o.kind == 'ok':
                        raise Bad('it succeeds although the variant failed')
            self.obligation('variant', m + nm, val)
        for m in ('i64', 'null', 'seq_begin', 'map_begin'):
            def refuse():
                for o in self.call(st, m, *([A('V')] if m != 'null' else [])):
                    if o.kind == 'panic':
                        raise Bad('it may panic')
                    if o.kind == 'ok' and not o.evs:
                        raise Bad('the variant is dropped')
            self.obligation('variant', m + nm, refuse)
        if not depth:
            return
        # tuples and records of nested enums: streamed from a buffer or directly, inside their parents
        for kind, vi in (('tuple', [NONE, ('&', self.index(21))]), ('record', [NONE, ('&', self.label(21))])):
            def compound():
                buf = {}

                def first(evs, o):
                    evs = [e for e in evs if e.method != 'new']
                    self.one((kind + '_begin',), None, cl(43) + [A('N')])(evs, o)
                    if not is_buffer(evs[0]):
                        raise Unknown('nested %s variants are streamed by `%s`' % (kind, evs[0].method))
                    buf['b'] = noref(evs[0].recv)
                s1 = self.step(st, kind + '_begin', self.ids(43) + [A('N')], first)
                self.buffered(p, s1, buf['b'], kind + '_end', self.ids(43), nested)
            self.obligation('variant', kind + '_begin' + nm, compound)

    def deliver2(self, p, evs, o, methods, args):
        if len(evs) != 1:
            raise Bad('it makes the calls %s instead of one' % [e.method for e in evs] if evs else 'it is dropped')
        e, recv = evs[0], p.recv
        for ident in p.nested:
            e, recv = self.enter(e, recv, ident)
        self.ev(e, methods, recv, args)
        k, v = self.result(o.post)
        if k != 'ok' or not mentions(v, noref(evs[0].ret)):
            raise Bad('the stream does not finish with what `%s` returned' % evs[0].method)

    def done_stays(self, s, calls):
        want = self.result(s)
        for m, args in calls:
            s = self.step(s, m, args, self.none)
            if self.result(s) != want:
                raise Bad('`%s` changes the result' % m)

    def after(self, p, post, what):
        """the position can be entered again, or the stream is done"""
        if p.last:
            if p.kind == 'tagged':
                calls = [('tagged_end', self.ids(12))]
                if 'variant' in p.name:
                    calls.append(('enum_end', self.ids(1)))
                self.done_stays(post, calls)
            return
        for m, args in getattr(p, 'again', ()):
            post = self.step(post, m, args, self.none)
        if post != p.state and hasattr(p, 'again'):
            raise Unknown('after %s the state differs' % what)

    def values(self, p):
        V = A('V')
        brief = getattr(p, 'brief', False)

        def leaf(m, args, borrowed, chk, root):
            def go():
                s = self.step(p.state, m, args, lambda evs, o: self.deliver(p, evs, o, borrowed, chk, root))
                self.after(p, s, m)
            self.obligation('value', '%s at %s' % (m, p.name), go, self.ms.get(m))
        isv = self.is_value(V)
        for m in (['i64'] if brief else [x for x in SCALARS if x != 'null' and x in self.ms]):
            leaf(m, [V], False, isv, ((m,), [self.exactly(V)]))
        leaf('value', [V], True, isv, (VALUE['root'], [isv]))
        if brief:
            return
        leaf('value_computed', [V], False, isv, (COMPUTED['root'], [isv]))

        def null(x):
            y = noref(x)
            if y[0] == 'adt' and y[1].split('::')[-1] in ('Null', 'Ref') and 'Null' in repr(y):
                return
            raise Bad('null becomes %s' % show(y)[:60])

        def nul():
            def want(evs, o):
                e = evs[0] if evs else None
                b = e is not None and e.method in VALUE[p.kind]
                self.deliver(p, evs, o, b, null, (('null',), []))
            self.after(p, self.step(p.state, 'null', [], want), 'null')
        self.obligation('value', 'null at ' + p.name, nul, self.ms.get('null'))

        ids = self.ids(5)
        cl = self.cl(5)

        def tagv(x):
            self.streams_tag(noref(x), cl)
        leaf('tag', ids, False, tagv, (('tag',), cl))
        for pre in ('text', 'binary'):
            self.obligation('text', '%s at %s' % (pre, p.name), lambda: self.text(p, pre), self.ms.get(pre + '_end'))
        if p.kind != 'root':
            for m, args in (('seq_begin', [A('N')]), ('map_begin', [A('N')]), ('enum_begin', ids), ('tagged_begin', ids),
                            ('tuple_begin', ids + [A('N')]), ('record_begin', ids + [A('N')])):
                self.obligation('buffer', '%s at %s' % (m, p.name), lambda: self.container(p, m, args), self.ms.get(m))

    def exactly(self, V):
        def check(x):
            y = noref(x)
            if y != V:
                raise Bad('the value given on is %s' % show(y)[:60])
        return check

    def streams_tag(self, v, cl):
        """a value that streams itself as this tag"""
        if v[0] != 'adt':
            raise Unknown('the tag given on is %s' % show(v)[:60])
        n = v[1].split('::')[-1]
        fs = [f for f in self.c.roots if f['name'] in ('stream', 'stream_ref') and (f.get('impl_self') or '').split('<')[0] == v[1]]
        if not fs:
            raise Unknown('how %s is streamed' % n)
        for f in fs:
            it = NInterp(self.c)
            outs = interpret(self.c, f, [('&', v), A('OUT')])
            for o in outs:
                if o.failed is None:
                    self.one(('tag',), A('OUT'), cl)(o.evs, o)
                elif o.kind == 'ok':
                    raise Bad('the tag given on hides failures')

    def text(self, p, pre):
        frag = pre + '_fragment'
        buf = {}

        def first(evs, o):
            for e in evs:
                if not is_buffer(e):
                    raise Bad('it calls `%s`' % e.method)
            for e in evs:
                if e.method == 'new':
                    buf['b'] = noref(e.ret)
        s = self.step(p.state, pre + '_begin', [A('N')], first)
        if 'b' not in buf:
            raise Unknown('where %s is kept' % pre)
        states = [s]
        for m, bm in ((frag, 'push_fragment'), (frag + '_computed', 'push_fragment_computed')):
            s2 = self.step(s, m, [A('F')], self.one((bm,) if m == frag else (bm,), buf['b'], [A('F')]))
            if s2 != s:
                s = s2
                states.append(s)
            if len(states) > 1:
                raise Unknown('a fragment changes the state')
        if pre == 'text':
            bor, own_ = 'as_borrowed_str', ('as_str',)
        else:
            bor, own_ = 'as_borrowed_slice', ('as_slice',)

        def last(evs, o):
            reads = [e for e in evs if is_buffer(e)]
            rest = [e for e in evs if not is_buffer(e)]
            for e in reads:
                if noref(e.recv) != buf['b']:
                    raise Unknown('reads %s' % show(e.recv)[:60])
            d = {e.method: noref(e.ret) for e in reads}
            if not rest:
                raise Bad('the %s is dropped' % pre)
            e = rest[0]
            data = [x for a in e.args for x in leaves(a)]
            full = [d[x] for x in own_ if x in d]
            got = d.get(bor)
            bval = ('vfld', got, 1, 0) if got is not None else None
            root_b, root_c = ((pre,), (pre + '_computed',))
            if bval is not None and any(mentions(noref(a), bval) for a in e.args):
                chk = self.is_value(bval)
                self.deliver(p, rest, o, True, chk, (root_b, [chk]))
            elif full and any(mentions(noref(a), full[0]) for a in e.args):
                chk = self.is_value(full[0])
                self.deliver(p, rest, o, False, chk, (root_c, [chk]))
            elif any(mentions(noref(a), buf['b']) for a in e.args):
                raise Unknown('the buffer itself is given on')
            else:
                raise Bad('what is given on is not the %s' % pre)
            if pre == 'binary' and p.kind != 'root' and not any(mentions_any(a, lambda x: isinstance(x, tuple) and x and (
                    x[0] == 'wrapv' or x[0] == 'adt' and 'Binary' in x[1])) for a in e.args):
                raise Bad('bytes are given on as a sequence of numbers')
        s3 = self.step(s, pre + '_end', [], last, silent=True)
        for x in s3:
            self.after(p, x, pre)

    def container(self, p, m, args):
        buf = {}

        def first(evs, o):
            bs = [e for e in evs if e.method != 'new']
            if not bs:
                raise Bad('it is dropped')
            if not is_buffer(bs[0]):
                raise Bad('it calls `%s`' % bs[0].method)
            self.one((m,), None, args)(bs, o)
            buf['b'] = noref(bs[0].recv)
        s = self.step(p.state, m, args, first)
        endm = m.replace('_begin', '_end')
        ids = self.ids(5)
        self.buffered(p, s, buf['b'], endm, ids if m not in ('seq_begin', 'map_begin') else [], p.nested)

    TOKENS = {'null': 0, 'tag': 'i', 'seq_begin': 1, 'map_begin': 1, 'seq_value_begin': 0, 'seq_value_end': 0, 'seq_end': 'E', 'map_key_begin': 0,
              'map_key_end': 0, 'map_value_begin': 0, 'map_value_end': 0, 'map_end': 'E', 'enum_begin': 'i', 'enum_end': 'Ei', 'tagged_begin': 'i',
              'tagged_end': 'Ei', 'record_begin': 'in', 'record_end': 'Ei', 'tuple_begin': 'in', 'tuple_end': 'Ei', 'record_value_begin': 'l',
              'record_value_end': 'l', 'tuple_value_begin': 'x', 'tuple_value_end': 'x', 'text_begin': 1, 'text_fragment': 1, 'text_fragment_computed': 1,
              'text_end': 0, 'binary_begin': 1, 'binary_fragment': 1, 'binary_fragment_computed': 1, 'binary_end': 0, 'value': 1, 'value_computed': 1}

    def token_args(self, k):
        if k == 0 or k == 'E':
            return []
        if k == 1:
            return [A('V')]
        ids = self.ids(6)
        if k in ('i', 'Ei'):
            return ids
        if k == 'in':
            return ids + [A('N')]
        return [ids[0], ('&', self.label(6) if k == 'l' else self.index(6))]

    def buffered(self, p, s, b, endm, endargs, nested):
        """inside a buffered container every token goes to the buffer as itself; the buffer is given on once, when complete"""
        toks = dict(self.TOKENS)
        for x in SCALARS:
            toks.setdefault(x, 1)
        key = noref(s)
        for m, k in toks.items():
            if m not in self.ms:
                continue
            args = self.token_args(k)
            ending = isinstance(k, str) and k.startswith('E')

            def want(evs, o):
                if not evs:
                    raise Bad('`%s` is dropped inside a buffered value' % m)
                e = evs[0]
                if m in ('value', 'value_computed') and e.method in ('stream', 'stream_ref') and noref(e.recv) == A('V') and any(mentions(noref(a), b) for a in e.args):
                    pass
                else:
                    self.ev(e, (m,), b, args)
                rest = evs[1:]
                if not ending:
                    if rest:
                        raise Bad('`%s` in a buffered value calls `%s` as well' % (m, rest[0].method))
                    if noref(o.post) != key:
                        raise Unknown('`%s` in a buffered value changes the state' % m)
                    return
                if rest and rest[0].method == 'is_complete':
                    rest = rest[1:]
                elif rest:
                    raise Unknown('`%s` then calls `%s`' % (m, rest[0].method))
                if not rest:
                    if noref(o.post) != key:
                        raise Bad('a complete buffered value is dropped')
                    return
                if p.kind == 'variant':
                    if len(rest) != 1:
                        raise Bad('the variant becomes %s' % [x.method for x in rest])
                    e, recv = rest[0], p.recv
                    for i, ident in enumerate(nested):
                        e, recv = self.enter(e, recv, ident)
                    if e.method not in ('stream', 'stream_ref', 'value', 'value_computed') or not (mentions(noref(e.recv), b) or any(mentions(noref(a), b) for a in e.args)):
                        raise Bad('the buffered variant becomes `%s`' % e.method)
                    if not any(mentions(noref(a), recv) for a in e.args) and not mentions(noref(e.recv), recv):
                        raise Bad('the buffered variant is streamed elsewhere')
                    return
                self.deliver(p, rest, o, False, self.is_value(b))
                seen['given'] = o.post
            seen = {}
            self.step(s, m, args, want, silent=True)
            if ending and m == endm and p.kind != 'variant':
                if 'given' not in seen:
                    raise Bad('a complete buffered value is never given on')
                self.after(p, seen['given'], m)


RANK = {'u8': 0, 'u16': 1, 'u32': 2, 'u64': 3, 'u128': 4, 'i8': 0, 'i16': 1, 'i32': 2, 'i64': 3, 'i128': 4}


class Defaults:
    """provided methods of the nested stream traits: one call of a more general method with the same content"""

    def __init__(self, flat):
        self.fl, self.c, self.rep = flat, flat.c, flat.rep

    def outs(self, f, args=None):
        args = args if args is not None else NInterp(self.c).default_args(f)
        outs = interpret(self.c, f, args)
        ok = []
        for o in outs:
            if o.kind == 'panic':
                raise Bad('it may panic')
            if o.failed is not None:
                if o.kind == 'ok':
                    raise Bad('it succeeds although `%s` failed' % o.failed.method)
                if o.evs and o.failed in o.evs and o.evs[-1] is not o.failed and o.failed.method not in ('stream', 'stream_ref'):
                    raise Bad('it calls `%s` after `%s` failed' % (o.evs[-1].method, o.failed.method))
                continue
            if o.kind == 'ok':
                ok.append(o)
            elif o.kind == 'err':
                if not any(e.method in ('stream', 'stream_ref') for e in o.evs):
                    raise Bad('it fails by itself')
            else:
                raise Unknown('returns %s' % show(o.ret)[:60])
        if not ok:
            raise Bad('it never succeeds')
        return ok, args

    def returned(self, o, e):
        v = noref(o.ret)
        if v[3] and noref(v[3][0]) not in (UNIT, ('vfld', noref(e.ret), 0, 0)):
            raise Bad('it does not return what `%s` returned' % e.method)

    def check(self):
        for f in self.c.roots:
            tr = (f.get('trait_default') or '').split('::')[-1]
            if not tr.startswith('Stream') or f.get('inh_self'):
                continue
            n = f['name']
            if n in RANK or n in ('f32', 'f64'):
                go = lambda: self.number(f, n)
            elif tr == 'Stream' and n in ('value', 'value_computed'):
                go = lambda: self.recurse(f)
            elif n == 'binary_computed':
                go = lambda: self.bytes_(f)
            elif n == 'tag':
                go = lambda: self.tag(f)
            else:
                go = lambda: self.forward(f, n, tr)
            self.fl.obligation('default', '%s::%s' % (tr, n), go, f)
        for f in self.c.roots:
            if f['path'] in ('stream', 'stream_ref', 'stream_computed'):
                self.fl.obligation('entry', f['path'], lambda: self.entry(f), f)

    def one(self, o):
        if len(o.evs) != 1:
            raise Bad('it makes the calls %s instead of one' % [e.method for e in o.evs] if o.evs else 'it is dropped')
        return o.evs[0]

    def number(self, f, n):
        ok, args = self.outs(f)
        v = noref(args[1])
        for o in ok:
            e = self.one(o)
            if noref(e.recv) != noref(args[0]):
                raise Bad('`%s` goes to %s' % (e.method, show(e.recv)[:60]))
            self.returned(o, e)
            if e.method in RANK or e.method in ('f32', 'f64'):
                if (n[0] == 'f') != (e.method[0] == 'f'):
                    raise Bad('it becomes `%s`' % e.method)
                a = noref(e.args[0])
                while a[0] == 'exact':
                    a = noref(a[2])
                if a != v:
                    raise Bad('it becomes `%s` with %s, which is not always the same value' % (e.method, show(a)[:60]))
                if e.method == n:
                    raise Bad('it calls itself')
            elif e.method in ('tagged', 'tagged_computed'):
                if 'NUMBER' not in repr(noref(e.args[0])):
                    raise Bad('it becomes text that is not tagged as a number')
                if leaves(e.args[3]) != [v] or mentions_any(e.args[3], lambda z: isinstance(z, tuple) and z and z[0] == 'cast'):
                    raise Bad('it becomes the text of %s' % show(e.args[3])[:60])
                if n in RANK:
                    self.unfit(o, n, v)
            else:
                raise Bad('it becomes `%s`' % e.method)

    def unfit(self, o, n, v):
        """a number becomes text only because the widest number every stream takes cannot hold it"""
        if may_fit(o.facts, n, v):
            raise Bad('a number that fits a token of its own becomes text')

    def forward(self, f, n, tr):
        ok, args = self.outs(f)
        allowed = {'text': ('text_computed',), 'binary': ('binary_computed',), 'tagged_computed': ('value_computed',)}.get(n)
        if allowed is None:
            base = n.replace('_ref', '')
            allowed = (base, base + '_computed') if n.endswith('_ref') else (base + '_ref', base + '_computed')
        for o in ok:
            e = self.one(o)
            self.returned(o, e)
            if e.method not in allowed:
                raise Bad('it becomes `%s`' % e.method)
            if n.endswith('_ref') and e.method.endswith('_computed'):
                raise Bad('borrowed content becomes `%s`' % e.method)
            if noref(e.recv) != noref(args[0]):
                raise Bad('`%s` goes to %s' % (e.method, show(e.recv)[:60]))
            want = args[1:] if not (tr == 'Stream' and n == 'tagged_computed') else args[-1:]
            if len(e.args) != len(want):
                raise Unknown('`%s` with %d arguments' % (e.method, len(e.args)))
            for i, (x, y) in enumerate(zip(e.args, want)):
                self.fl.is_value(y)(x)

    def recurse(self, f):
        ok, args = self.outs(f)
        for o in ok:
            e = self.one(o)
            if e.method not in ('stream', 'stream_ref') or noref(e.recv) != noref(args[1]):
                raise Bad('it becomes `%s`' % e.method)
            if f['name'] == 'value' and e.method != 'stream_ref' and not mentions_any(args[1], lambda x: False):
                raise Bad('borrowed content is streamed with `%s`' % e.method)
            st = noref(e.args[0])
            if st != noref(self.start(args[0])):
                raise Bad('the value is streamed into %s' % show(st)[:80])
            if not mentions_any(noref(o.ret), lambda x: isinstance(x, tuple) and x and x[0] == 'havoc'):
                raise Bad('it does not return what the value was streamed to')

    def start(self, s):
        return interpret(self.c, self.fl.inh['new'], [s])[0].ret

    def bytes_(self, f):
        ok, args = self.outs(f)
        b = noref(args[1])
        seen = set()
        for o in ok:
            if o.evs[0].method != 'seq_begin' or noref(o.evs[0].recv) != noref(args[0]):
                raise Bad('it becomes `%s`' % o.evs[0].method)
            h = noref(o.evs[0].args[0])
            if h not in (NONE, SOME(('len', b)), SOME(('app', 'len', (b,)))) and not (h[3] and mentions(h[3][0], b)):
                raise Bad('the length is %s' % show(h)[:60])
            q = noref(('vfld', o.evs[0].ret, 0, 0))
            els = o.evs[1:-1]
            last = o.evs[-1]
            if last.method != 'end' or noref(last.recv) != q:
                raise Bad('the sequence is not ended')
            self.returned(o, last)
            for e in els:
                if e.method not in ('value', 'value_computed') or noref(e.recv) != q:
                    raise Bad('a byte becomes `%s`' % e.method)
                x = noref(e.args[0])
                if x[0] in ('cast', 'bin', 'lin', 'not'):
                    raise Bad('a byte becomes %s' % show(x)[:60])
                if not mentions(x, b):
                    raise Bad('a byte becomes %s' % show(x)[:60])
            seen.add(len(els))
        if len(seen) < 2:
            raise Bad('the number of elements does not depend on the bytes')

    def tag(self, f):
        fl = self.fl
        args0 = NInterp(self.c).default_args(f)
        S = args0[0]
        opt_none = fl.R.tag('RUST_OPTION_NONE')
        for tag in (None, fl.R.other_tag(), fl.R.tag('RUST_OPTION_SOME'), fl.R.tag('NUMBER'), opt_none):
            for lab in (None, fl.label(2), fl.R.label(A('DYNAMIC'))):
                args = [S, SOME(tag) if tag else NONE, SOME(lab) if lab else NONE, SOME(fl.index(3))]
                ok, _ = self.outs(f, args)
                for o in ok:
                    e = self.one(o)
                    self.returned(o, e)
                    if e.method not in ('tagged', 'tagged_ref', 'tagged_computed') or noref(e.recv) != noref(S):
                        raise Bad('it becomes `%s`' % e.method)
                    for i in range(3):
                        fl.same(e.args[i], args[i + 1], 'argument %d of `%s`' % (i + 1, e.method))
                    self.tag_value(strip(e.args[3]), tag == opt_none, lab)

    def tag_value(self, v, absent, lab):
        if v[0] != 'adt':
            raise Unknown('the value of a tag')
        fs = [x for x in self.c.roots if x['name'] in ('stream', 'stream_ref') and (x.get('impl_self') or '').split('<')[0] == v[1]]
        if not fs:
            raise Unknown('the value of a tag: %s' % show(v)[:60])
        for x in fs:
            for o in interpret(self.c, x, [('&', v), A('OUT')]):
                if o.kind == 'panic':
                    raise Bad('it may panic')
                if o.failed is not None:
                    if o.kind == 'ok':
                        raise Bad('the value of a tag hides failures')
                    continue
                e = self.one(o)
                if absent or lab is None:
                    if e.method != 'null':
                        raise Bad('%s becomes `%s`' % ('an absent option' if absent else 'a tag without label', e.method))
                    continue
                text = self.fl.names.label(lab)[0]
                if e.method not in ('value', 'value_computed', 'text') or leaves(e.args[0]) != [noref(text)]:
                    raise Bad('a labelled tag becomes `%s` of %s' % (e.method, show(e.args[0])[:60] if e.args else 'nothing'))

    def entry(self, f):
        ok, args = self.outs(f)
        ms = {'stream': ('value',), 'stream_ref': ('value_ref', 'value'), 'stream_computed': ('value_computed',)}[f['path']]
        for o in ok:
            e = self.one(o)
            self.returned(o, e)
            if e.method not in ms or noref(e.recv) != noref(args[0]):
                raise Bad('it becomes `%s`' % e.method)
            self.fl.is_value(args[1])(e.args[0])


# every pair of present and absent parts of an identity
MASKS = ((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1))


def p15(ctx, rep):
    ctx.prepare()
    cfgs = [c for c in ctx.configs() if ctx.crate('sval_nested', c) is not None]
    tasks = [(c, m) for c in cfgs for m in (MASKS if c == 'full' or ctx.tier == 'thorough' else MASKS[:2])]
    pmap(rep, tasks, lambda t, sub: one_config(ctx, sub, *t))
    rep.cfg = 'full'


def one_config(ctx, rep, cfg, mask):
    from rules_serde import failstop
    crate = ctx.crate('sval_nested', cfg)
    rep.cfg = cfg
    fl = Flat(ctx, rep, cfg, crate, mask)
    try:
        fl.check()
        if all(mask):
            Defaults(fl).check()
    except Unknown as e:
        rep.inconclusive('methods', 'nested/src/flat.rs', str(e))
    except Bad as e:
        rep.viol('methods', 'methods', 'nested/src/flat.rs', str(e))
    if all(mask):
        failstop(crate, rep, 'nested/src/lib.rs', 'nested/src/flat_enum.rs')
