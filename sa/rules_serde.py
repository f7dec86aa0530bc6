"""P13 (values into serde) and P14 (serde into values): the two data models are mapped onto each other faithfully.

Every method is interpreted on symbolic arguments; the objects that begin a compound are interpreted further: each element
method and the end from the state the beginning left, and from the state an arbitrary number of elements leaves (induction)."""
from common import fn_where
from interp import Interp, show
from lib import *
from machine import LOC
from reps import *
from typestate import Bad, Unknown

A = lambda n: ('arg', n)
N = ('arg', 'COUNT')


class Obj:
    """interprets methods of one crate on abstract objects"""

    def __init__(self, crate):
        self.c = crate
        self.by = {}
        for f in crate.roots:
            s = f.get('impl_self')
            tr = (f.get('impl_trait') or '').split('::')[-1]
            if s and tr:
                self.by[(s.split('<')[0].split('::')[-1], tr, f['name'])] = f

    def fn(self, ty, tr, name):
        f = self.by.get((ty, tr, name))
        if f is None:
            raise Unknown('%s has no %s::%s' % (ty, tr, name))
        return f

    def call(self, f, state, args):
        """[(events, failed?, returned value, post state, kind)]"""
        it = Interp(self.c)
        mem = {}
        if is_mut_self(self.c, f):
            a0 = ('ref', LOC, ())
            mem = {LOC: state}
        else:
            a0 = state
        g = it.run(f, [a0] + list(args), mem=mem)
        if g.incomplete:
            raise Unknown('%s: %s' % (f['name'], g.incomplete))
        out = []
        stack = [(g.start, (), False, {})]
        while stack:
            n, evs, failed, used = stack.pop()
            if n in g.term:
                t = g.term[n]
                if t['kind'] == 'unreachable':
                    continue
                post = it.snap(t['state'], it.load(t['state'], LOC)) if mem and 'state' in t else None
                out.append((evs, failed, t.get('snap', t.get('ret')) if t['kind'] == 'ret' else None, post, t['kind'] if t['kind'] != 'ret' else res_kind(t)))
                continue
            if len(out) > 500:
                raise Unknown('too many paths')
            for i, (e, d) in enumerate(g.edges[n]):
                u = used
                if len(g.edges[n]) > 1:
                    if used.get((n, i), 0) >= 2:
                        continue
                    u = dict(used)
                    u[(n, i)] = u.get((n, i), 0) + 1
                if is_res(e, 'err'):
                    stack.append((d, evs, e[2] if len(e) > 2 else True, u))
                elif is_ev(e):
                    stack.append((d, evs + (e,), failed, u))
                else:
                    stack.append((d, evs, failed, u))
        return out


def is_mut_self(crate, f):
    return crate.tys[f['locals'][1][0]].get('k') == 'ref'


def leaves(t, acc=None):
    """the data in a value, without the structure around it"""
    acc = [] if acc is None else acc
    t = noref(t)
    if t[0] in ('adt',):
        for x in t[3]:
            leaves(x, acc)
    elif t[0] == 'tup':
        for x in t[1]:
            leaves(x, acc)
    elif t[0] == 'exact':
        leaves(t[-1], acc)
    elif t[0] == 'cast':
        leaves(t[1], acc)
    elif t != ('tup', ()):
        acc.append(t)
    return acc


class Names:
    """reads labels and indexes with the library's own accessors"""

    def __init__(self, ctx, cfg):
        self.sv = ctx.crate('sval', cfg)
        self.R = Reps(ctx, cfg)

    def acc(self, suffix, v):
        for f in self.sv.roots:
            if f['path'].endswith(suffix):
                g = run(self.sv, f, [('&', v)])
                r = {noref(t['ret']) for t in g.term.values() if t['kind'] == 'ret'}
                if g.incomplete or len(r) != 1:
                    raise Unknown('%s of %s' % (suffix, show(v)[:60]))
                return r.pop()
        raise Unknown('no %s' % suffix)

    def label(self, v):
        """(text, static text or None)"""
        v = noref(v)
        return self.acc('::as_str', v), self.acc('::as_static_str', v)


def opt(v):
    v = noref(v)
    if v[0] == 'adt' and v[1].endswith('Option'):
        return v[3][0] if v[3] else None
    raise Unknown('optional argument %s' % show(v)[:60])


def same_number(a, b):
    a, b = noref(a), noref(b)
    while a[0] == 'exact':
        a = a[-1]
    while b[0] == 'exact':
        b = b[-1]
    return a == b


def match(names, m, actual, what):
    if m == 'any':
        return
    if m is None:
        v = opt(actual)
        if v is not None:
            raise Bad('%s is %s, where there is none' % (what, show(v)[:60]))
        return
    kind, x = m
    if kind in ('label', 'label?'):
        v = noref(actual)
        if v[0] == 'adt' and v[1].endswith('Option'):
            v = opt(v)
            if v is None:
                raise Bad('%s has no label' % what)
        text, stat = names.label(v)
        if text != x:
            raise Bad('%s has the label %s instead of %s' % (what, show(text)[:40], show(x)[:40]))
        if opt(stat) != x:
            raise Bad('%s has a label that is not known to be static although the name is' % what)
    elif kind == 'index':
        v = noref(actual)
        if v[0] == 'adt' and v[1].endswith('Option'):
            v = opt(v)
            if v is None:
                raise Bad('%s has no index' % what)
        l = leaves(v)
        if l != [x] and not (len(l) == 1 and same_number(l[0], x)):
            if len(l) == 1 and mentions(l[0], x) and l[0][0] != 'lin':
                raise Unknown('%s has the index %s' % (what, show(l[0])[:40]))
            raise Bad('%s has the index %s instead of %s' % (what, ', '.join(show(y)[:40] for y in l), show(x)[:40]))
    elif kind == 'some':
        v = opt(actual)
        if v != x:
            raise Bad('%s has the size hint %s instead of %s' % (what, show(v)[:40] if v else 'none', show(x)[:40]))
    elif kind == 'is':
        v = noref(actual)
        if v != x and not same_number(v, x):
            if mentions(v, x) and v[0] not in ('bin', 'lin', 'not', 'neg', 'slice', 'cast'):
                raise Unknown('%s passes %s' % (what, show(v)[:60]))
            raise Bad('%s passes %s instead of %s' % (what, show(v)[:60], show(x)[:60]))
    elif kind == 'wrapped':
        v = noref(actual)
        if v[0] == 'adt' and v[3] == (x,) or v == x:
            return
        if mentions(v, x):
            raise Unknown('%s passes %s' % (what, show(v)[:60]))
        raise Bad('%s passes %s instead of %s' % (what, show(v)[:60], show(x)[:60]))
    elif kind == 'pred':
        x(actual, what)


def tokens(names, evs, want):
    """the events are exactly the wanted ones"""
    got = [e.method for e in evs]
    exp = [w[0] if isinstance(w[0], tuple) else (w[0],) for w in want]
    for i, e in enumerate(evs):
        if i >= len(want) or e.method not in exp[i]:
            raise Bad('it calls `%s` where %s is expected' % (e.method, ' or '.join('`%s`' % x for x in exp[i]) if i < len(want) else 'nothing more'))
        ms = want[i][1:]
        if len(ms) == 1 and callable(ms[0]):
            ms[0](e)
            continue
        if len(ms) != len(e.args):
            raise Unknown('`%s` with %d arguments' % (e.method, len(e.args)))
        for m, a in zip(ms, e.args):
            match(names, m, a, '`%s`' % e.method)
    if len(evs) < len(want):
        raise Bad('it never calls `%s`' % ' or '.join(exp[len(evs)]))


def outcomes(obj, names, f, state, args, want):
    """checks every path; returns [(returned, post)] of the successful ones"""
    out = []
    for evs, failed, ret, post, kind in obj.call(f, state, args):
        if kind == 'panic':
            raise Bad('it may panic')
        if failed:
            if kind == 'ok':
                raise Bad('it succeeds although `%s` failed' % evs[-1].method)
            continue
        if kind != 'ok':
            raise Bad('it fails by itself')
        tokens(names, evs, want)
        out.append((ret, post))
    if not out:
        raise Bad('it never succeeds')
    return out


def diff(a, b, path=()):
    """paths at which two terms differ"""
    if a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'adt' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
        out = []
        for i, (x, y) in enumerate(zip(a[3], b[3])):
            out += diff(x, y, path + (i,))
        return out
    return [path]


def at(v, p):
    for i in p:
        v = v[3][i]
    return v


def put(v, p, x):
    if not p:
        return x
    fs = list(v[3])
    fs[p[0]] = put(fs[p[0]], p[1:], x)
    return v[:3] + (tuple(fs),)


def plus1(v, n):
    return v in (('lin', n, 1), ('bin', 'Add', n, ('i', 1))) or n[0] == 'i' and v == ('i', n[1] + 1)


def evaluate(t, env):
    """value of an integer term for given values of its variables; None: unknown"""
    t = noref(t)
    if t in env:
        return env[t]
    if t[0] == 'i':
        return t[1] if isinstance(t[1], int) else None
    if t[0] == 'lin':
        v = evaluate(t[1], env)
        return None if v is None else v + t[2]
    if t[0] in ('exact', 'cast'):
        return evaluate(t[-1] if t[0] == 'exact' else t[1], env)
    sub = t[2:] if t[0] == 'bin' else t[2] if t[0] == 'app' else t[1:]
    vs = [evaluate(x, env) if isinstance(x, tuple) else None for x in sub]
    if None in vs or len(vs) != 2:
        return None
    op = t[1] if t[0] in ('bin', 'app') else t[0]
    op = op.split('::')[-1]
    f = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'BitOr': lambda a, b: a | b, 'BitAnd': lambda a, b: a & b,
         'BitXor': lambda a, b: a ^ b, 'integer_max': max, 'integer_min': min, 'max': max, 'min': min, 'wrapping_add': lambda a, b: a + b,
         'saturating_add': lambda a, b: a + b}.get(op)
    return f(*vs) if f else None


# ---------------------------------------------------------------- serde -> sval
def scalar(v):
    def m(e):
        a = noref(e.args[0])
        if a != v and not (a[0] == 'exact' and a[-1] == v):
            if mentions(a, v) and a[0] not in ('bin', 'lin', 'not', 'neg', 'slice', 'cast'):
                raise Unknown('streams %s' % show(a)[:60])
            raise Bad('it streams %s instead of its argument' % show(a)[:60])
    return m


def p14(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        crate = ctx.crate('sval_serde', cfg)
        if crate is None:
            continue
        rep.cfg = cfg
        names = Names(ctx, cfg)
        R = names.R
        obj = Obj(crate)
        value = ('value_computed', 'value')
        ser = lambda m: obj.fn('Stream', 'Serializer', m)
        self_ = None
        VAL = lambda x: (value, ('wrapped', x))

        def one(what, f, go):
            try:
                go()
                rep.ok(what, fn_where(f))
            except Bad as e:
                rep.viol('%s:%s' % (what, fkey(crate, f)), what, fn_where(f), '`%s`: %s' % (f['name'], e))
            except Unknown as e:
                rep.inconclusive(what, fn_where(f), '%s: %s' % (f['name'], e))

        def method(m):
            try:
                return ser(m)
            except Unknown as e:
                rep.inconclusive('method', 'serde/src/to_value.rs', str(e))

        def state0(f):
            t = crate.tys[f['impl_self_ty']]
            return ('adt', t['path'], 0, tuple(A('S%d' % i) for i in range(len(t['variants'][0]['fields']))))

        def simple(m, args, want):
            f = method(m)
            if f is not None:
                one('scalar' if len(args) <= 1 else 'compound', f, lambda: outcomes(obj, names, f, state0(f), args, want))

        V = A('V')
        for t in INTS + ['bool', 'f32', 'f64', 'char', 'str']:
            simple('serialize_' + t, [V], [(value + (t,), scalar(V))])

        def adapter(kind):
            def m(e):
                a = noref(e.args[0])
                if e.method in value and a[0] == 'adt' and leaves(a) == [V]:
                    n = a[1].split('::')[-1]
                    if kind in n:
                        return
                    raise Bad('it streams the %s of its argument' % n)
                raise Unknown('streams %s' % show(a)[:60])
            return m
        simple('collect_str', [V], [(value, adapter('Display'))])

        def bytes_(e):
            a = e.args[0]
            if noref(a) == V or noref(a)[0] == 'adt' and leaves(a) == [V]:
                if mentions_any(a, lambda x: isinstance(x, tuple) and x and (x[0] == 'wrapv' or x[0] == 'adt' and 'Binary' in x[1])):
                    return
                raise Bad('bytes are streamed as a sequence of numbers')
            if mentions(noref(a), V):
                raise Unknown('streams %s' % show(a)[:60])
            raise Bad('it streams %s instead of its argument' % show(a)[:60])
        simple('serialize_bytes', [V], [(value, bytes_)])

        def const(pred, what):
            def m(e):
                if e.method == 'tag':
                    raise Unknown('streams a tag')
                if not pred(noref(e.args[0])):
                    raise Bad('it streams %s instead of %s' % (show(e.args[0])[:60], what))
            return m
        simple('serialize_none', [], [(value, const(lambda a: a == NONE, 'none'))])
        simple('serialize_unit', [], [(value, const(lambda a: a in (('tup', ()), ('unit',)), 'unit'))])

        def some(e):
            a = noref(e.args[0])
            if a[0] == 'adt' and a[1].endswith('Option') and a[2] == 1:
                return match(names, ('wrapped', V), a[3][0], 'it')
            if mentions(a, V) and a[0] != 'adt':
                raise Unknown('streams %s' % show(a)[:60])
            raise Bad('it streams %s instead of some value' % show(a)[:60])
        simple('serialize_some', [V], [(value, some)])
        nm, vr, ix, ln = A('NAME'), A('VARIANT'), A('INDEX'), A('LEN')
        lab = lambda x: ('label', x)
        simple('serialize_unit_struct', [nm], [('tag', None, lab(nm), None)])
        simple('serialize_newtype_struct', [nm, V], [('tagged_begin', None, lab(nm), None), VAL(V), ('tagged_end', None, lab(nm), None)])
        en = [('enum_begin', None, lab(nm), None)]
        ee = [('enum_end', None, lab(nm), None)]
        vid = (None, lab(vr), ('index', ix))
        simple('serialize_unit_variant', [nm, ix, vr], en + [('tag',) + vid] + ee)
        simple('serialize_newtype_variant', [nm, ix, vr, V], en + [('tagged_begin',) + vid, VAL(V), ('tagged_end',) + vid] + ee)
        K = A('KEY')
        comp = [
            ('serialize_seq', [SOME(ln)], [('seq_begin', ('some', ln))], 'SerializeSeq',
             {'serialize_element': ([V], lambda n: [('seq_value_begin',), VAL(V), ('seq_value_end',)])}, [('seq_end',)]),
            ('serialize_seq', [NONE], [('seq_begin', None)], 'SerializeSeq', {}, [('seq_end',)]),
            ('serialize_map', [SOME(ln)], [('map_begin', ('some', ln))], 'SerializeMap',
             {'serialize_key': ([K], lambda n: [('map_key_begin',), VAL(K), ('map_key_end',)]),
              'serialize_value': ([V], lambda n: [('map_value_begin',), VAL(V), ('map_value_end',)])}, [('map_end',)]),
            ('serialize_map', [NONE], [('map_begin', None)], 'SerializeMap', {}, [('map_end',)]),
            ('serialize_tuple', [ln], [('tuple_begin', None, None, None, ('some', ln))], 'SerializeTuple',
             {'serialize_element': ([V], lambda n: [('tuple_value_begin', None, ('index', n)), VAL(V), ('tuple_value_end', None, ('index', n))])},
             [('tuple_end', None, None, None)]),
            ('serialize_tuple_struct', [nm, ln], [('tuple_begin', None, lab(nm), None, ('some', ln))], 'SerializeTupleStruct',
             {'serialize_field': ([V], lambda n: [('tuple_value_begin', None, ('index', n)), VAL(V), ('tuple_value_end', None, ('index', n))])},
             [('tuple_end', None, lab(nm), None)]),
            ('serialize_tuple_variant', [nm, ix, vr, ln], en + [('tuple_begin',) + vid + (('some', ln),)], 'SerializeTupleVariant',
             {'serialize_field': ([V], lambda n: [('tuple_value_begin', None, ('index', n)), VAL(V), ('tuple_value_end', None, ('index', n))])},
             [('tuple_end',) + vid] + ee),
            ('serialize_struct', [nm, ln], [('record_begin', None, lab(nm), None, ('some', ln))], 'SerializeStruct',
             {'serialize_field': ([K, V], lambda n: [('record_value_begin', None, lab(K)), VAL(V), ('record_value_end', None, lab(K))])},
             [('record_end', None, lab(nm), None)]),
            ('serialize_struct_variant', [nm, ix, vr, ln], en + [('record_begin',) + vid + (('some', ln),)], 'SerializeStructVariant',
             {'serialize_field': ([K, V], lambda n: [('record_value_begin', None, lab(K)), VAL(V), ('record_value_end', None, lab(K))])},
             [('record_end',) + vid] + ee),
        ]
        for m, args, begin, tr, elems, end in comp:
            f = method(m)
            if f is None:
                continue
            got = []
            one('compound', f, lambda: got.extend(outcomes(obj, names, f, state0(f), args, begin)))
            for ret, _ in got:
                o = ret[3][0]
                if o[0] != 'adt':
                    rep.inconclusive('compound', fn_where(f), 'begins as %s' % show(o)[:60])
                    continue
                ty = o[1].split('::')[-1]
                st = {'s': o, 'n': ('i', 0)}
                for em, (eargs, ewant) in elems.items():
                    try:
                        ef = obj.fn(ty, tr, em)
                    except Unknown as e:
                        rep.inconclusive('element', fn_where(f), str(e))
                        continue

                    def elem():
                        for _, p1 in outcomes(obj, names, ef, o, eargs, ewant(('i', 0))):
                            ds = diff(o, p1)
                            if not ds:
                                st['s'], st['n'] = o, ('i', 0)
                                continue
                            if len(ds) != 1:
                                raise Unknown('an element changes %s' % [show(at(p1, d))[:60] for d in ds])
                            sn = put(o, ds[0], N)
                            for _, p2 in outcomes(obj, names, ef, sn, eargs, ewant(N)):
                                d2 = diff(sn, p2)
                                if d2 != [ds[0]]:
                                    if not d2:
                                        raise Bad('the position does not advance')
                                    raise Unknown('an element changes %s' % [show(at(p2, d))[:60] for d in d2])
                                if not plus1(at(p2, ds[0]), N):
                                    vs = [(k, evaluate(at(p2, ds[0]), {N: k})) for k in range(4)]
                                    w = [(k, v) for k, v in vs if v is not None and v != k + 1]
                                    if w:
                                        raise Bad('after the element %d comes the element %d' % w[0])
                                    raise Unknown('the next position is %s' % show(at(p2, ds[0]))[:40])
                            st['s'] = sn
                    one('element', ef, elem)
                try:
                    ef = obj.fn(ty, tr, 'end')
                    one('end', ef, lambda: outcomes(obj, names, ef, st['s'], [], end))
                except Unknown as e:
                    rep.inconclusive('end', fn_where(f), str(e))
        # entry points
        for f in crate.roots:
            if f['path'].endswith('to_value::stream'):
                def entry():
                    for evs, t in success(run(crate, f)):
                        tokens(names, evs, [VAL(A('value'))])
                one('entry', f, entry)
            if (f.get('impl_self') or '').split('::')[-1].startswith('ToValue') and f['name'] == 'stream':
                def entry2():
                    for evs, t in success(run(crate, f)):
                        if len(evs) != 1 or evs[0].method != 'serialize':
                            raise Bad('it calls %s' % [e.method for e in evs])
                        if noref(evs[0].recv) != ('fld', A('self'), 0):
                            raise Bad('it serializes %s' % show(evs[0].recv)[:60])
                        if A('stream') not in leaves(evs[0].args[0]):
                            raise Bad('it serializes into %s' % show(evs[0].args[0])[:60])
                one('entry', f, entry2)
        failstop(crate, rep, 'to_value.rs')
    rep.cfg = 'full'


def failstop(crate, rep, *files):
    """no failure is swallowed or followed by another call in these files"""
    from rules_failstop import check_fn
    for f in crate.roots:
        if any((f.get('file') or '').endswith(x) for x in files):
            check_fn(crate, f, rep)


def success(g):
    from rules_fmt import success_paths
    if g.incomplete:
        raise Unknown(g.incomplete)
    r = success_paths(g)
    if not r:
        raise Bad('it never succeeds')
    return r


# ---------------------------------------------------------------- sval -> serde
ELEMS = {'StreamSeq': {'value_computed': 1}, 'StreamMap': {'key_computed': 1, 'value_computed': 1},
         'StreamRecord': {'value_computed': 3}, 'StreamTuple': {'value_computed': 3}}


class P13:
    def __init__(self, ctx, rep, cfg, crate):
        self.crate, self.rep = crate, rep
        self.names = Names(ctx, cfg)
        self.obj = Obj(crate)
        R = self.names.R
        lab = lambda x: rename(R.ctor("Label::<'computed>::new", [x]))
        self.L, self.LV, self.LF = lab(A('NAME')), lab(A('VARIANT')), lab(A('FIELD'))
        self.LC = R.label(A('COMPUTED'))
        self.IX = rename(R.ctor('Index::new_u32', [A('INDEX')]))
        self.tag = lambda n: SOME(R.tag(n))
        self.other = SOME(R.other_tag())
        self.poisoned = set()

    def obligation(self, rule, f, go):
        rep = self.rep
        try:
            go()
            rep.ok(rule, fn_where(f))
        except Bad as e:
            rep.viol('%s:%s' % (rule, fkey(self.crate, f)), rule, fn_where(f), '`%s`: %s' % (f['name'], e))
        except Unknown as e:
            rep.inconclusive(rule, fn_where(f), '%s: %s' % (f['name'], e))

    def trait_of(self, ty):
        for (t, tr, m) in self.obj.by:
            if t == ty and tr in ELEMS:
                return tr
        raise Unknown('%s is not a compound' % ty)

    def poison(self, o):
        """an object whose serializer has failed: it must not go on and must not succeed"""
        o = noref(o)
        if o in self.poisoned:
            return
        self.poisoned.add(o)
        ty = o[1].split('::')[-1]
        tr = self.trait_of(ty)
        for m, n in ELEMS[tr].items():
            f = self.obj.fn(ty, tr, m)
            for evs, failed, ret, post, kind in self.obj.call(f, o, self.elem_args(tr)):
                if evs or kind != 'err':
                    raise Bad('after the serializer failed, `%s` %s' % (m, 'goes on with `%s`' % evs[0].method if evs else 'succeeds'))
        f = self.obj.fn(ty, tr, 'end')
        for evs, failed, ret, post, kind in self.obj.call(f, o, []):
            if evs:
                raise Bad('after the serializer failed, `end` goes on with `%s`' % evs[0].method)
            if not self.is_failure(ret, kind):
                raise Bad('after the serializer failed, `end` succeeds')

    def elem_args(self, tr):
        return {'StreamSeq': [A('V')], 'StreamMap': [A('V')], 'StreamRecord': [NONE, self.LF, A('V')],
                'StreamTuple': [NONE, self.IX, A('V')]}[tr]

    def is_failure(self, ret, kind):
        if kind == 'err':
            return True
        r = noref(ret)
        return kind == 'ok' and r[0] == 'adt' and r[3] and r[3][0][0] == 'adt' and r[3][0][1].endswith('Result') and r[3][0][2] == 1

    def final(self, f, state, args, want, mayfail=False, must=True):
        """the method ends in one call of the serializer and hands on its result"""
        n = 0
        for evs, failed, ret, post, kind in self.obj.call(f, state, args):
            if kind == 'panic':
                raise Bad('it may panic')
            if failed:
                if not self.is_failure(ret, kind):
                    raise Bad('it succeeds although `%s` failed' % evs[-1].method)
                continue
            if kind == 'err':
                if not mayfail:
                    raise Bad('it refuses the value')
                if evs:
                    raise Bad('it fails although `%s` succeeded' % evs[-1].method)
                continue
            if want is None:
                raise Bad('it succeeds') if not evs else Bad('it calls `%s`' % evs[0].method)
            tokens(self.names, evs, want)
            r = noref(ret)
            if self.is_failure(ret, kind):
                raise Bad('it fails although `%s` succeeded' % evs[-1].method)
            if r[3][0][0] == 'adt' and r[3][0][1].endswith('Result') and not mentions_any(r, lambda x: isinstance(x, tuple) and x and x[0] == 'ret'):
                raise Unknown('returns %s' % show(r)[:60])
            n += 1
        if want is not None and must and not n:
            raise Bad('it never succeeds')

    def begin(self, f, state, args, want, mayfail=False):
        """-> objects to go on with"""
        good = []
        for evs, failed, ret, post, kind in self.obj.call(f, state, args):
            if kind == 'panic':
                raise Bad('it may panic')
            if failed:
                if kind == 'err':
                    continue
                o = noref(ret)[3][0]
                if o[0] != 'adt':
                    raise Unknown('goes on as %s' % show(o)[:60])
                self.poison(ret[3][0])
                continue
            if kind == 'err':
                if not mayfail:
                    raise Bad('it refuses the value')
                if evs:
                    raise Bad('it fails although `%s` succeeded' % evs[-1].method)
                continue
            if want is None:
                raise Bad('it succeeds') if not evs else Bad('it calls `%s`' % evs[0].method)
            tokens(self.names, evs, want)
            good.append(ret[3][0])
        if want is not None and not good:
            raise Bad('it never succeeds')
        return good

    def compound(self, f, state, args, want, elem, mayfail=False):
        """elem: {method: wanted}"""
        good = []
        self.obligation('begin', f, lambda: good.extend(self.begin(f, state, args, want, mayfail)))
        for o in good:
            try:
                ty = noref(o)[1].split('::')[-1]
                tr = self.trait_of(ty)
            except Unknown as e:
                self.rep.inconclusive('begin', fn_where(f), str(e))
                continue
            for m in ELEMS[tr]:
                def element(m=m):
                    ef = self.obj.fn(ty, tr, m)
                    self.element(ef, o, tr, elem[m])
                try:
                    self.obligation('element', self.obj.fn(ty, tr, m), element)
                except Unknown as e:
                    self.rep.inconclusive('element', fn_where(f), str(e))
            try:
                ef = self.obj.fn(ty, tr, 'end')
                self.obligation('end', ef, lambda: self.final(ef, o, [], [('end',)]))
            except Unknown as e:
                self.rep.inconclusive('end', fn_where(f), str(e))

    def element(self, f, o, tr, want):
        n = 0
        for evs, failed, ret, post, kind in self.obj.call(f, o, self.elem_args(tr)):
            if kind == 'panic':
                raise Bad('it may panic')
            if failed:
                if kind != 'err':
                    # tolerated when the end fails
                    pass
                self.poison(post)
                continue
            if kind != 'ok':
                raise Bad('it refuses the value')
            tokens(self.names, evs, want)
            if diff(noref(o), noref(post)):
                raise Unknown('an element changes %s' % show(post)[:80])
            n += 1
        if not n:
            raise Bad('it never succeeds')

    def check(self):
        obj, crate = self.obj, self.crate
        top = lambda m: obj.fn('Serializer', 'Stream', m)
        S = None
        V = A('V')
        W = ('wrapped', V)
        for t in ['null'] + INTS + ['bool', 'f32', 'f64', 'text_computed', 'binary_computed']:
            f = top(t)
            st = self.state0(f)
            name = {'null': ('serialize_none', 'serialize_unit'), 'text_computed': 'serialize_str', 'binary_computed': 'serialize_bytes'}.get(t, 'serialize_' + t)
            self.obligation('scalar', f, lambda: self.final(f, st, [] if t == 'null' else [V], [(name,) + (() if t == 'null' else (('is', V),))]))
        st = self.state0(top('null'))
        lab = {'none': NONE, 'static': SOME(self.L), 'computed': SOME(self.LC)}
        for tn, tg in (('none', NONE), ('other', self.other), ('RUST_OPTION_NONE', self.tag('RUST_OPTION_NONE')), ('RUST_UNIT', self.tag('RUST_UNIT')),
                       ('NUMBER', self.tag('NUMBER'))):
            for ln, l in lab.items():
                f = top('tag')
                if tn == 'RUST_OPTION_NONE':
                    want = [('serialize_none',)]
                elif tn == 'RUST_UNIT':
                    want = [('serialize_unit',)]
                else:
                    want = [('serialize_unit_struct', ('is', A('NAME')))] if ln == 'static' else None
                self.obligation('tag', f, lambda: self.final(f, st, [tg, l, NONE], want, mayfail=want is None))
        for tn, tg in (('none', NONE), ('other', self.other), ('RUST_OPTION_SOME', self.tag('RUST_OPTION_SOME')), ('RUST_OPTION_NONE', self.tag('RUST_OPTION_NONE'))):
            for ln, l in lab.items():
                f = top('tagged_computed')
                if tn == 'RUST_OPTION_SOME':
                    want = [('serialize_some', W)]
                else:
                    want = [('serialize_newtype_struct', ('is', A('NAME')), W)] if ln == 'static' else None
                self.obligation('tagged', f, lambda: self.final(f, st, [tg, l, NONE, V], want, mayfail=want is None))
        LEN = A('LEN')
        for n, w in ((NONE, None), (SOME(LEN), ('some', LEN))):
            self.compound(top('seq_begin'), st, [n], [('serialize_seq', w)], {'value_computed': [('serialize_element', W)]})
            self.compound(top('map_begin'), st, [n], [('serialize_map', w)],
                          {'key_computed': [('serialize_key', W)], 'value_computed': [('serialize_value', W)]})
        fld = [('serialize_field', ('is', A('FIELD')), W)]
        for kind, fl in (('tuple', [('serialize_field', W)]), ('record', fld)):
            f = top(kind + '_begin')
            named = 'serialize_struct' if kind == 'record' else 'serialize_tuple_struct'
            self.compound(f, st, [NONE, SOME(self.L), NONE, SOME(LEN)], [(named, ('is', A('NAME')), ('is', LEN))], {'value_computed': fl})
            self.compound(f, st, [NONE, NONE, NONE, SOME(LEN)], [('serialize_tuple', ('is', LEN))], {'value_computed': [('serialize_element', W)]})
            for args in ([NONE, SOME(self.LC), NONE, SOME(LEN)], [NONE, SOME(self.L), NONE, NONE], [NONE, NONE, NONE, NONE]):
                self.obligation('begin', f, lambda: self.begin(f, st, args, None, mayfail=True))
        # enums
        f = top('enum_begin')
        good = []
        self.obligation('begin', f, lambda: good.extend(self.begin(f, st, [NONE, SOME(self.L), NONE], [])))
        for l in (NONE, SOME(self.LC)):
            self.obligation('begin', f, lambda: self.begin(f, st, [NONE, l, NONE], None, mayfail=True))
        for o in good:
            ty = noref(o)[1].split('::')[-1]
            try:
                em = {m: obj.fn(ty, 'StreamEnum', m) for m in ('tag', 'tagged_computed', 'tuple_begin', 'record_begin', 'empty')}
            except Unknown as e:
                self.rep.inconclusive('enum', fn_where(f), str(e))
                continue
            vid = (('is', A('NAME')), ('is', A('INDEX')), ('is', A('VARIANT')))
            ident = [NONE, SOME(self.LV), SOME(self.IX)]
            self.obligation('variant', em['tag'], lambda: self.final(em['tag'], o, ident, [('serialize_unit_variant',) + vid], mayfail=True))
            self.obligation('variant', em['tagged_computed'], lambda: self.final(em['tagged_computed'], o, ident + [V],
                                                                               [('serialize_newtype_variant',) + vid + (W,)], mayfail=True))
            self.compound(em['tuple_begin'], o, ident + [SOME(LEN)], [('serialize_tuple_variant',) + vid + (('is', LEN),)],
                          {'value_computed': [('serialize_field', W)]}, mayfail=True)
            self.compound(em['record_begin'], o, ident + [SOME(LEN)], [('serialize_struct_variant',) + vid + (('is', LEN),)],
                          {'value_computed': fld}, mayfail=True)
            self.obligation('variant', em['empty'], lambda: self.final(em['empty'], o, [], [('serialize_unit_struct', ('is', A('NAME')))]))
            for bad in ([NONE, NONE, SOME(self.IX)], [NONE, SOME(self.LC), SOME(self.IX)], [NONE, SOME(self.LV), NONE]):
                self.obligation('variant', em['tag'], lambda: self.final(em['tag'], o, bad, None, mayfail=True))
                self.obligation('variant', em['tagged_computed'], lambda: self.final(em['tagged_computed'], o, bad + [V], None, mayfail=True))
                for m in ('tuple_begin', 'record_begin'):
                    self.obligation('variant', em[m], lambda: self.begin(em[m], o, bad + [SOME(LEN)], None, mayfail=True))
        for f in crate.roots:
            tos = (f.get('impl_self') or '').split('::')[-1].startswith('ToSerialize') and f['name'] == 'serialize'
            if not tos and not f['path'].endswith('to_serialize::serialize'):
                continue
            val, out = (('fld', A('self'), 0), A('serializer')) if tos else (A('value'), A('serializer'))

            def entry():
                g = run(crate, f)
                if g.incomplete:
                    raise Unknown(g.incomplete)
                starts = [e for e, d in g.edges[g.start] if is_ev(e)]
                evs = [e for es in g.edges for e, d in es if is_ev(e) and e.method in ('stream', 'serialize', 'value_ref', 'value', 'stream_ref')]
                if not evs:
                    raise Unknown('streams nothing recognisable')
                if len(evs) != 1:
                    raise Bad('the value is streamed %d times' % len(evs))
                e = evs[0]
                if noref(e.recv) != val and leaves(e.recv) != [val]:
                    raise Bad('it streams %s instead of the value' % show(e.recv)[:60])
                if out not in leaves(e.args[0]):
                    raise Bad('it does not stream into the given serializer')
            self.obligation('entry', f, entry)

    def state0(self, f):
        t = self.crate.tys[f['impl_self_ty']]
        return ('adt', t['path'], 0, tuple(A('S%d' % i) for i in range(len(t['variants'][0]['fields']))))


def p13(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        crate = ctx.crate('sval_serde', cfg)
        if crate is None:
            continue
        rep.cfg = cfg
        try:
            P13(ctx, rep, cfg, crate).check()
        except Unknown as e:
            rep.inconclusive('methods', 'serde/src/to_serialize.rs', str(e))
        failstop(crate, rep, 'to_serialize.rs')
    rep.cfg = 'full'
    # the adapter receives values through nested streams
    from rules_nested import p15
    p15(ctx, rep)
