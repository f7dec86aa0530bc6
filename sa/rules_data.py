"""P18: labels, indexes, tags and wrappers keep what they hold.

Every way of making a label, an index, a tag or a wrapper around a value is interpreted abstractly from symbolic content; what comes out is
handed to every way of looking at it or turning it into another one, and the content seen must be the content put in. Comparisons and
hashing are decided on the term they compute."""
from common import fn_where, pmap
from interp import Interp, Incomplete, show, subterms
from lib import *
from reps import NONE, SOME

# functions of core and alloc that return the text or bytes they are given
SAME = {'into_boxed_str', 'from', 'into', 'to_owned', 'as_str', 'as_ref', 'borrow', 'deref', 'into_boxed_slice', 'into_raw', 'as_ptr', 'leak', 'to_string', 'into_string',
        'clone', 'from_raw', 'as_bytes', 'as_bytes_mut', 'as_mut_ptr', 'into_owned', 'as_mut', 'borrow_mut', 'to_vec', 'into_vec', 'into_bytes', 'as_slice', 'new_unchecked'}
INT = {'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1),
       'u8': (0, 255), 'u16': (0, 65535), 'i8': (-128, 127), 'i16': (-32768, 32767), 'i128': (-2**127, 2**127 - 1), 'u128': (0, 2**128 - 1)}


class Unknown(Exception):
    pass


def boxed(v):
    """is v a box made by the library, or a part of one? `into_boxed_str(s).0` is its pointer"""
    while v[0] == 'fld' and v[2] == 0:
        v = v[1]
    return v[0] == 'app' and v[1].split('::')[-1] in ('into_boxed_str', 'into_boxed_slice', 'from', 'into', 'new')


def content(v):
    """the content behind references, wrappers, boxes and copies of text"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] in ('&', 'deref', 'wrapv', 'exact'):
        return content(v[-1] if v[0] == 'exact' else v[1])
    if v[0] == 'transmute':
        return content(v[1])
    if v[0] == 'ref' and len(v) > 2 and isinstance(v[1], tuple) and v[1] and v[1][0] == 'D' and all(x == 'w' for x in (v[2] or ())):
        return content(v[1][1])
    if v[0] == 'app' and len(v[2]) == 1 and v[1].split('::')[-1] in SAME and not v[1].startswith(('data::', 'sval')):
        return content(v[2][0])
    if v[0] == 'fld' and v[2] == 0 and v[1][0] in ('app', 'fld') and boxed(v[1]):
        return content(v[1])
    if v[0] == 'adt':
        nm = v[1].split('::')[-1].split('<')[0]
        if nm in ('Box', 'BoxRaw', 'Unique', 'NonNull', 'String', 'Vec'):
            xs = [x for x in v[3] if not (x[0] == 'zst' or (x[0] == 'adt' and x[1].split('::')[-1].split('<')[0] in ('PhantomData', 'Global')))]
            if len(xs) == 1:
                return content(xs[0])
        return ('adt', nm, v[2], tuple(content(x) for x in v[3] if not (x[0] == 'adt' and 'PhantomData' in x[1])))
    return tuple(content(x) if isinstance(x, tuple) else x for x in v)


class Data:
    def __init__(self, crate, cfg, rep):
        self.c, self.cfg, self.rep = crate, cfg, rep
        self.hashed = {}

    # ------------------------------------------------------------ helpers
    def fn(self, ty, name, trait=None, arg=None):
        out = []
        for f in self.c.roots:
            if f.get('name') != name or (f.get('impl_self') or '').split('<')[0].split('::')[-1] != ty or (f.get('impl_self') or '').startswith('&'):
                continue
            tr = (f.get('impl_trait') or '').split('::')[-1]
            if (trait or '') != tr:
                continue
            if arg is not None and arg not in f['path']:
                continue
            out.append(f)
        return out[0] if len(out) == 1 else None

    def call(self, f, args):
        """[(facts, result)] of every path of f"""
        it = Interp(self.c)
        try:
            g = it.run(f, args)
            if g.incomplete:
                raise Unknown(str(g.incomplete))
            if g.cyclic():
                raise Unknown('a loop')
            ps = g.paths()
        except Incomplete as e:
            raise Unknown(str(e))
        out = []
        for evs, t in ps:
            if any(is_ev(e) for e in evs):
                raise Unknown('calls %s' % [e.method for e in evs if is_ev(e)][0])
            if t['kind'] == 'unreachable' or self.align(t):
                continue
            if t['kind'] != 'ret':
                out.append((t['state'].facts, None))
            else:
                out.append((t['state'].facts, t.get('snap') or t['ret']))
        return out

    @staticmethod
    def align(t):
        """the checks of alignment and null pointers the compiler inserts in debug builds"""
        return t['kind'] == 'panic' and any(mentions_any(k, lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] == 'const' and 'SizedTypeProperties' in str(x[1]))
                                            for k in t['state'].facts)

    def law(self, rule, f, args, want, what):
        """every path of f(args) returns `want`"""
        w = fn_where(f)
        try:
            ps = self.call(f, args)
        except Unknown as e:
            self.rep.inconclusive(rule, w, '%s: %s' % (what, e))
            return False
        for _, r in ps:
            if r is None:
                self.viol(rule, f, '%s: panics' % what)
                return False
            if content(r) != content(want):
                if self.unclear(r):
                    self.rep.inconclusive(rule, w, '%s: gives %s' % (what, show(r)[:120]))
                else:
                    self.viol(rule, f, '%s: gives %s instead of %s' % (what, show(content(r))[:120], show(content(want))[:120]))
                return False
        self.rep.ok(rule, w)
        return True

    def unclear(self, r):
        """terms this rule does not interpret"""
        return mentions_any(content(r), lambda x: isinstance(x, tuple) and x and x[0] in ('app', 'opaque', 'phi', 'havoc', 'widen', 'top', 'transmute', 'ref', 'raw', 'lin', 'unk'))

    def viol(self, rule, f, msg):
        self.rep.viol('%s:%s:%s' % (rule, fkey(self.c, f), msg.split(': ')[0]), rule, fn_where(f), msg)

    # ------------------------------------------------------------ labels
    def labels(self):
        T, S = ('arg', 'text'), ('arg', 'string')
        G = ('adt', 'data::Tag', 0, (('arg', 'id'), ('arg', 'data')))
        G2 = ('adt', 'data::Tag', 0, (('arg', 'id2'), ('arg', 'data2')))
        forms = []
        for name, x, static in (('new', T, True), ('new_computed', T, False), ('new_owned', S, False)):
            f = self.fn('Label', name)
            if f is None:
                continue
            v = self.value('label', f, [x])
            if v is None:
                continue
            forms.append((name, v, x, static, None))
            wt = self.fn('Label', 'with_tag')
            if wt:
                tv = self.value('label', wt, [v, ('&', G)])
                if tv is not None:
                    forms.append((name + ' with a tag', tv, x, static, G))
                    ttv = self.value('label', wt, [tv, ('&', G2)])
                    if ttv is not None:
                        forms.append((name + ' with another tag', ttv, x, static, G2))
        for n, v, x, static, g in forms:
            self.label_is('label', n, v, x, static, g)
            for op, tr in (('clone', 'Clone'), ('to_owned', None), ('try_to_owned', None)):
                f = self.fn('Label', op, tr)
                if f is None:
                    continue
                what = '%s of a label made with %s' % (op, n)
                try:
                    ps = self.call(f, [('&', v)])
                except Unknown as e:
                    self.rep.inconclusive('label', fn_where(f), '%s: %s' % (what, e))
                    continue
                for facts, r in ps:
                    if r is None:
                        self.viol('label', f, '%s: panics' % what)
                        continue
                    if op == 'try_to_owned':
                        if not (r[0] == 'adt' and r[1].endswith('Result')):
                            self.rep.inconclusive('label', fn_where(f), '%s: gives %s' % (what, show(r)[:100]))
                            continue
                        must_fail = self.cfg == 'core' and not static
                        if (r[2] == 1) != must_fail:
                            self.viol('label', f, '%s: %s' % (what, 'fails' if r[2] == 1 else 'gives a label that outlives its text'))
                            continue
                        self.rep.ok('label', fn_where(f))
                        if r[2] == 1:
                            continue
                        r = r[3][0]
                    self.label_is('label', what, r, x, static, g, f)
        # comparisons look at the text only
        U = ('arg', 'other_text')
        others = []
        f = self.fn('Label', 'new_computed')
        f2 = self.fn('Label', 'new')
        for f in (f, f2):
            if f:
                v = self.value('label', f, [U])
                if v is not None:
                    others.append(v)
                    wt = self.fn('Label', 'with_tag')
                    if wt:
                        tv = self.value('label', wt, [v, ('&', G2)])
                        if tv is not None:
                            others.append(tv)
        eq = self.fn('Label', 'eq', 'PartialEq')
        if eq:
            for n, v, x, _, _ in forms:
                for o in others:
                    self.equal('label equality', eq, [('&', v), ('&', o)], x, U, 'comparing a label made with %s' % n)
        bo = self.fn('Label', 'borrow', 'Borrow')
        if bo:
            for n, v, x, _, _ in forms:
                self.law('label', bo, [('&', v)], x, 'borrow of a label made with %s' % n)
        h = self.fn('Label', 'hash', 'Hash')
        if h:
            for n, v, x, _, _ in forms:
                self.hash('label hash', h, v, x, 'a label made with %s' % n, 'str')

    def value(self, rule, f, args):
        try:
            ps = self.call(f, args)
        except Unknown as e:
            self.rep.inconclusive(rule, fn_where(f), str(e))
            return None
        if len(ps) != 1 or ps[0][1] is None:
            self.rep.inconclusive(rule, fn_where(f), '%d results' % len(ps))
            return None
        return ps[0][1]

    def label_is(self, rule, n, v, text, static, tag, by=None):
        g = lambda name: self.fn('Label', name)
        for name, want in (('as_str', text), ('as_static_str', SOME(text) if static else NONE), ('tag', SOME(tag) if tag else NONE)):
            f = g(name)
            if f:
                self.law(rule, f, [('&', v)], want, '%s of %s' % (name, n if by else 'a label made with ' + n))

    # ------------------------------------------------------------ comparisons
    def equal(self, rule, f, args, a, b, what):
        """f(args) is true exactly when a and b are equal"""
        w = fn_where(f)
        try:
            ps = self.call(f, args)
        except Unknown as e:
            self.rep.inconclusive(rule, w, '%s: %s' % (what, e))
            return
        a, b = content(a), content(b)

        def address(k):
            """does k compare where things are, not what they are?"""
            return mentions_any(k, lambda x: isinstance(x, tuple) and x and x[0] == 'app' and isinstance(x[1], str) and (
                x[1].startswith(('core::ptr', 'std::ptr')) or x[1].split('::')[-1] in ('as_ptr', 'addr_eq'))) or \
                rule.startswith('label') and k[0] == 'bin' and k[1] in ('Eq', 'Ne') and {content(x) for x in k[2:4]} == {a, b}

        def about(k):
            """+1: k says a == b, -1: k says a != b"""
            if address(k):
                return 0
            k = content(k)
            if k[0] == 'not':
                return -about(k[1])
            nm, xs = (k[1].split('::')[-1], k[2]) if k[0] == 'app' else (k[1], k[2:]) if k[0] == 'bin' else ('str_eq', k[1:]) if k[0] == 'str_eq' else (None, ())
            if nm and len(xs) == 2 and {content(x) for x in xs} == {a, b}:
                return {'str_eq': 1, 'eq': 1, 'Eq': 1, 'ne': -1, 'Ne': -1}.get(nm, 0)
            return 0
        lens = {('len', a), ('len', b)}
        seen = set()
        for facts, r in ps:
            if r is None:
                self.viol(rule, f, '%s: panics' % what)
                return
            known = None
            for k, val in facts.items():
                if not isinstance(k, tuple) or not isinstance(val, int):
                    continue
                s = about(k)
                if s:
                    known = (val if s > 0 else 1 - val)
                kk = content(k)
                if kk[0] == 'bin' and set(kk[2:4]) == lens and ((kk[1] == 'Eq' and val == 0) or (kk[1] == 'Ne' and val == 1)):
                    known = 0
                if self.implies_different(kk, val):
                    known = 0
            samelen = any(isinstance(k, tuple) and content(k)[0] == 'bin' and set(content(k)[2:4]) == lens and (content(k)[1], val) in (('Eq', 1), ('Ne', 0))
                          for k, val in facts.items())
            for k, val in facts.items():
                if isinstance(k, tuple) and k[0] != 'excl' and isinstance(val, int) and address(k) and known is None and val == 1 and (
                        samelen or not mentions_any(k, lambda x: isinstance(x, tuple) and x and x[0] == 'app' and str(x[1]).split('::')[-1] in ('as_ptr', 'addr_eq'))):
                    known = 1       # the very same text
            if address(r):
                self.viol(rule, f, '%s: decided by where they are, not by what they are' % what)
                return
            rr = content(r)
            if rr[0] == 'i':
                if known is None:
                    oth = [k for k in facts if isinstance(k, tuple) and k[0] != 'excl']
                    if not oth:
                        self.viol(rule, f, '%s: always %s' % (what, 'equal' if rr[1] else 'different'))
                        return
                    if all(address(k) for k in oth):
                        self.viol(rule, f, '%s: %s decided by where they start' % (what, 'equal' if rr[1] else 'different'))
                        return
                    if any(self.unclear(k) for k in oth):
                        self.rep.inconclusive(rule, w, '%s: %s when %s' % (what, rr[1], [show(k)[:60] for k in oth]))
                    else:
                        self.viol(rule, f, '%s: %s decided by %s' % (what, 'equal' if rr[1] else 'different', show(content(oth[0]))[:80]))
                    return
                if known != rr[1]:
                    self.viol(rule, f, '%s: %s although they are %s' % (what, 'equal' if rr[1] else 'different', 'equal' if known else 'different'))
                    return
            else:
                s = about(rr)
                if s < 0:
                    self.viol(rule, f, '%s: the result is negated' % what)
                    return
                if s == 0:
                    if self.unclear(rr) and (mentions(rr, a) or mentions(rr, b)) and not self.only_one(rr, a, b):
                        self.rep.inconclusive(rule, w, '%s: %s' % (what, show(rr)[:100]))
                    else:
                        self.viol(rule, f, '%s: decided by %s' % (what, show(rr)[:100]))
                    return
        self.rep.ok(rule, w)

    def only_one(self, r, a, b):
        return mentions(r, a) != mentions(r, b)

    def implies_different(self, k, val):
        """tags: the identifier is a function of the text"""
        ids = {('arg', 'id'), ('arg', 'id2')}
        return k[0] == 'bin' and set(k[2:4]) == ids and ((k[1] == 'Eq' and val == 0) or (k[1] == 'Ne' and val == 1))

    def hash(self, rule, f, v, x, what, ty):
        """f feeds exactly x to the hasher"""
        w = fn_where(f)
        ST = ('arg', 'state')
        it = Interp(self.c, force_event=lambda c, a: any(mentions(y, ST) for y in a))
        try:
            g = it.run(f, [('&', v), ST])
            if g.incomplete or g.cyclic():
                raise Incomplete(str(g.incomplete or 'a loop'))
            ps = g.paths()
        except Incomplete as e:
            self.rep.inconclusive(rule, w, '%s: %s' % (what, e))
            return
        x = content(x)
        for evs, t in ps:
            es = [e for e in evs if is_ev(e)]
            fed = []
            for e in es:
                vals = [content(y) for y in [e.recv] + list(e.args) if y is not None and not mentions(y, ST)]
                fed.append((e.method, tuple(vals)))
            got = [y for _, ys in fed for y in ys]
            if t['kind'] != 'ret':
                continue
            # constants that are hashed too (a terminator, a length of nothing) must be the same for every form
            consts = tuple(y for y in got if y[0] == 'i')
            if self.hashed.setdefault(f['path'], consts) != consts:
                self.viol(rule, f, '%s: equal values hash differently' % what)
                return
            if x not in got:
                self.viol(rule, f, '%s: the hash does not come from its value' % what) if not any(self.unclear(y) for y in got) else \
                    self.rep.inconclusive(rule, w, '%s: hashes %s' % (what, [show(y)[:60] for y in got]))
                return
            extra = [y for y in got if y != x and y[0] != 'i']
            if extra:
                if any(self.unclear(y) for y in extra):
                    self.rep.inconclusive(rule, w, '%s: hashes %s' % (what, [show(y)[:60] for y in extra]))
                else:
                    self.viol(rule, f, '%s: equal values hash differently: %s is hashed too' % (what, show(extra[0])[:60]))
                return
        self.rep.ok(rule, w)

    # ------------------------------------------------------------ indexes
    def indexes(self):
        N = ('arg', 'n')
        G = ('adt', 'data::Tag', 0, (('arg', 'id'), ('arg', 'data')))
        G2 = ('adt', 'data::Tag', 0, (('arg', 'id2'), ('arg', 'data2')))
        shape = None
        for name, ty in (('new', 'usize'), ('new_u32', 'u32'), ('new_u64', 'u64'), ('new_i32', 'i32'), ('new_i64', 'i64'), ('new_isize', 'isize')) + \
                tuple(('from', t) for t in ('i32', 'i64', 'isize', 'u32', 'u64', 'usize')):
            f = self.fn('Index', name, 'From' if name == 'from' else None, 'From<%s>' % ty if name == 'from' else None)
            if f is None:
                continue
            what = '%s from %s' % (name, ty)
            v = self.value('index', f, [N])
            if v is None:
                continue
            # the number is kept: the extreme values and zero come out as they went in
            num, tag = self.parts(v)
            if num is None:
                self.rep.inconclusive('index', fn_where(f), 'the layout of an index is not recognised')
                continue
            shape = v
            if content(num) == N:
                self.rep.ok('index', fn_where(f))
            elif self.unclear(num):
                self.rep.inconclusive('index', fn_where(f), '%s: stores %s' % (what, show(num)[:80]))
            else:
                self.viol('index', f, '%s: stores %s' % (what, show(content(num))[:80]))
            if content(tag) != content(NONE):
                self.viol('index', f, '%s: starts with a tag' % what)
        if shape is None:
            return
        forms = [('an index', shape, NONE)]
        wt = self.fn('Index', 'with_tag')
        if wt:
            tv = self.value('index', wt, [shape, ('&', G)])
            if tv is not None:
                forms.append(('a tagged index', tv, SOME(G)))
                ttv = self.value('index', wt, [tv, ('&', G2)])
                if ttv is not None:
                    forms.append(('an index tagged twice', ttv, SOME(G2)))
        cl = self.fn('Index', 'clone', 'Clone')
        for n, v, g in list(forms):
            if cl:
                r = self.value('index', cl, [('&', v)])
                if r is not None:
                    forms.append(('a clone of ' + n, r, g))
        for n, v, g in forms:
            f = self.fn('Index', 'tag')
            if f:
                self.law('index', f, [('&', v)], g, 'tag of %s' % n)
            num, _ = self.parts(v)
            if num is None or content(num) != N:
                self.viol('index', cl or wt, '%s: the number is %s' % (n, show(num)[:60] if num else '?'))
        # the stored number is an i128: make it symbolic over its whole range
        raw = self.with_num(shape, ('arg', 'm'))
        M = ('arg', 'm')
        for name in ('to_usize', 'to_u32', 'to_u64', 'to_isize', 'to_i32', 'to_i64'):
            f = self.fn('Index', name)
            if f:
                self.to_int(f, name, raw, M, INT[name[3:]])
        O = ('arg', 'o')
        for n, v, _ in forms:
            a = self.with_num(v, M)
            for n2, v2, _ in forms:
                b = self.with_num(v2, O)
                eq = self.fn('Index', 'eq', 'PartialEq')
                if eq:
                    self.equal('index equality', eq, [('&', a), ('&', b)], M, O, 'comparing %s with %s' % (n, n2))
                for nm, tr in (('cmp', 'Ord'), ('partial_cmp', 'PartialOrd')):
                    f = self.fn('Index', nm, tr)
                    if f:
                        if not self.sample_order(f, nm, v, v2, 'ordering %s and %s' % (n, n2)):
                            self.order(f, nm, [('&', a), ('&', b)], M, O, 'ordering %s and %s' % (n, n2))
            h = self.fn('Index', 'hash', 'Hash')
            if h:
                self.hash('index hash', h, a, M, n, 'i128')

    def parts(self, v):
        """(number, tag) of an index"""
        if v[0] != 'adt':
            return None, None
        tag = [x for x in v[3] if x[0] == 'adt' and x[1].endswith('Option')]
        num = [x for x in v[3] if not (x[0] == 'adt')]
        if len(tag) == 1 and len(num) == 1:
            return num[0], tag[0]
        return None, None

    def with_num(self, v, n):
        num, _ = self.parts(v)
        return v[:3] + (tuple(n if x == num else x for x in v[3]),)

    def to_int(self, f, name, v, m, rng):
        w = fn_where(f)
        lo, hi = rng
        try:
            ps = self.call(f, [('&', v)])
        except Unknown as e:
            self.rep.inconclusive('index conversion', w, str(e))
            return self.points(f, name, v, m, rng)
        for facts, r in ps:
            iv = interval(facts, m)
            if iv is None or r is None or not (r[0] == 'adt' and r[1].endswith('Option')):
                return self.points(f, name, v, m, rng, 'the paths of %s are not recognised' % name)
            a, b, exact = iv
            if a > b:
                continue
            if r[2] == 0:
                if a <= hi and b >= lo:
                    if exact:
                        self.viol('index conversion', f, '%s: gives nothing for %d' % (name, max(a, lo)))
                        return
                    return self.points(f, name, v, m, rng, 'a condition of %s is not recognised' % name)
            else:
                x = r[3][0]
                if content(x) != m and not (x[0] == 'i' and a == b == x[1]):
                    if a >= lo and b <= hi and x[0] in ('cast', 'trunc') and content(x[-1]) == m:
                        continue
                    return self.points(f, name, v, m, rng, '%s gives %s' % (name, show(x)[:80]))
                if a < lo or b > hi:
                    if exact:
                        self.viol('index conversion', f, '%s: gives another number for %d' % (name, a if a < lo else b))
                        return
                    return self.points(f, name, v, m, rng, 'a condition of %s is not recognised' % name)
        self.rep.ok('index conversion', w)

    def points(self, f, name, v, m, rng, why=None):
        """constant propagation at the boundaries: shows a violation, never proves its absence"""
        lo, hi = rng
        ps = sorted({x + d for l, h in INT.values() for x in (l, h) for d in (-1, 0, 1)} & set(range(-2**127, -2**127 + 2)) |
                    {x + d for l, h in INT.values() for x in (l, h) for d in (-1, 0, 1) if -2**127 <= x + d < 2**127})
        for n in ps:
            try:
                rs = self.call(f, [('&', tuple_subst(v, m, ('i', n)))])
            except Unknown:
                continue
            if len(rs) != 1 or rs[0][1] is None or rs[0][1][0] != 'adt':
                continue
            r = rs[0][1]
            if r[2] == 0 and lo <= n <= hi:
                self.viol('index conversion', f, '%s: gives nothing for %d' % (name, n))
                return
            if r[2] == 1 and (not lo <= n <= hi or (r[3][0][0] == 'i' and r[3][0][1] != n)):
                self.viol('index conversion', f, '%s: gives another number for %d' % (name, n))
                return
        self.rep.inconclusive('index conversion', fn_where(f), why or 'only the boundaries were followed')

    def sample_order(self, f, name, v, v2, what):
        """boundary numbers, followed as constants: True if one of them comes out wrong"""
        for x, y in ((-5, 3), (3, -5), (-2, -1), (2 ** 33, 1), (1, 2 ** 33), (2 ** 63 + 1, 2 ** 63), (-2 ** 63, 2 ** 64 - 1), (7, 7)):
            try:
                ps = self.call(f, [('&', self.with_num(v, ('i', x))), ('&', self.with_num(v2, ('i', y)))])
            except Unknown:
                return False
            if len(ps) != 1 or ps[0][1] is None:
                continue
            r = ps[0][1]
            if name == 'partial_cmp' and r[0] == 'adt' and r[1].endswith('Option') and r[2] == 1:
                r = r[3][0]
            r = content(r)
            got = {0: -1, 1: 0, 2: 1}.get(r[2]) if r[0] == 'adt' and r[1].endswith('Ordering') else r[1] if r[0] == 'i' and r[1] in (-1, 0, 1) else None
            if got is not None and got != (x > y) - (x < y):
                self.viol('index order', f, '%s: %d and %d come out as %s' % (what, x, y, {-1: 'less', 0: 'equal', 1: 'greater'}[got]))
                return True
        return False

    def order(self, f, name, args, a, b, what):
        w = fn_where(f)
        rule = 'index order'
        try:
            ps = self.call(f, args)
        except Unknown as e:
            self.rep.inconclusive(rule, w, '%s: %s' % (what, e))
            return
        disc = {0: -1, 1: 0, 2: 1}
        for facts, r in ps:
            if r is None:
                self.viol(rule, f, '%s: panics' % what)
                return
            if name == 'partial_cmp' and r[0] == 'adt' and r[1].endswith('Option'):
                if r[2] == 0:
                    self.viol(rule, f, '%s: not ordered' % what)
                    return
                r = r[3][0]
            r = content(r)
            if r in (('bin', 'Cmp', a, b),) or (r[0] == 'app' and r[1].split('::')[-1] in ('cmp', 'partial_cmp') and tuple(r[2]) == (a, b)):
                continue
            if r in (('bin', 'Cmp', b, a),) or (r[0] == 'app' and r[1].split('::')[-1] in ('cmp', 'partial_cmp') and tuple(r[2]) == (b, a)):
                self.viol(rule, f, '%s: reversed' % what)
                return
            if r[0] == 'adt' and r[1].endswith('Ordering') or r[0] == 'i':
                poss = {-1, 0, 1}
                for k, val in facts.items():
                    k = content(k)
                    if k[0] == 'bin' and k[2:4] in ((a, b), (b, a)) and isinstance(val, int):
                        s = 1 if k[2] == a else -1
                        tr = {'Lt': {-s}, 'Le': {-s, 0}, 'Gt': {s}, 'Ge': {s, 0}, 'Eq': {0}, 'Ne': {-1, 1}}.get(k[1])
                        if tr is not None:
                            poss &= tr if val else {-1, 0, 1} - tr
                got = disc.get(r[2]) if r[0] == 'adt' else r[1]
                if poss and got not in poss:
                    self.viol(rule, f, '%s: gives %s' % (what, got))
                    return
                if poss <= {got}:
                    continue
                if not [k for k in facts if isinstance(k, tuple) and self.unclear(k)]:
                    self.viol(rule, f, '%s: gives %s for different orders' % (what, got))
                    return
            elif not mentions(r, a) and not mentions(r, b):
                self.viol(rule, f, '%s: decided by %s' % (what, show(r)[:80]))
                return
            self.rep.inconclusive(rule, w, '%s: %s' % (what, show(r)[:100]))
            return
        self.rep.ok(rule, w)

    # ------------------------------------------------------------ tags
    def tags(self):
        D = ('arg', 'data')
        A = ('adt', 'data::Tag', 0, (('arg', 'id'), D))
        B = ('adt', 'data::Tag', 0, (('arg', 'id2'), ('arg', 'data2')))
        ty = [t for t in self.c.tys if t.get('path') == 'data::Tag']
        if ty and len(ty[0].get('variants', [{}])[0].get('fields', [0, 0])) != 2:
            self.rep.inconclusive('tag', 'src/data.rs', 'the layout of a tag is not recognised')
            return
        for f in (self.fn('Tag', 'clone', 'Clone'), self.fn('Tag', 'cloned')):
            if f:
                self.law('tag', f, [('&', A)], A, 'copy of a tag')
        eq = self.fn('Tag', 'eq', 'PartialEq')
        if eq:
            self.equal('tag equality', eq, [('&', A), ('&', B)], D, ('arg', 'data2'), 'comparing tags')
        new = self.fn('Tag', 'new')
        if new:
            it = Interp(self.c)
            try:
                g = it.run(new, [D])
                bad = None
                for t in g.term.values():
                    if t['kind'] != 'ret':
                        continue
                    r = t.get('snap') or t['ret']
                    if r[0] == 'adt' and len(r[3]) == 2 and content(r[3][1]) != D:
                        bad = r
                if bad is not None and not self.unclear(bad[3][1]):
                    self.viol('tag', new, 'new: the tag is named %s' % show(bad[3][1])[:60])
                elif bad is not None or g.incomplete:
                    self.rep.inconclusive('tag', fn_where(new), str(g.incomplete or show(bad)[:80]))
                else:
                    self.rep.ok('tag', fn_where(new))
            except Incomplete as e:
                self.rep.inconclusive('tag', fn_where(new), str(e))

    # ------------------------------------------------------------ wrappers
    def wrappers(self):
        """types around one value: what goes in is what comes out"""
        by = {}
        for f in self.c.roots:
            s = f.get('impl_self') or ''
            nm = f.get('name')
            if s.startswith('&'):
                s = s.lstrip('&').strip()
                s = s.split(' ', 1)[1] if s.startswith("'") and ' ' in s else s
            ty = s.split('<')[0]
            tr = (f.get('impl_trait') or '').split('::')[-1]
            if nm in ('new', 'new_borrowed') and not tr and f['nargs'] == 1:
                by.setdefault(ty, [[], []])[0].append(f)
            if nm == 'from' and tr == 'From' and 'JsonStr' in f['path'] and f['nargs'] == 1:
                t2 = [x for x in by if x.endswith('JsonStr')]
                by.setdefault(t2[0] if t2 else 'value::JsonStr', [[], []])[0].append(f)
            if f['nargs'] == 1 and ((nm in ('inner', 'into_inner', 'as_slice', 'as_str', 'as_bytes') and not tr) or (tr in ('AsRef', 'Borrow', 'Deref') and nm in ('as_ref', 'borrow', 'deref'))):
                by.setdefault(ty, [[], []])[1].append(f)
        X = ('arg', 'value')
        for ty, (ctors, gets) in sorted(by.items()):
            last = ty.split('::')[-1]
            if last in ('Label', 'Tag', 'Index', 'Error') or not ctors:
                continue
            for c in ctors:
                try:
                    ps = self.call(c, [X])
                except Unknown as e:
                    if gets:
                        self.rep.inconclusive('wrapper', fn_where(c), str(e))
                    continue
                if len(ps) != 1 or ps[0][1] is None:
                    if gets:
                        self.rep.inconclusive('wrapper', fn_where(c), '%d results' % len(ps))
                    continue
                v = ps[0][1]
                single = v[0] == 'adt' and len([x for x in v[3] if 'PhantomData' not in str(x[1])]) == 1
                if not gets:
                    # nothing to take it out with: the value is what is stored
                    inner = content(v[3][0]) if single else content(v)
                    if single or v[0] == '&':
                        if inner == X:
                            self.rep.ok('wrapper', fn_where(c))
                        elif not self.unclear(inner):
                            self.viol('wrapper', c, '%s: holds %s' % (last, show(inner)[:60]))
                    continue
                for g in gets:
                    byval = g.get('name') == 'into_inner'
                    if v[0] == 'adt' and v[1].split('::')[-1].split('<')[0] == 'Box':
                        continue
                    if v[0] in ('&', 'ref') and byval:
                        continue
                    arg = v if byval or v[0] in ('&', 'ref') else ('&', v)
                    self.law('wrapper', g, [arg], X, '%s::%s, then %s' % (last, c.get('name'), g.get('name')))
        # equality and hashing of wrapped text
        for ty in ('JsonStr',):
            n = self.fn(ty, 'new')
            eqs = [f for f in self.c.roots if f.get('name') == 'eq' and 'JsonStr' in (f.get('impl_self') or '') and not (f.get('impl_self') or '').startswith('&')]
            if n is None:
                continue
            a = self.value('wrapper', n, [X])
            b = self.value('wrapper', n, [('arg', 'other')])
            if a is None or b is None:
                continue
            for f in eqs:
                other = ('arg', 'other') if 'PartialEq<str>' in f['path'] else b
                self.equal('wrapper equality', f, [a, other], X, ('arg', 'other'), 'comparing %s' % ty)
            h = self.fn(ty, 'hash', 'Hash')
            if h and a[0] == '&':
                self.hash('wrapper hash', h, a[1], X, 'the hash of %s' % ty, 'str')

    # ------------------------------------------------------------ buffers of text and bytes
    def buffers(self):
        X, Y = ('arg', 'text'), ('arg', 'other_text')
        for ty, view, borrowed in (('TextBuf', 'as_str', 'as_borrowed_str'), ('BinaryBuf', 'as_slice', 'as_borrowed_slice')):
            fr = self.fn(ty, 'from', 'From')
            if fr is None:
                continue
            v = self.value('buffer', fr, [X])
            if v is None:
                continue
            forms = [('a borrowed fragment', v, True)]
            o = owned(v)
            if o is not None:
                forms.append(('an owned fragment', o, False))
            cl, eq, ar = self.fn(ty, 'clone', 'Clone'), self.fn(ty, 'eq', 'PartialEq'), self.fn(ty, 'as_ref', 'AsRef')
            vf, bf = self.fn(ty, view), self.fn(ty, borrowed)
            for n, b, isb in list(forms):
                if cl:
                    r = self.value('buffer', cl, [('&', b)])
                    if r is not None:
                        forms.append(('a clone of ' + n, r, isb))
            for n, b, isb in forms:
                for f in (vf, ar):
                    if f:
                        self.law('buffer', f, [('&', b)], X, '%s of %s' % (f['name'], n))
                if bf and isb:
                    self.law('buffer', bf, [('&', b)], SOME(X), '%s of %s' % (borrowed, n))
                elif bf:
                    self.law('buffer', bf, [('&', b)], NONE, '%s of %s' % (borrowed, n))
                if eq:
                    for n2, b2, _ in forms:
                        self.equal('buffer equality', eq, [('&', b), ('&', tuple_subst(b2, X, Y))], X, Y, 'comparing %s with %s' % (n, n2))

    # ------------------------------------------------------------ failures
    def failures(self):
        for f in self.c.roots:
            if f['path'] == 'result::error' or (f.get('name') == 'error' and f['path'].endswith('::error') and f['nargs'] == 0 and not f.get('impl_self')):
                try:
                    ps = self.call(f, [])
                except Unknown as e:
                    self.rep.inconclusive('failure', fn_where(f), str(e))
                    continue
                for _, r in ps:
                    if r is not None and r[0] == 'adt' and r[1].endswith('Result'):
                        if r[2] == 1:
                            self.rep.ok('failure', fn_where(f))
                        else:
                            self.viol('failure', f, 'error(): succeeds')


def owned(v):
    """the same buffer with its content owned; None when there is no such form"""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == 'adt':
        if v[1].endswith('Cow') and v[2] == 0:
            return ('adt', v[1], 1, v[3])
        xs = [owned(x) for x in v[3]]
        if any(xs):
            return v[:3] + (tuple(x if y is None else y for x, y in zip(v[3], xs)),)
    return None


def tuple_subst(v, a, b):
    if v == a:
        return b
    if not isinstance(v, tuple):
        return v
    return tuple(tuple_subst(x, a, b) if isinstance(x, tuple) else x for x in v)


def interval(facts, m):
    """(low, high, exact): what the path conditions say about m; None when they are about something else"""
    lo, hi, exact = -2**127, 2**127 - 1, True
    for k, v in facts.items():
        if not isinstance(k, tuple) or k[0] == 'excl':
            continue
        kk = content(k)
        if kk == m and isinstance(v, int):
            lo, hi = max(lo, v), min(hi, v)
            continue
        if kk[0] != 'bin' or not isinstance(v, int):
            exact = False
            continue
        op, a, b = kk[1:4]
        if a[0] == 'i' and b == m:
            op = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(op, op)
            a, b = b, a
        if a != m or b[0] != 'i':
            exact = False
            continue
        if v == 0:
            op = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne', 'Ne': 'Eq'}.get(op, '?')
        c = b[1]
        if op == 'Lt':
            hi = min(hi, c - 1)
        elif op == 'Le':
            hi = min(hi, c)
        elif op == 'Gt':
            lo = max(lo, c + 1)
        elif op == 'Ge':
            lo = max(lo, c)
        elif op == 'Eq':
            lo, hi = max(lo, c), min(hi, c)
        else:
            exact = False
    return lo, hi, exact


def distinct_tags(ctx, rep):
    """the tags the crates define are all different"""
    seen = {}
    for name in ctx_crates:
        c = ctx.crate(name, 'full')
        if c is None:
            continue
        for p, k in sorted(c.consts.items()):
            v = k.get('v', {})
            ty = c.ty(k.get('ty')) if isinstance(k.get('ty'), int) else {}
            if 'fields' not in v or not ty.get('path', ty.get('s', '')).split('<')[0].endswith('Tag'):
                continue
            data = [x['str'] for x in v['fields'] if 'str' in x]
            if len(data) != 1:
                continue
            where = '%s::%s' % (name, p)
            if data[0] in seen and seen[data[0]].split('::')[-1] != p.split('::')[-1]:
                rep.viol('tags:%s' % p, 'distinct tags', where, '%s and %s are the same tag' % (where, seen[data[0]]))
            else:
                seen.setdefault(data[0], where)
                rep.ok('distinct tags', where)


ctx_crates = ['sval', 'sval_json', 'sval_fmt', 'sval_serde']
CRATES = ['sval', 'sval_ref', 'sval_json', 'sval_fmt', 'sval_serde', 'sval_buffer']


def check_data(ctx, rep):
    tasks = [(cfg, n) for cfg in ctx.configs() for n in CRATES]

    def one(t, sub):
        cfg, n = t
        c = ctx.crate(n, cfg)
        if c is None:
            return
        d = Data(c, cfg, sub)
        if n == 'sval':
            d.labels()
            d.indexes()
            d.tags()
            d.failures()
        if n == 'sval_buffer':
            d.buffers()
        else:
            d.wrappers()
    pmap(rep, tasks, one)
    distinct_tags(ctx, rep)


def p18(ctx, rep):
    ctx.prepare()
    check_data(ctx, rep)
