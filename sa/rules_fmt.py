"""P12: debug-style output has the structure and the content of the value.

Three layers: (1) the tokens the writer hands to the token writer, as a transition system whose product with the output
grammar is closed under nesting; (2) what each token of the default token writer looks like; (3) escaping, by induction over
the text."""
from common import fn_where
from interp import Interp, show
from lib import *
from machine import *
from reps import *
from typestate import Bad, Unknown
from rules_json import TEXT, LTEXT, BYTES, NUM, segments, is_slice, is_index

BYTE = ('arg', 'BYTE')
AFTER = {'V': 'D', 'MK': 'MC', 'MV': 'MD', 'SV': 'SD', 'RV': 'RD', 'TV': 'TD', 'T0': 'TX'}
NAMES = {'V': 'a value is expected', 'D': 'the value is already complete', 'M0': 'a key or the end of the map is expected',
         'MK': 'a key is expected', 'MC': 'the separator of key and value is expected', 'MV': 'a map value is expected',
         'MD': 'the next key or the end of the map is expected', 'S0': 'an element or the end of the sequence is expected',
         'SV': 'an element is expected', 'SD': 'the next element or the end of the sequence is expected',
         'R0': 'a field or the end of the record is expected', 'RV': 'a field value is expected',
         'RD': 'the next field or the end of the record is expected', 'T0': 'a tuple value or the end of the tuple is expected',
         'TV': 'a tuple value is expected', 'TD': 'the next tuple value or the end of the tuple is expected',
         'TX': 'the end of the tagged value is expected', 'NR': 'the start of the record is expected',
         'NT': 'the start of the tuple is expected', 'Q': 'text or its closing quote is expected', 'N': 'number text is expected'}
OPEN = {'map': 'M', 'seq': 'S', 'record': 'R', 'tuple': 'T'}


def complete(stk):
    return stk[:-1] + (AFTER[stk[-1]],)


def settle(stk):
    return complete(stk[:-1]) if stk[-1] == 'N' else stk


def truth(v):
    v = noref(v)
    return bool(v[1]) if v[0] == 'i' and v[1] in (0, 1) else None


def feed(stk, m, args):
    """one token on the token writer"""
    top = stk[-1]
    if m == 'write_text':
        if top == 'Q':
            return stk
        raise Bad('text is written outside its quotes, where %s' % NAMES[settle(stk)[-1]])
    if m == 'write_text_quote' and top == 'Q':
        return complete(stk[:-1])
    if m == 'write_number' and args and mentions(noref(args[0]), TEXT):
        if top == 'N':
            return stk
        if top in AFTER:
            return stk + ('N',)
    stk = settle(stk)
    top = stk[-1]
    if top in AFTER:
        if m in ('write_null', 'write_bool', 'write_type', 'write_atom', 'write_number') or m[6:] in INTS + ['f32', 'f64']:
            return complete(stk)
        if m == 'write_text_quote':
            return stk + ('Q',)
        if m == 'write_record_type':
            return stk + ('NR',)
        if m == 'write_tuple_type':
            return stk + ('NT',)
        for k, c in OPEN.items():
            if m == 'write_%s_begin' % k:
                return stk + (c + '0',)
    if m == 'write_record_begin' and top == 'NR':
        return stk[:-1] + ('R0',)
    if m == 'write_tuple_begin' and top == 'NT':
        return stk[:-1] + ('T0',)
    if m == 'write_map_value_begin' and top == 'MC':
        return stk[:-1] + ('MV',)
    for k, c in OPEN.items():
        b = 'write_map_key_begin' if k == 'map' else 'write_%s_value_begin' % k
        if m == b and top in (c + '0', c + 'D'):
            first = truth(args[-1])
            if first is None:
                raise Unknown('%s: whether the element is the first is %s' % (m, show(args[-1])[:40]))
            if first != (top == c + '0'):
                raise Bad('%s element of the %s is announced as %s' % (
                    ('the first', k, 'a later one') if top == c + '0' else ('a later', k, 'the first')))
            return stk[:-1] + ('MK' if k == 'map' else c + 'V',)
        if m == 'write_%s_end' % k and len(stk) > 1 and (top in (c + '0', c + 'D') or top == 'TX' and k == 'tuple'):
            empty = truth(args[-1])
            if empty is None:
                raise Unknown('%s: whether the %s is empty is %s' % (m, k, show(args[-1])[:40]))
            if empty != (top == c + '0'):
                raise Bad('the end of %s %s says it is %s' % (('an empty', k, 'not') if top == c + '0' else ('a non-empty', k, 'empty')))
            return complete(stk[:-1])
    raise Bad('`%s` is called where %s' % (m, NAMES.get(top, top)))


class FmtChecker:
    def __init__(self, ctx, cfg, crate):
        self.crate = crate
        R = Reps(ctx, cfg)
        ms = impl_methods(crate, lambda s: s.split('::')[-1].startswith('Writer') and 'stream' not in s, 'Stream')
        self.m = Machine(crate, ms)
        self.sum = {}
        self.bad = {}
        self.unk = {}
        self.obl = 0
        ref = lambda x: ('&', x)
        self.L = SOME(ref(R.label(LTEXT)))
        self.LI = SOME(ref(R.label(LTEXT, R.tag('VALUE_IDENT'))))
        self.I = SOME(ref(R.index(1)))
        self.NUMBER = SOME(ref(R.tag('NUMBER')))
        self.tags = [NONE, SOME(ref(R.other_tag())), SOME(ref(R.tag('RUST_OPTION_SOME'))), SOME(ref(R.tag('RUST_OPTION_NONE'))),
                     SOME(ref(R.tag('CONSTANT_SIZE'))), SOME(ref(R.tag('RUST_UNIT')))]
        self.idents = [(l, i) for l in (NONE, self.L, self.LI) for i in (NONE, self.I)]
        self.label = ref(R.label(LTEXT))
        self.ix = ref(R.index(1))

    def initial(self):
        for f in self.crate.roots:
            if f.get('name') == 'new' and (f.get('impl_self') or '').split('::')[-1].startswith('Writer'):
                g = run(self.crate, f)
                rets = [t for t in g.term.values() if t['kind'] == 'ret']
                if len(rets) == 1:
                    return canon(rets[0]['snap'])
        raise Unknown('no constructor')

    def tok(self, confs, name, args=(), own=None, named=None):
        """own: the argument that must be what is written; named: the label whose text must be written"""
        out = set()
        for s, q in confs:
            for post, evs, kind, t in self.m.call(name, s, tuple(args), unroll=2):
                if kind == 'err':
                    continue
                if kind == 'panic':
                    raise Bad('`%s` may panic: %s' % (name, t['why']))
                if kind == 'fail':
                    raise Bad('`%s` refuses a valid value' % name)
                q2 = q
                for ev in evs:
                    e = ev.e
                    if e.trait.split('::')[-1] != 'TokenWrite':
                        raise Unknown('`%s` calls %s' % (name, e.method))
                    try:
                        q2 = feed(q2, e.method, e.args)
                    except Bad as b:
                        raise Bad('`%s`: %s' % (name, b))
                    self.content(name, e, own)
                out.add((post, q2))
                self.obl += 1
        if len(out) > 300 or any(len(q) > 12 for _, q in out):
            raise Bad('`%s`: the nesting of the output grows without bound' % name)
        return out

    def content(self, name, e, own):
        a = [noref(x) for x in e.args]
        m = e.method
        if m in ('write_type', 'write_record_type', 'write_tuple_type', 'write_record_value_begin', 'write_field', 'write_ident'):
            if a[0] != LTEXT:
                if mentions(a[0], LTEXT):
                    raise Unknown('`%s` writes the name %s' % (name, show(a[0])[:60]))
                raise Bad('`%s` writes the name %s instead of the label' % (name, show(a[0])[:60]))
        elif m in ('write_text', 'write_number') and own == TEXT:
            if a[0] != TEXT:
                if mentions(a[0], TEXT):
                    raise Unknown('`%s` writes the text %s' % (name, show(a[0])[:60]))
                raise Bad('`%s` writes the text %s instead of the fragment' % (name, show(a[0])[:60]))
        elif m == 'write_bool' or m == 'write_number' or m[6:] in INTS + ['f32', 'f64']:
            if own is not None:
                if own == BYTES:
                    if not mentions(a[0], BYTES):
                        raise Bad('`%s` writes %s instead of a byte of the fragment' % (name, show(a[0])[:60]))
                elif a[0] != own:
                    w = widened(a[0], own)
                    if w is None:
                        raise Unknown('`%s` writes %s' % (name, show(a[0])[:60]))
                    if not w:
                        raise Bad('`%s` writes %s instead of its argument' % (name, show(a[0])[:60]))
                if m[6:] in INTS + ['f32', 'f64', 'bool'] and name in INTS + ['f32', 'f64', 'bool'] and a[0] == own and m[6:] != name:
                    raise Bad('`%s` is written as %s' % (name, m[6:]))

    def val(self, confs):
        out = set()
        for s, q in confs:
            q = settle(q)
            if q[-1] not in AFTER:
                raise Bad('a nested value starts where %s' % NAMES[q[-1]])
            if s not in self.sum:
                self.sum[s] = set()
                self.changed = True
            for s2 in self.sum[s]:
                out.add((s2, complete(q)))
        return out

    def loop(self, confs, body):
        acc = set(confs)
        frontier = set(confs)
        while frontier:
            new = body(frontier) - acc
            acc |= new
            frontier = new
            if len(acc) > 300:
                raise Bad('the output of a container grows without bound')
        return acc

    def productions(self):
        t, val = self.tok, self.val
        for m in ['null', 'bool'] + INTS + ['f32', 'f64']:
            yield m, lambda c, m=m: self.wrote(t(c, m, () if m == 'null' else (NUM,), None if m == 'null' else NUM))
        for fr in ('text_fragment', 'text_fragment_computed'):
            for n in (0, 1, 2):
                def text(c, n=n, fr=fr):
                    c = t(c, 'text_begin', (NONE,))
                    if any(q[-1] != 'Q' for s, q in c):
                        raise Bad('text is written without quotes')
                    for _ in range(n):
                        c = t(c, fr, (TEXT,), TEXT)
                    return t(c, 'text_end')
                yield 'text', text
        for n in (0, 1, 2):
            def binary(c, n=n):
                c = t(c, 'binary_begin', (NONE,))
                for _ in range(n):
                    c = t(c, 'binary_fragment_computed', (BYTES,), BYTES)
                return t(c, 'binary_end')
            yield 'binary', binary
        for n in (1, 2):
            def special(c, n=n):
                c = t(c, 'tagged_begin', (self.NUMBER, NONE, NONE))
                c = t(c, 'text_begin', (NONE,))
                for _ in range(n):
                    c = t(c, 'text_fragment_computed', (TEXT,), TEXT)
                c = t(c, 'text_end')
                bad = [q for s, q in c if q[-1] != 'N']
                if bad:
                    raise Bad('number text is not written as a number')
                return t(c, 'tagged_end', (self.NUMBER, NONE, NONE))
            yield 'number text', special

        def mapp(c):
            c = t(c, 'map_begin', (NONE,))

            def body(c):
                c = val(t(c, 'map_key_begin'))
                c = t(c, 'map_key_end')
                return t(val(t(c, 'map_value_begin')), 'map_value_end')
            return t(self.loop(c, body), 'map_end')
        yield 'map', mapp

        def seq(c):
            c = t(c, 'seq_begin', (NONE,))
            return t(self.loop(c, lambda c: t(val(t(c, 'seq_value_begin')), 'seq_value_end')), 'seq_end')
        yield 'seq', seq
        # the hint says number, but the value is a container: its text is text
        for body in (mapp, seq):
            yield 'container tagged as a number', lambda c, body=body: t(body(t(c, 'tagged_begin', (self.NUMBER, NONE, NONE))), 'tagged_end',
                                                                          (self.NUMBER, NONE, NONE))
        yield from self.variants()

    def wrote(self, c):
        return c

    def variants(self):
        t, val = self.tok, self.val
        for tg in self.tags:
            for l, i in self.idents:
                yield 'tag', lambda c, tg=tg, l=l, i=i: t(c, 'tag', (tg, l, i))
                yield 'tagged', lambda c, tg=tg, l=l, i=i: t(val(t(c, 'tagged_begin', (tg, l, i))), 'tagged_end', (tg, l, i))
        for l, i in self.idents:
            def record(c, l=l, i=i):
                c = t(c, 'record_begin', (NONE, l, i, NONE))
                body = lambda c: t(val(t(c, 'record_value_begin', (NONE, self.label))), 'record_value_end', (NONE, self.label))
                return t(self.loop(c, body), 'record_end', (NONE, l, i))
            yield 'record', record
            if (l, i) == (NONE, NONE):
                yield 'record tagged as a number', lambda c, r=record: t(r(t(c, 'tagged_begin', (self.NUMBER, NONE, NONE))), 'tagged_end',
                                                                         (self.NUMBER, NONE, NONE))

            def tuple_(c, l=l, i=i):
                c = t(c, 'tuple_begin', (NONE, l, i, NONE))
                body = lambda c: t(val(t(c, 'tuple_value_begin', (NONE, self.ix))), 'tuple_value_end', (NONE, self.ix))
                return t(self.loop(c, body), 'tuple_end', (NONE, l, i))
            yield 'tuple', tuple_
            if (l, i) == (NONE, NONE):
                yield 'tuple tagged as a number', lambda c, r=tuple_: t(r(t(c, 'tagged_begin', (self.NUMBER, NONE, NONE))), 'tagged_end',
                                                                        (self.NUMBER, NONE, NONE))

            def rtuple(c, l=l, i=i):
                c = t(c, 'record_tuple_begin', (NONE, l, i, NONE))
                body = lambda c: t(val(t(c, 'record_tuple_value_begin', (NONE, self.label, self.ix))), 'record_tuple_value_end',
                                   (NONE, self.label, self.ix))
                return t(self.loop(c, body), 'record_tuple_end', (NONE, l, i))
            yield 'record tuple', rtuple

            def enum(c, l=l, i=i):
                c = t(c, 'enum_begin', (NONE, l, i))
                out = set()
                for s, q in c:
                    k = (s, 'variant')
                    if k not in self.sum:
                        self.sum[k] = set()
                        self.changed = True
                    out |= {(s2, complete(q)) for s2 in self.sum[k]}
                return t(out, 'enum_end', (NONE, l, i))
            yield 'enum', enum

    def solve(self, s0):
        self.sum = {s0: set()}
        self.changed = True
        rounds = 0
        while self.changed:
            self.changed = False
            rounds += 1
            if rounds > 60 or len(self.sum) > 600:
                raise Unknown('no fixpoint')
            for k in list(self.sum):
                variant = k[1] == 'variant' and len(k) == 2
                s = k[0] if variant else k
                for name, prod in (self.variants() if variant else self.productions()):
                    try:
                        for s2, q2 in prod({(s, ('V',))}):
                            q2 = settle(q2)
                            if q2 != ('D',):
                                raise Bad('after a complete %s the output still misses: %s' % (name, NAMES.get(q2[-1], q2[-1])))
                            if s2 not in self.sum[k]:
                                self.sum[k].add(s2)
                                self.changed = True
                    except Bad as b:
                        self.bad.setdefault((('enum of ' if variant else '') + name, str(b)), s)
                    except Unknown as u:
                        self.unk.setdefault(name, str(u))
        return rounds


def widened(a, own):
    """is a lossless integer widening of own? None: cannot tell"""
    if a[0] == 'cast' and a[1] == own and a[2] in BITS and a[3] in BITS:
        f, t = a[3], a[2]
        if f[0] == t[0] or f[0] == 'u':
            return BITS[t] > BITS[f] or f == t
        return False
    if mentions(a, own):
        return None
    return False


# ---------------------------------------------------------------- what a token looks like
def lex(s):
    out = []
    i = 0
    while i < len(s):
        if s[i].isspace():
            i += 1
        else:
            out.append(s[i])
            i += 1
    return out


def default_token(method):
    """(arguments, expected symbols); 'X' stands for the argument"""
    I = lambda b: ('i', b)
    for k, (o, c) in {'map': '{}', 'record': '{}', 'seq': '[]', 'tuple': '()'}.items():
        if method == 'write_%s_begin' % k:
            return [((), [o])]
        if method == 'write_%s_end' % k:
            return [((I(0),), [c]), ((I(1),), [c])]
        b = 'write_map_key_begin' if k == 'map' else 'write_%s_value_begin' % k
        if method == b:
            if k == 'record':
                return [((TEXT, I(1)), ['X', ':']), ((TEXT, I(0)), [',', 'X', ':'])]
            return [((I(1),), []), ((I(0),), [','])]
    if method == 'write_map_value_begin':
        return [((I(0),), [':']), ((I(1),), [':'])]
    if method in ('write_record_type', 'write_tuple_type', 'write_type', 'write_field', 'write_ident', 'write_punct', 'write_atom',
                  'write_number') or method[6:] in INTS + ['f32', 'f64', 'bool']:
        return [((TEXT,), ['X'])]
    if method == 'write_null':
        return [((), ['(', ')'])]
    if method == 'write_text_quote':
        return [((), ['"'])]
    return None


KIND = {'write_text_quote': 'TEXT', 'write_null': 'ATOM', 'write_bool': 'ATOM', 'write_atom': 'ATOM', 'write_number': 'NUMBER',
        'write_type': 'IDENT', 'write_field': 'IDENT', 'write_ident': 'IDENT', 'write_ws': 'WS', 'write_punct': 'PUNCT'}


def tag_name(v):
    v = noref(v)
    if v[0] == 'adt' and v[1].endswith('Tag'):
        for x in v[3]:
            if isinstance(x, tuple) and x and x[0] in ('str', 'lit') and isinstance(x[1], str):
                return x[1]
    return None


def check_tokens(crate, rep):
    ms = [f for f in crate.roots if (f.get('trait_default') or '').split('::')[-1] == 'TokenWrite' and not f.get('inh_self') and not f.get('impl_self')]
    by = {f['name']: f for f in ms}
    for m, f in sorted(by.items()):
        spec = default_token(m)
        if spec is None:
            continue
        where = fn_where(f)
        try:
            for args, want in spec:
                it = Interp(crate)
                full = [it.default_args(f)[0]] + list(args)
                for evs in expand(crate, by, f, full, 0):
                    syms = []
                    for tag, tok in evs:
                        s = noref(tok)
                        if s[0] in ('str', 'lit') and isinstance(s[1], str):
                            k = lex(s[1])
                            tn = tag_name(tag)
                            if tn is None:
                                raise Unknown('tag %s' % show(tag)[:60])
                            exp = 'FMT_WS' if not k else 'FMT_TEXT' if k == ['"'] else 'FMT_ATOM' if m == 'write_null' else 'FMT_PUNCT'
                            if tn != exp:
                                raise Bad('%r is written as %s, not %s' % (s[1], tn, exp))
                            syms += k
                        elif s == TEXT:
                            tn = tag_name(tag)
                            exp = 'NUMBER' if m == 'write_number' or m[6:] in INTS + ['f32', 'f64'] else 'FMT_ATOM' if m in ('write_bool', 'write_atom') \
                                else 'FMT_PUNCT' if m == 'write_punct' else 'FMT_IDENT'
                            if tn is None:
                                raise Unknown('tag %s' % show(tag)[:60])
                            if not tn.endswith(exp):
                                raise Bad('its argument is written as %s, not %s' % (tn, exp))
                            syms.append('X')
                        else:
                            raise Unknown('writes %s' % show(s)[:60])
                    if syms != want:
                        raise Bad('%s writes %s instead of %s' % (
                            '(%s)' % ', '.join(show(a) for a in args), ' '.join(syms) or 'nothing', ' '.join(want) or 'nothing'))
            rep.ok('token', where)
        except Bad as e:
            rep.viol('token:%s' % m, 'token', where, '`%s`: %s' % (m, e))
        except Unknown as e:
            rep.inconclusive('token', where, str(e))


def expand(crate, by, f, args, depth):
    """token sequences [(tag, token)] written by a default method, following calls to other default methods"""
    if depth > 6:
        raise Unknown('recursion')
    g = run(crate, f, args)
    if g.incomplete:
        raise Unknown(g.incomplete)
    rows = []
    for evs, t in success_paths(g):
        alts = [[]]
        for e in evs:
            if e.trait.split('::')[-1] != 'TokenWrite':
                raise Unknown('calls %s' % e.method)
            if e.method == 'write_token':
                new = [[(e.args[0], e.args[1])]]
            else:
                cf = by.get(e.method)
                if cf is None:
                    raise Unknown('calls %s' % e.method)
                new = expand(crate, by, cf, [Interp(crate).default_args(cf)[0]] + list(e.args), depth + 1)
            alts = [a + b for a in alts for b in new]
        rows += alts
    return rows


def success_paths(g):
    out = []
    stack = [(g.start, (), {})]
    while stack:
        n, evs, used = stack.pop()
        if n in g.term:
            t = g.term[n]
            if t['kind'] == 'panic':
                raise Bad('may panic: %s' % t['why'])
            if t['kind'] == 'ret' and res_kind(t) != 'err':
                out.append((evs, t))
            elif t['kind'] == 'ret':
                raise Bad('fails by itself')
            continue
        for i, (e, m) in enumerate(g.edges[n]):
            if is_res(e, 'err'):
                continue
            u = dict(used)
            u[(n, i)] = u.get((n, i), 0) + 1
            if u[(n, i)] > 2:
                continue
            stack.append((m, evs + (e,) if is_ev(e) else evs, u))
        if len(out) > 200:
            raise Unknown('too many paths')
    return out


# ---------------------------------------------------------------- numbers of the concrete writers
def check_numbers(crate, rep):
    for f in crate.roots:
        own = (f.get('impl_self') or '')
        if (f.get('impl_trait') or '').split('::')[-1] != 'TokenWrite' or own.startswith('&'):
            continue
        m = f['name']
        if m[6:] not in INTS + ['f32', 'f64']:
            continue
        where = fn_where(f)
        arg = Interp(crate).default_args(f)[1]
        try:
            g = run(crate, f)
            if g.incomplete:
                raise Unknown(g.incomplete)
            ps = success_paths(g)
            if not ps:
                raise Bad('never succeeds')
            for evs, t in ps:
                outs = list(evs)
                r = noref(t['ret'])
                if not outs and r[0] == 'app' and r[1].split('::')[-1] == 'fmt':
                    if noref(r[2][0]) != noref(arg):
                        raise Bad('formats %s instead of its argument' % show(r[2][0])[:60])
                    if any(x in r[1] for x in ('LowerHex', 'UpperHex', 'Octal', 'Binary', 'LowerExp', 'UpperExp', 'Pointer')):
                        raise Bad('does not write plain decimal numbers')
                    continue
                if not outs and r[0] not in ('adt',):
                    raise Unknown('returns %s' % show(r)[:60])
                if len(outs) != 1:
                    raise Bad('writes %d times' % len(outs))
                e = outs[0]
                terms = [noref(x) for x in (e.recv,) + tuple(e.args)]
                shown = [x for x in terms if x == noref(arg) or x[0] == 'app' and x[1].split('::')[-1] in ('format', 'format_finite') and
                         noref(x[2][-1]) == noref(arg)]
                if not shown:
                    if any(mentions(x, noref(arg)) for x in terms):
                        raise Unknown('writes %s' % [show(x)[:60] for x in terms])
                    raise Bad('writes %s instead of its argument' % [show(x)[:60] for x in terms])
                for x in shown:
                    if x[0] == 'app' and m[6:] in ('f32', 'f64') and x[1].split('::')[-1] == 'format_finite':
                        raise Bad('infinities and NaN are not written faithfully')
            rep.ok('number', where)
        except Bad as e:
            rep.viol('number:%s' % fkey(crate, f), 'number', where, '`%s` %s' % (m, e))
        except Unknown as e:
            rep.inconclusive('number', where, str(e))


# ---------------------------------------------------------------- escaping, by induction over the text
# characters `char::escape_debug` escapes, with the length of the escape: every ASCII one and some of the others
ESCAPED = {c: 6 if c > 15 else 5 for c in range(32)}
ESCAPED.update({0: 2, 9: 2, 10: 2, 13: 2, 0x22: 2, 0x27: 2, 0x5c: 2, 0x7f: 6, 0x80: 6, 0x85: 6, 0x300: 7, 0xfe0f: 8, 0x200b: 8, 0xe000: 8, 0xfffe: 8, 0xe0001: 9})
PRED = {'is_control': lambda c: c < 32 or 127 <= c < 160, 'is_ascii': lambda c: c < 128,
        'is_ascii_control': lambda c: c < 32 or c == 127, 'is_ascii_alphanumeric': lambda c: c < 128 and chr(c).isalnum(),
        'is_ascii_alphabetic': lambda c: c < 128 and chr(c).isalpha(), 'is_ascii_digit': lambda c: 48 <= c < 58,
        'is_ascii_graphic': lambda c: 33 <= c <= 126, 'is_ascii_punctuation': lambda c: 33 <= c <= 126 and not chr(c).isalnum(),
        'is_ascii_whitespace': lambda c: c in (9, 10, 12, 13, 32), 'is_whitespace': lambda c: chr(c).isspace() and c not in (0x1c, 0x1d, 0x1e, 0x1f)}
CMP = {'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b,
       'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b}


def esc_eval(t, c, code):
    """value of a condition on the character c, when c is the code point `code`; None: unknown"""
    if t == c:
        return code
    if t[0] == 'i':
        return t[1]
    if t[0] == 'cast':
        return esc_eval(t[1] if isinstance(t[1], tuple) else t[-1], c, code)
    if t[0] == 'len' and t[1][0] == 'app' and t[1][1].split('::')[-1] == 'escape_debug' and t[1][2] == (c,):
        return ESCAPED.get(code, 1)
    if t[0] == 'app' and t[1].split('::')[-1] == 'len' and len(t[2]) == 1:
        return esc_eval(('len', t[2][0]), c, code)
    if t[0] == 'app' and len(t[2]) == 1 and t[2][0] == c:
        f = PRED.get(t[1].split('::')[-1])
        return int(f(code)) if f else None
    if t[0] == 'not':
        v = esc_eval(t[1], c, code)
        return None if v is None else 1 - v
    if t[0] == 'bin' and t[1] in CMP:
        a, b = esc_eval(t[2], c, code), esc_eval(t[3], c, code)
        return None if a is None or b is None else int(CMP[t[1]](a, b))
    return None


def untouched(facts, c):
    """the path writes the character as it is: is that right for every character the conditions let through?"""
    left = False
    by_len = False
    for code in sorted(ESCAPED):
        poss = True
        for k, v in facts.items():
            if k[0] == 'excl':
                t = noref(k[1])
                x = esc_eval(t, c, code)
                ok = None if x is None or not mentions(t, c) else x not in v
            else:
                t = noref(k)
                if not mentions(t, c):
                    continue
                x = esc_eval(t, c, code)
                ok = None if x is None else x == v
            if ok is False:
                poss = False
                break
            if ok is None:
                poss = None
        if poss:
            raise Bad('the character U+%04X is written without being escaped' % code)
        left |= poss is None
    for k, v in facts.items():
        t = noref(k)
        if k[0] != 'excl' and mentions_any(t, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == 'app' and str(x[1]).split('::')[-1] == 'escape_debug'):
            by_len = True
    if left or not by_len and any(esc_eval(noref(k), c, 0x4e00) not in (None,) and (esc_eval(noref(k), c, 0x4e00) == v) for k, v in facts.items() if k[0] != 'excl'):
        raise Unknown('which characters are escaped')


def empty_slice(facts, sl):
    from rules_io import len_zero
    if len_zero(facts, sl) is True:
        return True
    a, b = sl[2], sl[3] if sl[3] is not None else ('len', sl[1])
    for k, v in facts.items():
        k = noref(k)
        if k[0] == 'bin' and k[1:] in (('Lt', a, b), ('Gt', b, a), ('Ne', a, b), ('Ne', b, a)) and v == 0:
            return True
        if k[0] == 'bin' and k[1:] in (('Ge', a, b), ('Le', b, a), ('Eq', a, b), ('Eq', b, a)) and v == 1:
            return True
    return False


def check_escape(crate, f):
    from interp import Note
    it = Interp(crate)
    it.note_loops = True
    args = it.default_args(f)
    text = noref(args[1])
    g = it.run(f, args)
    if g.incomplete:
        raise Unknown(g.incomplete)
    last = lambda t: t[1].split('::')[-1] if t[0] == 'app' else ''

    def source(x):
        """is x the text to write, or a fragment of it being displayed?"""
        x = noref(x)
        if x == text:
            return True
        if x[0] == 'frag' and last(x[1]) == 'new' and len(x[1][2]) == 2:
            tmpl, av = x[1][2]
            if tmpl == ('arr', (('i', 192), ('i', 0))) and av[0] == 'arr' and len(av[1]) == 1 and last(av[1][0]) == 'new_display':
                if av[1][0][2] == (text,):
                    return True
            if mentions(x, text):
                raise Bad('the text is formatted as %s' % show(x)[:80])
        return False

    def over(x):
        """what an iterator walks over: ('chars', text) / ('esc', char)"""
        x = noref(x)
        while last(x) in ('into_iter', 'by_ref'):
            x = x[2][0]
        if last(x) == 'char_indices' and source(x[2][0]):
            return ('chars', x[2][0])
        if last(x) == 'escape_debug':
            return ('esc', x[2][0])
        if last(x) in ('take', 'skip', 'step_by', 'filter', 'take_while', 'skip_while') and last(x[2][0]) == 'escape_debug':
            raise Bad('only a part of an escape is written: %s' % show(x)[:60])
        raise Unknown('iterates over %s' % show(x)[:60])

    n_obl = 0
    seen = set()
    work = [(g.start, ('start',), False)]
    is_slice_of = lambda t: t[0] == 'slice' and source(t[1])
    while work:
        n, mode, failed = work.pop()
        key = (n, mode, failed)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 20000:
            raise Unknown('too many states')
        m = mode[0]
        if n in g.term:
            t = g.term[n]
            if t['kind'] == 'unreachable':
                continue
            if t['kind'] == 'panic':
                continue        # bounds of slices: not decided here
            k = res_kind(t)
            if k == 'err':
                continue
            if m in ('tail',):
                if not any(empty_slice(t.get('facts', {}), ('slice', mode[2], p, NONE_)) for p in mode[1] for NONE_ in (None,)) \
                        and not tail_empty(t.get('facts', {}), mode):
                    raise Bad('the text after the last escaped character is not written')
            elif m not in ('done', 'taildone', 'start0'):
                raise Bad('it succeeds although the text is not completely written')
            n_obl += 1
            continue
        for e, d in g.edges[n]:
            if isinstance(e, Note):
                vals = {k: noref(v) for k, v in e.vals.items()}
                facts = e.facts or {}
                if m in ('start', 'begin'):
                    ps = pset(vals, {('i', 0)})
                    work.append((d, ('outer', ps, mode[1] if m == 'begin' else text, e.head), failed))
                elif m in ('char', 'flushed', 'escdone', 'esc', 'escone') and e.head == mode[3]:
                    if m == 'char':
                        untouched(facts, mode[4])
                        ps = pset(vals, mode[1], keep=True)
                        if not ps:
                            raise Bad('a character that needs no escaping is skipped or written twice')
                    elif m == 'escdone':
                        c = mode[4]
                        i = c[:2] + (0,)
                        ps = pset(vals, {t for x in LENF(vals, c) for l in [('app', x, (c,))]
                                         for t in (('bin', 'Add', i, l), ('bin', 'Add', l, i))}, keep=True)
                        if not ps:
                            cand = [v for k, v in vals.items() if v == i or v in mode[1] or v[0] == 'lin' and v[1] == i or
                                    v[0] == 'bin' and v[1] == 'Add' and (v[2] == i and v[3][0] in ('i', 'len') or
                                                                             v[3] == i and v[2][0] in ('i', 'len'))]
                            if cand:
                                raise Bad('after an escaped character the text goes on at %s' % show(cand[0])[:60])
                            raise Unknown('where the text goes on after an escaped character')
                    elif m == 'flushed':
                        raise Bad('an escaped character is not written')
                    else:
                        raise Unknown('the loop over the escape ends early')
                    n_obl += 1
                    work.append((d, ('outer', ps, mode[2], mode[3]), failed))
                elif m in ('char', 'flushed') and e.head != mode[3]:
                    if m == 'char':
                        i = mode[4][:2] + (0,)
                        if not any(empty_slice(facts, ('slice', mode[2], p, i)) for p in mode[1]):
                            raise Bad('the text before an escaped character is not written')
                    work.append((d, ('esc',) + mode[1:], failed))
                elif m == 'escone':
                    work.append((d, ('esc',) + mode[1:], failed))
                elif m == 'escitem':
                    raise Bad('a character of the escape is not written')
                else:
                    raise Unknown('an unexpected loop (%s)' % m)
            elif isinstance(e, tuple) and e and e[0] == 'iter':
                kind, what = over(e[2])
                if kind == 'chars':
                    if m == 'outer':
                        if noref(what) != noref(mode[2]):
                            raise Unknown('another text')
                        if e[1] == 'none':
                            work.append((d, ('tail',) + mode[1:], failed))
                        else:
                            c = ('fld', ('next', noref(e[2]), 'next'), 1)
                            work.append((d, ('char',) + mode[1:] + (c,), failed))
                    else:
                        raise Unknown('iterates in mode %s' % m)
                else:
                    if m not in ('esc', 'escone'):
                        raise Unknown('iterates over the escape (%s)' % m)
                    if what != mode[4]:
                        raise Bad('the escape of another character is written: %s' % show(what)[:60])
                    if e[1] == 'none':
                        work.append((d, ('escdone',) + mode[1:], failed))
                    else:
                        work.append((d, ('escitem',) + mode[1:5] + (('next', noref(e[2]), 'next'),), failed))
            elif isinstance(e, tuple) and e and e[0] == 'fmt':
                if not source(e[2]):
                    raise Unknown('formats %s' % show(e[2])[:60])
                if m not in ('start', 'taildone', 'tail'):
                    raise Bad('a fragment of the text is not completely written')
                if e[1] == 'fail':
                    continue
                work.append((d, ('done',) if e[1] == 'done' else ('begin', noref(e[2])), failed))
            elif is_ev(e):
                tag, val = None, noref(e.args[-1])
                if e.method == 'write_token':
                    tag = tag_name(e.args[0])
                    if tag is None:
                        raise Unknown('tag %s' % show(e.args[0])[:40])
                    if not tag.endswith('TEXT'):
                        raise Bad('text is written as %s' % tag)
                elif e.method not in ('call_mut', 'call', 'call_once', 'write_str', 'write_char'):
                    raise Unknown('calls %s' % e.method)
                if val[0] == 'tup' and len(val[1]) == 1:
                    val = val[1][0]
                if val[0] == 'slice':
                    if m in ('char', 'tail') and noref(val[1]) == noref(mode[2]):
                        end = val[3] if len(val) > 3 else None
                        if val[2] not in mode[1] and not (val[2] in (None,) and ('i', 0) in mode[1]):
                            raise Bad('the text written starts at %s, which is not where the unwritten text starts' % show(val[2])[:60])
                        if m == 'char':
                            i = mode[4][:2] + (0,)
                            if end != i:
                                raise Bad('the text before an escaped character is written up to %s' % show(end)[:60])
                            work.append((d, ('flushed',) + mode[1:], failed))
                        else:
                            if end is not None and end != ('len', mode[2]):
                                raise Bad('the rest of the text is written only up to %s' % show(end)[:60])
                            work.append((d, ('taildone',), failed))
                        n_obl += 1
                    elif m in ('flushed', 'taildone'):
                        raise Bad('text is written twice')
                    else:
                        raise Unknown('writes %s (%s)' % (show(val)[:60], m))
                elif m == 'escitem' and (last(val) == 'encode_utf8' and val[2][0] == mode[5] or val == mode[5]):
                    work.append((d, ('escone',) + mode[1:5], failed))
                    n_obl += 1
                elif m == 'escone' and last(val) == 'encode_utf8':
                    raise Bad('a character of the escape is written twice')
                elif m == 'escitem':
                    if last(val) == 'encode_utf8':
                        raise Bad('the escape of a character writes %s' % show(val)[:60])
                    raise Unknown('writes %s' % show(val)[:60])
                elif m in ('start', 'begin') and (val == text or val[0] == 'frag') and source(val):
                    scans = called(crate, f) & SCANS
                    if scans:
                        raise Unknown('a shortcut after %s' % ', '.join(sorted(scans)))
                    raise Bad('text may be written without looking for characters that need escaping')
                else:
                    raise Unknown('writes %s (%s)' % (show(val)[:60], m))
            elif is_res(e, 'err'):
                # the failure ends it: checked with failures (P03)
                continue
            else:
                work.append((d, mode, failed))
    return n_obl


SCANS = {'any', 'all', 'position', 'rposition', 'find', 'find_map', 'contains', 'bytes', 'as_bytes', 'chars', 'matches', 'rfind', 'try_for_each', 'fold',
         'try_fold', 'for_each', 'filter', 'map', 'split', 'match_indices', 'count', 'iter', 'escape_debug_ext', 'trim_matches', 'eq', 'is_some_and'}


def called(crate, f):
    """names of everything f may call"""
    out, seen, st = set(), {f['id']}, [f]
    while st:
        for b in st.pop().get('blocks') or []:
            t = b and b['t']
            if t and t[0] == 'call' and isinstance(t[1], dict):
                out.add(t[1].get('method') or (t[1].get('path') or '').split('::')[-1])
                g = crate.fns.get(t[1].get('inst'))
                if g is not None and g['id'] not in seen:
                    seen.add(g['id'])
                    st.append(g)
    return out


def LENF(vals, c):
    """the names under which the length of the character appears"""
    out = set()
    acc = set()
    from interp import subterms
    for v in vals.values():
        subterms(v, acc)
    for t in acc:
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'app' and str(t[1]).split('::')[-1] == 'len_utf8' and t[2] == (c,):
            out.add(t[1])
    return out


def tail_empty(facts, mode):
    from rules_io import len_zero
    for k, v in facts.items():
        kk = noref(k)
        acc = set()
        from interp import subterms
        subterms(kk, acc)
        for t in acc:
            if isinstance(t, tuple) and t and t[0] == 'slice' and t[1] == mode[2] and t[2] in mode[1] and (len(t) < 4 or t[3] is None):
                if len_zero({k: v}, t):
                    return True
    return False


def pset(vals, terms, keep=False):
    out = set()
    for k, v in vals.items():
        if v in terms:
            out |= {v, ('phi', k)}
    if not keep and not out:
        out = set(terms)
    return frozenset(out)


# ---------------------------------------------------------------- entry points and adapters
def args_of(x):
    """fmt::Arguments -> ('plain', trait, value) when it displays one value and nothing else, else None"""
    x = noref(x)
    if x[0] == 'app' and x[1].split('::')[-1] == 'new' and len(x[2]) == 2:
        tmpl, av = x[2]
        if tmpl == ('arr', (('i', 192), ('i', 0))) and av[0] == 'arr' and len(av[1]) == 1 and av[1][0][0] == 'app':
            return (av[1][0][1].split('::')[-1], av[1][0][2][0])
    return None


def check_entries(crate, rep, init):
    for f in crate.roots:
        own = (f.get('impl_self') or '')
        entry = not own and not f.get('inh_self') and not f.get('trait_default') and f['name'].startswith('stream_to_')
        tofmt = own.split('::')[-1].startswith('ToFmt<') and f['name'] == 'fmt'
        if not entry and not tofmt:
            continue
        where = fn_where(f)
        try:
            it = Interp(crate)
            args = it.default_args(f)
            g = it.run(f, args)
            if g.incomplete:
                raise Unknown(g.incomplete)
            val = ('fld', noref(args[0]), 0) if tofmt else noref(args[-1])
            sink = noref(args[1]) if tofmt else noref(args[0]) if len(args) == 2 else None
            rows = 0
            for evs, t in success_paths(g):
                rows += 1
                st = [e for e in evs if e.method in ('stream', 'value', 'value_computed', 'stream_ref')]
                if len(st) != 1 or len(evs) != 1:
                    raise Bad('the value is streamed %d times' % len(st)) if len(st) != 1 else Unknown('also calls %s' % [e.method for e in evs])
                e = st[0]
                if noref(e.recv) != val:
                    raise Bad('streams %s instead of the value' % show(e.recv)[:60])
                w = noref(e.args[-1])
                if w[0] != 'adt' or not w[1].split('::')[-1] == 'Writer':
                    raise Unknown('streams into %s' % show(w)[:60])
                if canon(w) != init and canon(w)[3][:2] != init[3][:2]:
                    raise Bad('the writer starts in the state %s' % show(canon(w))[:80])
                if sink is not None and not mentions(w, sink):
                    raise Bad('the writer does not write to the given output')
                if sink is None:
                    ret = noref(t['ret'])
                    if not any(x == ret or ret[0] == 'post' and mentions(ret, x) for x in w[3]) and not mentions_any(w, lambda x: x == ret):
                        if ret[0] in ('post', 'havoc') or mentions_any(ret, lambda x: isinstance(x, tuple) and x and x[0] in ('post', 'havoc')):
                            pass
                        else:
                            raise Unknown('returns %s' % show(ret)[:60])
            if not rows:
                raise Bad('never succeeds')
            rep.ok('entry', where)
        except Bad as e:
            rep.viol('entry:%s' % fkey(crate, f), 'entry', where, str(e))
        except Unknown as e:
            rep.inconclusive('entry', where, str(e))


def formatted(g, val, want, sinks=('text_fragment', 'text_fragment_computed'), start='start', stop='end', done='streamed'):
    """every fragment that formatting `val` gives is handed on, whole and once, as one text"""
    if not any(isinstance(e, tuple) and e and e[0] == 'fmt' for es in g.edges for e, d in es):
        if called(g.it.c, g.f) & {'write', 'fmt', 'to_string', 'format'}:
            raise Unknown('formats in a way that is not followed')
    seen = set()
    work = [(g.start, start)]
    finished = False
    while work:
        n, m = work.pop()
        if (n, m) in seen:
            continue
        seen.add((n, m))
        if n in g.term:
            t = g.term[n]
            if t['kind'] == 'panic':
                raise Bad('may panic: %s' % t['why'])
            if t['kind'] == 'ret' and res_kind(t) != 'err':
                finished = True
                if m != stop:
                    raise Bad('it succeeds without streaming the complete text')
            continue
        for e, d in g.edges[n]:
            m2 = m
            if is_res(e, 'err'):
                continue
            if isinstance(e, tuple) and e and e[0] == 'fmt':
                a = args_of(noref(e[2])[1]) if noref(e[2])[0] == 'frag' else None
                if a is None:
                    if mentions(noref(e[2]), val):
                        raise Bad('the text is not just the formatted value: %s' % show(e[2])[:80])
                    raise Unknown('formats %s' % show(e[2])[:60])
                if a != (want, val):
                    if a[1] == val:
                        raise Bad('the value is formatted with %s instead of %s' % (a[0][4:], want[4:]))
                    raise Bad('%s is formatted instead of the value' % show(a[1])[:60])
                if m not in ('text', 'frags'):
                    raise Bad('the value is formatted outside the text') if m != 'pending' else Bad('a fragment is not %s' % done)
                if e[1] == 'fail':
                    continue
                m2 = 'formatted' if e[1] == 'done' else 'pending'
            elif is_ev(e):
                if e.method == 'text_begin' and m == 'start':
                    if noref(e.args[0]) != NONE:
                        raise Unknown('a size hint')
                    m2 = 'text'
                elif e.method in sinks and m == 'pending':
                    a = noref(e.args[-1])
                    if a[0] != 'frag':
                        raise Bad(done + ': %s instead of the formatted text' % show(a)[:60])
                    m2 = 'frags'
                elif e.method == 'text_end' and m == 'formatted':
                    m2 = 'end'
                elif e.method.startswith('text_') or e.method in sinks:
                    raise Bad('`%s` is called when %s' % (e.method, {
                        'start': 'nothing has been streamed', 'text': 'the value has not been formatted', 'frags': 'the value has not been formatted',
                        'pending': 'a fragment has to be streamed', 'formatted': 'the text has to be ended', 'end': 'the text has ended'}[m]))
                else:
                    raise Unknown('calls %s' % e.method)
            work.append((d, m2))
    if not finished:
        raise Bad('never succeeds')


def check_adapters(crate, rep, kinds=('DebugToValue', 'DisplayToValue')):
    for f in crate.roots:
        own = (f.get('impl_self') or '').split('::')[-1]
        if f['name'] != 'stream' or (f.get('impl_trait') or '').split('::')[-1] != 'Value' or \
                own.split('<')[0] not in kinds:
            continue
        where = fn_where(f)
        want = 'new_debug' if own.startswith('Debug') else 'new_display'
        try:
            it = Interp(crate)
            args = it.default_args(f)
            g = it.run(f, args)
            if g.incomplete:
                raise Unknown(g.incomplete)
            g.it, g.f = it, f
            formatted(g, ('fld', noref(args[0]), 0), want)
            rep.ok('adapter', where)
        except Bad as e:
            rep.viol('adapter:%s' % fkey(crate, f), 'adapter', where, str(e))
        except Unknown as e:
            rep.inconclusive('adapter', where, str(e))


def p12(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        crate = ctx.crate('sval_fmt', cfg)
        if crate is None:
            continue
        rep.cfg = cfg
        fc = FmtChecker(ctx, cfg, crate)
        try:
            fc.solve(fc.initial())
            for (name, why), s in fc.bad.items():
                rep.viol('structure:%s:%s' % (name, why[:60]), 'structure', 'fmt writer, streaming %s' % name, '%s (writer state %s)' % (why, show(s)[:80]))
            for name, why in fc.unk.items():
                rep.inconclusive('structure', 'fmt writer, streaming %s' % name, why)
            for s in fc.sum:
                rep.ok('structure', 'state %s' % show(s)[:80])
            for _ in range(len(fc.m.cache)):
                rep.ok('transition', 'token method from a reachable state')
        except Unknown as e:
            rep.inconclusive('structure', 'fmt/src/writer.rs', str(e))
        try:
            check_entries(crate, rep, fc.initial())
        except Unknown as e:
            rep.inconclusive('entry', 'fmt/src', str(e))
        check_adapters(crate, rep)
        check_writers(crate, rep, Bad, Unknown, fn_where)
        check_tokens(crate, rep)
        check_numbers(crate, rep)
        for f in crate.roots:
            if f['name'] == 'write_text' and (f.get('trait_default') or '').split('::')[-1] == 'TokenWrite' and not f.get('inh_self') and not f.get('impl_self'):
                try:
                    for _ in range(check_escape(crate, f)):
                        rep.ok('escape', fn_where(f))
                except Bad as e:
                    rep.viol('escape', 'escape', fn_where(f), 'text escaping: %s' % e)
                except Unknown as e:
                    rep.inconclusive('escape', fn_where(f), str(e))
    rep.cfg = 'full'
