"""JSON output: structure (P08), escaping (P09), numbers (P10), writers (P11)."""
from common import fn_where, pmap
from interp import Interp, Incomplete, show
from lib import *
from machine import *
from reps import *
from typestate import Bad, Unknown


# ---------------------------------------------------------------- recogniser of JSON text
VALUE_EXPECTED = {'V', 'OV', 'A0', 'AV'}
AFTER = {'V': 'D', 'OV': 'OD', 'A0': 'AD', 'AV': 'AD'}
INSTR = {'K', 'S'}


def complete(stk):
    return stk[:-1] + (AFTER[stk[-1]],)


def settle(stk):
    """a number / raw document in progress ends where something else begins"""
    if stk[-1] == 'R':
        return complete(stk[:-1])
    return stk


def feed(stk, sym):
    top = stk[-1]
    if top in INSTR:
        if sym == '"':
            stk = stk[:-1]
            if top == 'K':
                return stk[:-1] + ('OC',)
            return complete(stk)
        if sym in ('lit', 'num', 'content', 'raw', 'numpart', 'junk', 'esc'):
            return stk
        raise Bad('`%s` is written inside a string' % sym)
    if top == 'R' and sym in ('raw', 'numpart', 'num', 'content'):
        return stk
    stk = settle(stk)
    top = stk[-1]
    if sym in ('lit', 'num'):
        if top in VALUE_EXPECTED:
            return complete(stk)
    elif sym in ('raw', 'numpart'):
        if top in VALUE_EXPECTED:
            return stk + ('R',)
    elif sym == '"':
        if top in VALUE_EXPECTED:
            return stk + ('S',)
        if top in ('O0', 'OS'):
            return stk + ('K',)
    elif sym == ':':
        if top == 'OC':
            return stk[:-1] + ('OV',)
    elif sym == ',':
        if top == 'OD':
            return stk[:-1] + ('OS',)
        if top == 'AD':
            return stk[:-1] + ('AV',)
    elif sym == '{':
        if top in VALUE_EXPECTED:
            return stk + ('O0',)
    elif sym == '[':
        if top in VALUE_EXPECTED:
            return stk + ('A0',)
    elif sym == '}':
        if top in ('O0', 'OD') and len(stk) > 1:
            return complete(stk[:-1])
    elif sym == ']':
        if top in ('A0', 'AD') and len(stk) > 1:
            return complete(stk[:-1])
    names = {'V': 'a value is expected', 'D': 'the value is already complete', 'O0': 'a key or `}` is expected',
             'OC': '`:` is expected', 'OV': 'a value is expected', 'OD': '`,` or `}` is expected', 'OS': 'a key is expected',
             'A0': 'an element or `]` is expected', 'AD': '`,` or `]` is expected', 'AV': 'an element is expected'}
    raise Bad('%s is written where %s' % ({'lit': 'a literal', 'num': 'a number', 'content': 'text outside quotes',
                                           'raw': 'raw text', 'numpart': 'number text', 'junk': 'something that is not JSON',
                                           'esc': 'an escape'}.get(sym, '`%s`' % sym), names.get(top, top)))


def lex(s, instr):
    """symbols of a constant piece of output"""
    out = []
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in '{}[],:"':
            out.append(ch)
            i += 1
        elif ch == '\\' and i + 1 < len(s):
            out.append('esc')
            i += 2
        elif ch in '0123456789-':
            j = i
            while j < len(s) and s[j] in '0123456789-.eE+':
                j += 1
            out.append('num')
            i = j
        elif ch.isalpha():
            j = i
            while j < len(s) and s[j].isalpha():
                j += 1
            out.append('lit' if s[i:j] in ('null', 'true', 'false') else 'junk')
            i = j
        elif ch in ' \n\t\r':
            i += 1
        else:
            out.append('junk')
            i += 1
    return out


def is_number_format(v):
    v = noref(v)
    return v[0] == 'app' and v[1].split('::')[-1] in ('format', 'format_finite', 'format32', 'format64')


def symbols(ev, ctxk):
    """the JSON symbols one output event stands for; ctxk: what kind of text is being streamed"""
    e = ev.e
    tr = e.trait.split('::')[-1]
    if tr == 'Write':
        if e.method == 'write_char':
            a = noref(e.args[0])
            if a[0] == 'i':
                return lex(chr(a[1]), False)
            return ['content?']
        if e.method == 'write_str':
            a = noref(e.args[0])
            if a[0] == 'str':
                return lex(a[1], False)
            if a[0] == 'lit' and isinstance(a[1], str):
                return lex(a[1], False)
            if is_number_format(a):
                return ['num']
            if mentions(a, TEXT) or mentions(a, LTEXT):
                if ctxk == 'number':
                    return ['numpart']
                if ctxk in ('raw', 'ident'):
                    return ['raw']
                if a == TEXT or a == LTEXT:
                    raise Bad('text is written without being escaped (%s)' % e.site)
                return ['content']
            raise Unknown('writes %s' % show(a)[:80])
        if e.method == 'write_fmt':
            raise Unknown('write_fmt')
        raise Unknown(e.method)
    # a loop over the text (escaping, number text); decided by P09 / P10
    if any(mentions(noref(a), TEXT) or mentions(noref(a), LTEXT) for a in (e.recv,) + tuple(e.args)):
        return ['numpart' if ctxk == 'number' else 'content']
    raise Unknown('call to %s' % e.path)


TEXT = ('arg', 'TEXT')
LTEXT = ('arg', 'LABELTEXT')
BYTES = ('arg', 'BYTES')
NUM = ('arg', 'N')


def local_helpers(crate):
    """functions of the crate with a loop over text that only write: analysed on their own"""
    def pred(cf, c):
        if cf.get('closure') or cf.get('impl_trait') or cf.get('trait_default') or cf.get('inh_trait'):
            return False
        if cf.get('crate') not in (None, crate.name) and not cf.get('local', True):
            return False
        if not cf.get('name') and '::' not in cf.get('path', ''):
            return False
        return has_loop(crate, cf, 0) and takes_str(crate, cf)
    return pred


def takes_str(crate, cf):
    for i in range(cf['nargs']):
        t = crate.ty(cf['locals'][i + 1][0])
        if t['s'].startswith('&') and t['s'].lstrip('&').split(' ')[-1] == 'str':
            return True
    return False


def has_loop(crate, cf, depth):
    if crate.loops(cf):
        return True
    return crate.drives_iter(cf)


class JsonChecker:
    """Product of the formatter's transition system with the JSON grammar, closed under nesting by
    summaries: SUM[(state, position)] = states in which an arbitrary value may leave the formatter."""

    def __init__(self, ctx, cfg, crate):
        self.crate = crate
        R = Reps(ctx, cfg)
        ms = impl_methods(crate, lambda s: s.split('::')[-1].startswith('Formatter'), 'Stream')
        self.m = Machine(crate, ms, opaque=local_helpers(crate))
        self.sum = {}
        self.deps_changed = True
        self.obl = 0
        self.bad = {}
        self.visited = set()
        ident = R.tag('VALUE_IDENT')
        ref = lambda x: ('&', x)
        self.L = SOME(ref(R.label(LTEXT)))
        self.LI = SOME(ref(R.label(LTEXT, ident)))
        self.I = SOME(ref(R.index(1)))
        self.IBIG = SOME(ref(R.index(2 ** 64 - 5)))
        self.T = {n: SOME(ref(R.tag(n))) for n in ('NUMBER', 'RUST_OPTION_NONE', 'RUST_OPTION_SOME', 'RUST_UNIT', 'CONSTANT_SIZE')}
        for n in ('JSON_VALUE', 'JSON_TEXT', 'JSON_NUMBER'):
            self.T[n] = SOME(ref(R.tag(n)))
        self.T['other'] = SOME(ref(R.other_tag()))
        self.idents = []
        for l in (NONE, self.L, self.LI):
            for i in (NONE, self.I, self.IBIG):
                self.idents.append((l, i))
        self.labels = [ref(R.label(LTEXT)), ref(R.label(LTEXT, ident)), ref(R.label(LTEXT, R.other_tag()))]
        self.static_label = ref(R.label(LTEXT, made='new'))
        self.ixs = [ref(R.index(1)), ref(R.index(2 ** 64 - 5))]
        self.tags_generic = [NONE, self.T['other'], self.T['CONSTANT_SIZE']]

    def initial(self):
        for f in self.crate.roots:
            if f.get('name') == 'new' and 'Formatter' in (f.get('impl_self') or ''):
                g = run(self.crate, f)
                rets = [t for t in g.term.values() if t['kind'] == 'ret']
                if len(rets) == 1:
                    return canon(rets[0]['snap'])
        raise Unknown('no constructor')

    # -- configurations: sets of (state, json stack)
    def tok(self, confs, name, args=(), ctxk='text', trail=''):
        out = set()
        for s, q in confs:
            for post, evs, kind, t in self.m.call(name, s, tuple(args)):
                if kind == 'err':
                    continue
                if kind == 'panic':
                    raise Bad('`%s` may panic: %s' % (name, t['why']))
                if kind == 'fail':
                    if q[-1] == 'K' or self.pos == 'K':
                        continue   # unsupported keys may be refused
                    raise Bad('`%s` refuses a valid value' % name)
                q2 = q
                for ev in evs:
                    for sym in symbols(ev, ctxk):
                        try:
                            q2 = feed(q2, sym)
                        except Bad as b:
                            raise Bad('`%s`: %s' % (name, b))
                out.add((post, q2))
                self.obl += 1
        if len(out) > 400 or any(len(q) > 12 for _, q in out):
            raise Bad('`%s`: the nesting of the output grows without bound' % name)
        return out

    def val(self, confs):
        out = set()
        for s, q in confs:
            q = settle(q) if q[-1] == 'R' else q
            if q[-1] == 'K':
                pos = 'K'
            elif q[-1] in VALUE_EXPECTED:
                pos = 'V'
            else:
                raise Bad('a nested value starts where the output expects %s' % q[-1])
            k = (s, pos)
            if k not in self.sum:
                self.sum[k] = set()
                self.changed = True
            for s2 in self.sum[k]:
                out.add((s2, q if pos == 'K' else complete(q)))
        return out

    def loop(self, confs, body):
        acc = set(confs)
        frontier = set(confs)
        while frontier:
            new = body(frontier) - acc
            acc |= new
            frontier = new
            if len(acc) > 400:
                raise Bad('the output of a container grows without bound')
        return acc

    def productions(self):
        t = self.tok
        val = self.val
        for m in ['null', 'bool'] + INTS + ['f32', 'f64']:
            yield m, lambda c, m=m: t(c, m, () if m == 'null' else (NUM,))
        for fr in ('text_fragment', 'text_fragment_computed'):
            for n in (0, 1, 2):
                def text(c, n=n, fr=fr):
                    c = t(c, 'text_begin', (NONE,))
                    for _ in range(n):
                        c = t(c, fr, (TEXT,))
                    return t(c, 'text_end')
                yield 'text', text
        for n in (0, 1, 2):
            def binary(c, n=n):
                c = t(c, 'binary_begin', (NONE,))
                for _ in range(n):
                    c = t(c, 'binary_fragment_computed', (BYTES,))
                return t(c, 'binary_end')
            yield 'binary', binary
        for tg, kind, frs in (('NUMBER', 'number', (1, 2)), ('JSON_VALUE', 'raw', (1, 2)), ('JSON_TEXT', 'raw', (0, 1, 2)),
                              ('JSON_NUMBER', 'raw', (1, 2))):
            for n in frs:
                def special(c, tg=tg, kind=kind, n=n):
                    c = t(c, 'tagged_begin', (self.T[tg], NONE, NONE))
                    c = t(c, 'text_begin', (NONE,))
                    for _ in range(n):
                        c = t(c, 'text_fragment_computed', (TEXT,), kind)
                    c = t(c, 'text_end')
                    return t(c, 'tagged_end', (self.T[tg], NONE, NONE), kind)
                yield 'tagged text %s' % tg, special

        def mapp(c):
            c = t(c, 'map_begin', (NONE,))

            def body(c):
                c = t(c, 'map_key_begin')
                c = val(c)
                c = t(c, 'map_key_end')
                c = t(c, 'map_value_begin')
                c = val(c)
                return t(c, 'map_value_end')
            return t(self.loop(c, body), 'map_end')
        yield 'map', mapp

        def seq(c):
            c = t(c, 'seq_begin', (NONE,))
            return t(self.loop(c, lambda c: t(val(t(c, 'seq_value_begin')), 'seq_value_end')), 'seq_end')
        yield 'seq', seq
        yield from self.variants()

    def variants(self):
        t = self.tok
        val = self.val
        for tg in self.tags_generic + [self.T['RUST_OPTION_NONE'], self.T['RUST_UNIT']]:
            for l, i in self.idents:
                ck = 'ident' if l == self.LI else 'text'
                yield 'tag', lambda c, tg=tg, l=l, i=i, ck=ck: t(c, 'tag', (tg, l, i), ck)
        for tg in self.tags_generic + [self.T['RUST_OPTION_SOME']]:
            for l, i in self.idents:
                ck = 'ident' if l == self.LI else 'text'
                yield 'tagged', lambda c, tg=tg, l=l, i=i, ck=ck: t(val(t(c, 'tagged_begin', (tg, l, i), ck)), 'tagged_end', (tg, l, i), ck)
        for l, i in self.idents:
            ck = 'ident' if l == self.LI else 'text'
            tg = NONE

            def record(c, l=l, i=i, ck=ck):
                c = t(c, 'record_begin', (NONE, l, i, NONE), ck)

                def body(c):
                    out = set()
                    for k, lab in enumerate(self.labels):
                        c2 = t(c, 'record_value_begin', (NONE, lab), 'ident' if k == 1 else 'text')
                        out |= t(val(c2), 'record_value_end', (NONE, lab), 'ident' if k == 1 else 'text')
                    return out
                return t(self.loop(c, body), 'record_end', (NONE, l, i), ck)
            yield 'record', record

            def tuple_(c, l=l, i=i, ck=ck):
                c = t(c, 'tuple_begin', (NONE, l, i, NONE), ck)

                def body(c):
                    out = set()
                    for ix in self.ixs:
                        out |= t(val(t(c, 'tuple_value_begin', (NONE, ix))), 'tuple_value_end', (NONE, ix))
                    return out
                return t(self.loop(c, body), 'tuple_end', (NONE, l, i), ck)
            yield 'tuple', tuple_

            def rtuple(c, l=l, i=i, ck=ck):
                c = t(c, 'record_tuple_begin', (NONE, l, i, NONE), ck)

                def body(c):
                    out = set()
                    for k, lab in enumerate(self.labels):
                        for ix in self.ixs:
                            c2 = t(c, 'record_tuple_value_begin', (NONE, lab, ix), 'ident' if k == 1 else 'text')
                            out |= t(val(c2), 'record_tuple_value_end', (NONE, lab, ix), 'ident' if k == 1 else 'text')
                    return out
                return t(self.loop(c, body), 'record_tuple_end', (NONE, l, i), ck)
            yield 'record_tuple', rtuple

            def enum(c, l=l, i=i, ck=ck):
                c = t(c, 'enum_begin', (NONE, l, i), ck)
                out = set()
                for s, q in c:
                    out |= self.variant_of(s, q)
                return t(out, 'enum_end', (NONE, l, i), ck)
            yield 'enum', enum

    def variant_of(self, s, q):
        """an arbitrary variant streamed from state s at json position q"""
        # what the variant writes is kept relative to its position: the enum may have to close it
        base = ('O0', 'K') if q[-1] == 'K' else (q[-1],)
        if q[-1] != 'K' and q[-1] not in VALUE_EXPECTED:
            raise Bad('a variant starts where the output expects %s' % q[-1])
        k = (s, base, 'variant')
        if k not in self.sum:
            self.sum[k] = set()
            self.changed = True
        return {(s2, q[:len(q) - len(base)] + q2) for s2, q2 in self.sum[k]}

    def solve(self, s0):
        self.sum = {(s0, 'V'): set()}
        self.changed = True
        rounds = 0
        self.bad = {}
        while self.changed:
            self.changed = False
            rounds += 1
            if rounds > 60 or len(self.sum) > 600:
                raise Unknown('no fixpoint')
            for k in list(self.sum):
                if len(k) == 2:
                    s, pos = k
                    self.pos = pos
                    start = ('V',) if pos == 'V' else ('O0', 'K')
                    end = ('D',) if pos == 'V' else ('O0', 'K')
                    for name, prod in self.productions():
                        try:
                            res = prod({(s, start)})
                            for s2, q2 in res:
                                q2 = settle(q2)
                                if q2 != end:
                                    raise Bad('after a complete %s the output is %s' % (name, unfinished(q2)))
                                if s2 not in self.sum[k]:
                                    self.sum[k].add(s2)
                                    self.changed = True
                        except Bad as b:
                            self.bad.setdefault((name, str(b)), k)
                else:
                    s, q, _ = k
                    self.pos = 'K' if q[-1] == 'K' else 'V'
                    for name, prod in self.variants():
                        try:
                            for r in prod({(s, q)}):
                                if r not in self.sum[k]:
                                    self.sum[k].add(r)
                                    self.changed = True
                        except Bad as b:
                            self.bad.setdefault(('enum of ' + name, str(b)), k)
        return rounds


def unfinished(q):
    if 'O0' in q or 'OD' in q or 'OS' in q or 'OC' in q:
        return 'an unclosed object'
    if 'A0' in q or 'AD' in q or 'AV' in q:
        return 'an unclosed array'
    if q[-1] == 'S':
        return 'an unclosed string'
    if q[-1] == 'V':
        return 'empty'
    return 'malformed %s' % (q,)


def p08(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        crate = ctx.crate('sval_json', cfg)
        if crate is None:
            continue
        rep.cfg = cfg
        jc = JsonChecker(ctx, cfg, crate)
        try:
            s0 = jc.initial()
            n = jc.solve(s0)
        except Unknown as e:
            rep.inconclusive('json-structure', 'json/src/to_fmt.rs', str(e))
            continue
        for (name, why), k in jc.bad.items():
            rep.viol('json-structure:%s:%s' % (name, why[:60]), 'json-structure', 'json formatter, streaming %s' % name,
                     '%s (formatter state %s)' % (why, show(k[0])))
        for k in jc.sum:
            rep.ok('json-structure', 'state %s at %s' % (show(k[0]), k[1]))
        for _ in range(len(jc.m.cache)):
            rep.ok('json-transition', 'token method from a reachable state')
    rep.cfg = 'full'
    rep.floor('json-transition', 200)


# ---------------------------------------------------------------- P09: escaping
def byte_item(b):
    def mk(it, st, tid, nm):
        if tid is None:
            return None
        t = it.c.ty(tid)
        if t['s'] == 'u8':
            return ('i', b(st) if callable(b) else b)
        if t['s'] == 'char':
            v = b(st) if callable(b) else b
            return ('i', v)
        if t['k'] == 'ref':
            return ('ref', ('K', mk(it, st, t['to'], ('deref', nm))), ())
        if t['k'] == 'tuple':
            return ('tup', tuple(mk(it, st, e, ('fld', nm, i)) for i, e in enumerate(t['elems'])))
        return nm
    return mk


def phased(first, rest):
    """the first loop iteration sees `first`, later ones `rest`"""
    def b(st):
        sig = tuple((fr.f['id'],) for fr in st.stack)
        n = max([len(h) for k, h in st.visits.items()] or [0])
        return first if n <= 1 else rest
    return b


def segments(g):
    """(loop variables at the head, events, end) for every way through the loop body / out of the loop;
    success edges only. end: the back-edge Note or a terminal"""
    from interp import Note
    heads = {}
    out = []
    # loop heads: targets reached after a Note
    starts = []
    for n, es in enumerate(g.edges):
        for e, m in es:
            if isinstance(e, Note):
                for e2, h in g.edges[m]:
                    starts.append((e, h))
                if m in g.term:
                    pass
    done = set()
    for note, h in starts:
        stack = [(h, (), None)]
        while stack:
            n, evs, it = stack.pop()
            if n in g.term:
                out.append((note, evs, it, g.term[n]))
                continue
            for e, m in g.edges[n]:
                if is_res(e, 'err'):
                    continue
                if isinstance(e, Note):
                    out.append((note, evs, it, e))
                elif is_ev(e):
                    if len(evs) < 40:
                        stack.append((m, evs + (e,), it))
                elif isinstance(e, tuple) and e and e[0] == 'iter':
                    stack.append((m, evs, e[1]))
                else:
                    stack.append((m, evs, it))
            if len(out) > 20000:
                raise Unknown('too many segments')
    return out


def decode_json(s):
    """decode the body of a JSON string literal; None if it is not one"""
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if i + 1 >= len(s):
                return None
            ch = s[i + 1]
            if ch in '"\\/':
                out.append(ch)
            elif ch in 'bfnrt':
                out.append({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}[ch])
            elif ch == 'u':
                h = s[i + 2:i + 6]
                if len(h) != 4 or any(x not in '0123456789abcdefABCDEF' for x in h):
                    return None
                out.append(chr(int(h, 16)))
                i += 4
            else:
                return None
            i += 2
            continue
        if s[i] == '"' or ord(s[i]) < 0x20:
            return None
        out.append(s[i])
        i += 1
    return ''.join(out)


def const_text(evs):
    """the constant text the events write, or None"""
    s = ''
    for e in evs:
        a = noref(e.args[0])
        if e.method == 'write_char' and a[0] == 'i':
            s += chr(a[1])
        elif e.method == 'write_str' and a[0] in ('str', 'lit') and isinstance(a[1], str):
            s += a[1]
        else:
            return None
    return s


def is_slice(v):
    return isinstance(v, tuple) and v and v[0] == 'slice'


def guard_excuses(facts, cur, end, neq_len=False):
    """nothing pending between cur and end is implied by the facts; None: some other guard was used"""
    ok = {('Lt', 0): (cur, end), ('Ge', 1): (cur, end), ('Eq', 1): (cur, end), ('Ne', 0): (cur, end),
          ('Gt', 0): (end, cur), ('Le', 1): (end, cur), ('Le', 0): (cur, end), ('Gt', 1): (cur, end)}
    alt = {('Ge', 0): (end, cur), ('Lt', 1): (end, cur)}
    related = False
    for k, v in facts.items():
        kk = noref(k)
        if kk[0] == 'bin' and len(kk) == 4:
            a, b = kk[2], kk[3]
            for (op, val), (x, y) in list(ok.items()) + list(alt.items()):
                if kk[1] == op and v == val and ((a, b) == (x, y) or op in ('Eq', 'Ne') and (b, a) == (x, y)):
                    return True
            if mentions(kk, cur) and kk[1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                related = True
        if mentions_any(kk, is_slice):
            return None
    return False


class Esc:
    def __init__(self, crate, f):
        self.crate, self.f = crate, f
        self.args = argnames(crate, f)
        self.texts = [noref(a) for i, a in enumerate(self.args) if crate.ty(f['locals'][i + 1][0])['s'].split(' ')[-1] in ('str', '&str')]

    def run(self, b):
        it = Interp(self.crate)
        it.note_loops = True
        it.iter_payload = byte_item(b)
        g = it.run(self.f, self.args)
        if g.incomplete:
            raise Unknown(g.incomplete)
        return g

    def check_byte(self, b):
        text = self.texts[0]
        must = b < 0x20 or b in (0x22, 0x5c)
        n = 0
        for ph, g in ((False, self.run(b)), (True, self.run(phased(0x22, b)))):
            segs = segments(g)
            self.prologue(g, text)
            if ph:
                # the first iteration sees another byte: only later ones say something about b
                segs = [x for x in segs if x[0].n >= 1 or x[2] != 'some']
            if not any(it == 'some' for _, _, it, _ in segs):
                raise Unknown('not a loop over the text')
            for note, evs, it, end in segs:
                if it is None:
                    continue
                if not isinstance(end, dict) and it == 'some':
                    self.body(note, evs, end, b, must, text)
                    n += 1
                elif isinstance(end, dict) and it == 'none':
                    if end['kind'] == 'ret' and res_kind(end) == 'ok':
                        self.exit(note, evs, end, text)
                        n += 1
                elif isinstance(end, dict) and it == 'some':
                    if end['kind'] == 'panic':
                        raise Bad('byte 0x%02x may panic: %s' % (b, end['why']))
                    if end['kind'] == 'ret' and res_kind(end) == 'ok':
                        raise Bad('byte 0x%02x ends escaping early: the rest of the text is lost' % b)
                    if end['kind'] == 'ret' and res_kind(end) == 'err':
                        raise Bad('byte 0x%02x makes writing fail' % b)
        return n

    def prologue(self, g, text):
        from interp import Note
        stack, seen = [(g.start, (), False)], set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            n, evs, scanned = x
            if n in g.term:
                t = g.term[n]
                if t['kind'] == 'ret' and res_kind(t) != 'err':
                    if scanned:
                        raise Unknown('a shortcut taken after a scan')
                    self.unlooped(evs, t, text)
                continue
            for e, m in g.edges[n]:
                if is_res(e, 'err') or isinstance(e, Note):
                    continue
                stack.append((m, evs + (e,) if is_ev(e) and len(evs) < 8 else evs, scanned or isinstance(e, tuple) and e[:1] == ('iter',)))

    def unlooped(self, evs, end, text):
        """text dealt with without looking at its bytes"""
        facts = end['state'].facts
        if is_empty_fact(facts, text):
            return
        for k in facts:
            k = noref(k)
            if mentions(k, text) and mentions_any(k, lambda x: isinstance(x, tuple) and x and (
                    x[0] in ('next', 'closure', 'elem') or x[0] == 'app' and str(x[1]).split('::')[-1] not in ('len', 'is_empty', 'is_ascii', 'is_char_boundary', 'as_bytes'))):
                raise Unknown('a shortcut taken under %s' % show(k)[:80])
        if not evs:
            raise Bad('text is dropped without being looked at')
        raise Bad('text is written without looking for what has to be escaped in it')

    def writes(self, evs):
        out = []
        for e in evs:
            if e.trait.split('::')[-1] != 'Write':
                raise Unknown('calls %s' % e.method)
            out.append(e)
        return out

    def cur_of(self, note, end):
        """the loop variable holding the start of the pending text, before and after the body"""
        return self.cur

    def body(self, note, evs, end, b, must, text):
        evs = self.writes(evs)
        idx = self.index_term(note, evs, end)
        flush = [e for e in evs if is_slice(noref(e.args[0]))]
        rest = [e for e in evs if not is_slice(noref(e.args[0]))]
        cur = self.pending(note)
        after = self.pending_after(end)
        if not evs:
            if must:
                raise Bad('byte 0x%02x is copied without being escaped' % b)
            if after is not None and cur is not None and noref(after) != noref(cur):
                raise Bad('byte 0x%02x (or text before it) is dropped: the pending text restarts at %s' % (b, show(after)))
            return
        if flush and evs[0] is not flush[0] or len(flush) > 1:
            raise Unknown('writes in another order')
        s = const_text(rest)
        if s is None:
            raise Unknown('writes %s' % [repr(e) for e in rest])
        d = decode_json(s)
        if d != chr(b) or b >= 0x80:
            raise Bad('byte 0x%02x is written as %r, which JSON reads as %r' % (b, s, d))
        if flush:
            sl = noref(flush[0].args[0])
            if sl[1] != text or sl[2] != noref(cur):
                raise Bad('before an escaped byte, %s is written instead of the text pending since %s' % (show(sl), show(cur)))
            if not is_index(sl[3]):
                raise Bad('before an escaped byte, the text is written up to %s instead of up to that byte' % show(sl[3]))
        else:
            if idx is None:
                raise Unknown('index')
            ex = guard_excuses(end.facts, noref(cur), idx)
            if ex is False:
                raise Bad('text pending before byte 0x%02x may be dropped' % b)
            if ex is None:
                raise Unknown('guard')
        if after is None:
            raise Unknown('pending')
        if noref(after) != ('lin', idx, 1) if idx is not None else False:
            raise Bad('after an escaped byte the pending text restarts at %s instead of just after that byte' % show(after))

    def index_term(self, note, evs, end):
        for v in end.vals.values():
            v = noref(v)
            if v[0] == 'lin' and is_index(v[1]):
                return v[1]
            if is_index(v):
                return v
        for e in evs:
            s = noref(e.args[0])
            if is_slice(s) and is_index(s[3]):
                return s[3]
        return None

    def pending(self, note):
        v = note.vals.get(self.var)
        if v is None:
            return None
        # at a re-visited head the variable is widened to its own phi
        if note.kind == 'back' and v != note.prev.get(self.var):
            return ('phi', self.var)
        return v

    def pending_after(self, end):
        return end.vals.get(self.var)

    def exit(self, note, evs, end, text):
        evs = self.writes(evs)
        cur = noref(self.pending(note))
        if not evs:
            ex = guard_excuses(end['state'].facts, cur, ('len', text))
            if ex is False:
                raise Bad('the text after the last escaped byte may be dropped')
            if ex is None:
                raise Unknown('guard')
            return
        sl = noref(evs[0].args[0])
        if len(evs) != 1 or not is_slice(sl):
            raise Unknown('writes after the loop')
        full = sl[3] is None or sl[3] == ('len', text) or noref(sl[3]) == ('adt', 'core::option::Option', 0, ()) or sl[3] == ('none',)
        if sl[1] != text or noref(sl[2]) != cur or not full and sl[3] not in (None, 'None'):
            raise Bad('at the end %s is written instead of the text pending since %s' % (show(sl), show(cur)))

    def find_var(self):
        """the loop variable that starts the slices written"""
        g = self.run(0x22)
        for note, evs, it, end in segments(g):
            for e in evs:
                s = noref(e.args[0]) if e.args else None
                if is_slice(s) and noref(s[2])[0] == 'phi':
                    self.var = noref(s[2])[1]
                    return True
        raise Unknown('no pending-text variable')


def is_index(v):
    return isinstance(v, tuple) and v and v[0] == 'fld' and v[2] == 0 and isinstance(v[1], tuple) and v[1][0] == 'next'


def helper_events(jc, s0, tag):
    """the loop helpers the formatter uses for text (tag None) or for text under `tag`"""
    out = set()
    states = {s0}
    if tag is not None:
        nxt = set()
        for s in states:
            for post, evs, kind, t in jc.m.call('tagged_begin', s, (jc.T[tag], NONE, NONE)):
                if kind == 'ok':
                    nxt.add(post)
        states = nxt
    raw = 0
    for s in states:
        for post, evs, kind, t in jc.m.call('text_fragment_computed', s, (TEXT,)):
            for ev in evs:
                if ev.e.trait.split('::')[-1] != 'Write':
                    out.add(ev.e.path)
    return out


def fns_at(crate, paths):
    by = {}
    for f in crate.fns.values():
        if f['path'] in paths and f['blocks'] and (f['path'] not in by or f.get('root')):
            by[f['path']] = f
    return list(by.values())


def p09(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        crate = ctx.crate('sval_json', cfg)
        rep.cfg = cfg
        jc = JsonChecker(ctx, cfg, crate)
        try:
            s0 = jc.initial()
            fs = fns_at(crate, helper_events(jc, s0, None))
            if not fs:
                raise Unknown('no escaping helper')
        except Unknown as e:
            rep.inconclusive('escape', 'json/src/to_fmt.rs', str(e))
            continue
        for f in fs:
            es = Esc(crate, f)
            where = fn_where(f)
            try:
                es.find_var()
            except Unknown as e:
                rep.inconclusive('escape', where, str(e))
                continue
            for b in range(256):
                try:
                    es.check_byte(b)
                    rep.ok('escape', '%s byte 0x%02x' % (where, b))
                except Bad as e:
                    rep.viol('escape:0x%02x:%s' % (b, f['path']), 'escape', where, str(e))
                except Unknown as e:
                    rep.inconclusive('escape', where, str(e))
                    break
        # every text the formatter writes that is not a constant goes through that helper unless it is declared raw
        ms = jc.m.methods
        for name, args in (('text_fragment_computed', (TEXT,)), ('text_fragment', (TEXT,)),
                           ('record_value_begin', (NONE, jc.labels[0])), ('record_value_begin', (NONE, jc.labels[2])),
                           ('record_value_begin', (NONE, jc.static_label)), ('record_tuple_value_begin', (NONE, jc.static_label, jc.ixs[0])),
                           ('tag', (NONE, SOME(jc.static_label), NONE)),
                           ('record_tuple_value_begin', (NONE, jc.labels[0], jc.ixs[0])), ('tag', (NONE, jc.L, NONE))):
            key = 'escape-used:%s' % name
            try:
                st = {s0}
                n = 0
                for s in st:
                    for post, evs, kind, t in jc.m.call(name, s, args):
                        if kind != 'ok':
                            continue
                        wrote = False
                        for ev in evs:
                            sy = symbols(ev, 'text')
                            if 'content' in sy:
                                a = [noref(x) for x in (ev.e.recv,) + tuple(ev.e.args)]
                                if TEXT in a or LTEXT in a:
                                    wrote = True
                        if not wrote:
                            raise Bad('the text itself is not written')
                        n += 1
                rep.ok('escape-used', name)
            except Bad as e:
                rep.viol(key, 'escape-used', fn_where(ms[name]), '%s: %s' % (name, e))
            except Unknown as e:
                rep.inconclusive('escape-used', name, str(e))
    rep.cfg = 'full'
    rep.floor('escape', 256)
