"""Default lowerings of the stream interface lose nothing (P04) and conversions are sound (P06)."""
from interp import show
from lib import *
from common import fn_where
from typestate import Bad, Unknown, step, START, OPENERS, CLOSERS, ITEM_B, ITEM_E, ok_paths

RANK = {'u8': 0, 'u16': 1, 'u32': 2, 'u64': 3, 'u128': 4, 'i8': 0, 'i16': 1, 'i32': 2, 'i64': 3, 'i128': 4}
OPT_SOME = ('adt', 'core::option::Option', 1)
NONE = ('adt', 'core::option::Option', 0, ())


def is_default(f):
    return (f.get('trait_default') or '').split('::')[-1] == 'Stream' and not f.get('inh_self')


def strip_exact(v):
    v = noref(v)
    while v[0] == 'exact':
        v = noref(v[2])
    return v


def paths(crate, f, unroll=1):
    """[(events on self, facts)] of the successful paths"""
    g = run(crate, f)
    if g.incomplete:
        raise Unknown(g.incomplete)
    out = []
    for evs, t in ok_paths(g, unroll):
        if t['kind'] == 'panic':
            raise Bad('may panic: %s' % t['why'])
        if t['kind'] != 'ret':
            continue
        k = res_kind(t)
        if k == 'err':
            raise Bad('fails although nothing it called failed')
        if k != 'ok':
            raise Unknown('returns %s' % show(t['ret'])[:60])
        toks = []
        for e in evs:
            if not is_ev(e):
                continue
            if noref(e.recv) == ('arg', 'self'):
                toks.append(e)
            elif any(mentions(noref(a), ('arg', 'self')) for a in e.args):
                toks.append(e)
            else:
                raise Unknown('calls %s' % e.method)
        out.append((toks, t['state'].facts))
    if not out:
        raise Bad('never succeeds')
    return out


def check_scalar(crate, f, name, deps):
    for toks, facts in paths(crate, f):
        arg = ('arg', 'value')
        ms = [e.method for e in toks]
        if len(toks) == 1 and (ms[0] in RANK or ms[0] in ('f32', 'f64')):
            e = toks[0]
            if name[0] == 'f' and ms[0][0] != 'f' or name[0] != 'f' and ms[0][0] == 'f':
                raise Bad('becomes `%s`' % ms[0])
            a = noref(e.args[0])
            if strip_exact(a) != arg:
                raise Bad('becomes `%s` with %s, which is not always the same value' % (ms[0], show(a)))
            deps.setdefault(name, set()).add(ms[0])
        elif ms == ['tagged_begin', 'value_computed', 'tagged_end'] or ms == ['tagged_begin', 'value', 'tagged_end']:
            t0 = noref(toks[0].args[0])
            if 'NUMBER' not in repr(t0) or t0 != noref(toks[2].args[0]):
                raise Bad('becomes text that is not tagged as a number')
            a = noref(toks[1].args[0])
            if not mentions(a, arg) or mentions_any(a, lambda x: isinstance(x, tuple) and x and x[0] == 'cast'):
                raise Bad('becomes text of %s' % show(a)[:80])
            if name in RANK and may_fit(facts, name, arg):
                raise Bad('a number that fits a token of its own becomes text')
        elif not toks:
            raise Bad('is dropped')
        else:
            raise Bad('becomes %s' % ms)


def check_single(crate, f, want):
    for toks, facts in paths(crate, f):
        if len(toks) != 1 or toks[0].method != want or noref(toks[0].args[0]) != ('arg', 'fragment'):
            raise Bad('becomes %s' % [repr(e) for e in toks])


PARTIAL = ('skip', 'skip_while', 'take', 'take_while', 'step_by', 'rev', 'filter', 'filter_map', 'map_while', 'chunks_exact', 'rchunks',
           'trim_ascii', 'trim_ascii_start', 'trim_ascii_end', 'map', 'cycle', 'chain')


def label_text(v):
    """is this value exactly the text of the label? (None: cannot tell)"""
    v = noref(v)
    if v == ('arg', 'label'):
        return True
    if v[0] in ('fld', 'vfld', 'deref', 'exact'):
        return label_text(v[2] if v[0] == 'exact' else v[1])
    if v[0] == 'app':
        n = str(v[1]).split('::')[-1]
        if n in ('as_str', 'as_static_str', 'as_ref', 'deref', 'borrow', 'from_utf8_unchecked', 'as_bytes', 'unwrap', 'expect', 'as_deref', 'clone'):
            return label_text(v[2][0] if isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], tuple) else v[2])
        if n.startswith('trim') or n.startswith('to_') or n in ('get', 'index', 'split_at', 'strip_prefix', 'strip_suffix'):
            return False
        return None
    if v[0] in ('slice', 'lit', 'i', 'str', 'const'):
        return False
    return None


def check_label(n, v):
    r = label_text(v)
    if r is False:
        raise Bad('`%s` streams %s where the label belongs' % (n, show(v)[:60]))
    if r is None:
        raise Unknown('`%s` streams %s' % (n, show(v)[:60]))


def check_bytes(crate, f):
    st0 = (('top', (), 1), ('seq', (), 0))
    n = 0
    for unroll in (1, 2):
        for toks, facts in paths(crate, f, unroll):
            ms = [e.method for e in toks]
            if ms == ['binary_fragment'] and noref(toks[0].args[0]) == ('arg', 'fragment'):
                continue
            st = st0
            for e in toks:
                st = step(st, e.method, e.args, e.site)
            if st != st0:
                raise Bad('leaves an element open')
            for e in toks:
                if e.method in RANK:
                    a = strip_exact(e.args[0])
                    if not mentions(a, ('arg', 'fragment')):
                        raise Bad('a byte becomes %s' % show(a)[:80])
                    if mentions_any(a, lambda x: isinstance(x, tuple) and x and x[0] in ('cast', 'bin', 'un')):
                        raise Bad('a byte becomes %s' % show(a)[:80])
                    lossy = [x for x in PARTIAL if mentions_any(a, lambda y: isinstance(y, tuple) and len(y) > 1 and y[0] == 'app' and isinstance(y[1], str) and y[1].split('::')[-1] == x)]
                    if lossy:
                        raise Bad('the bytes go through `%s`, so not all of them are streamed in order: %s' % (lossy[0], show(a)[:80]))
                elif e.method not in ('seq_value_begin', 'seq_value_end'):
                    raise Bad('emits `%s`' % e.method)
            n = max(n, len([e for e in toks if e.method in RANK]))
    if n == 0:
        raise Bad('no byte is ever streamed')


def own(args, name):
    return ('arg', name) in args


def check_ident(name, toks):
    """tags, labels and indexes passed on are the method's own"""
    for e in toks:
        if e.method in ('tagged_begin', 'tagged_end', 'enum_begin', 'enum_end', 'record_begin', 'record_end', 'tuple_begin', 'tuple_end', 'tag',
                        'record_tuple_begin', 'record_tuple_end'):
            a = [noref(x) for x in e.args[:3]]
            if a not in ([('arg', 'tag'), ('arg', 'label'), ('arg', 'index')], [NONE, NONE, NONE]):
                raise Bad('`%s` is called with (%s)' % (e.method, ', '.join(map(show, a))))
            if a == [NONE, NONE, NONE] and name not in ('map_begin', 'map_key_begin', 'map_key_end', 'map_value_begin', 'map_value_end', 'map_end'):
                raise Bad('its tag, label and index are dropped')


COMPOSE = {
    'map': ('map_begin', [('map_key_begin', 'map_key_end'), ('map_value_begin', 'map_value_end')], 'map_end'),
    'enum': ('enum_begin', [], 'enum_end'),
    'record': ('record_begin', [('record_value_begin', 'record_value_end')], 'record_end'),
    'tuple': ('tuple_begin', [('tuple_value_begin', 'tuple_value_end')], 'tuple_end'),
    'record_tuple': ('record_tuple_begin', [('record_tuple_value_begin', 'record_tuple_value_end')], 'record_tuple_end'),
    'binary': ('binary_begin', [], 'binary_end'),
}


def check_container(crate, ms, kind):
    begin, items, end = COMPOSE[kind]
    P = {}
    for n in [begin, end] + [x for it in items for x in it]:
        if n not in ms:
            raise Unknown('no default for %s' % n)
        P[n] = paths(crate, ms[n])
        for toks, facts in P[n]:
            check_ident(n, toks)
    cnt = 0

    def feed(conf, n):
        out = set()
        for st, hints in conf:
            for toks, facts in P[n]:
                s, h = st, hints
                for e in toks:
                    if e.method in ('value', 'value_computed', 'text_begin', 'text_fragment', 'text_fragment_computed', 'text_end'):
                        if e.args and e.method != 'text_begin':
                            if not mentions(noref(e.args[0]), ('arg', 'label')):
                                raise Bad('`%s` streams %s as the name of a field' % (n, show(e.args[0])[:60]))
                            check_label(n, e.args[0])
                    s = step(s, e.method, e.args, e.site)
                    if e.method in OPENERS and e.method not in ('enum_begin', 'tagged_begin'):
                        hv = noref(e.args[-1])
                        if hv[0] == 'adt' and hv[2] == 1 and hv[3][0][0] == 'i':
                            h = h + ((len(s), hv[3][0][1], 0),)
                        elif hv[0] == 'arg' and not (n.endswith('_begin') and n == begin):
                            raise Unknown('size hint')
                        elif hv != NONE and hv[0] != 'arg':
                            raise Bad('`%s` gives the size %s' % (n, show(hv)))
                    if e.method in ITEM_B and h and h[-1][0] == len(s) - 1:
                        h = h[:-1] + ((h[-1][0], h[-1][1], h[-1][2] + (1 if e.method != 'map_value_begin' else 0)),)
                    if e.method in CLOSERS and h and h[-1][0] == len(s) + 1:
                        if h[-1][1] != h[-1][2]:
                            raise Bad('a size of %d is announced for %d elements' % (h[-1][1], h[-1][2]))
                        h = h[:-1]
                out.add((s, h))
        return out

    def value(conf):
        out = set()
        for st, h in conf:
            if st[-1][0] not in ('item', 'tagged', 'enum', 'top'):
                raise Bad('the value of an element would land directly inside %s' % st[-1][0])
            out.add((step(st, 'value', (('arg', 'V'),), 'element'), h))
        return out

    conf = feed({(START, ())}, begin)
    if kind == 'enum':
        conf = value(conf)
    base = conf
    finals = set()
    for rounds in range(3):
        fin = feed(conf, end)
        for st, h in fin:
            if st != (('top', (), 1),):
                raise Bad('after %d elements the lowered %s is not one complete value: %s' % (rounds, kind, [x[0] for x in st]))
        cnt += 1
        if not items:
            break
        for b, e in items:
            before = conf
            conf = feed(conf, b)
            conf = value(conf)
            conf = feed(conf, e)
    return cnt


def opaque(k):
    """a test of the tag that the fact base cannot read"""
    k = noref(k)
    if k[0] == 'excl':
        k = noref(k[1])
    return mentions(k, ('arg', 'tag')) and mentions_any(k, lambda x: isinstance(x, tuple) and x and x[0] in ('app', 'bin', 'phi', 'next'))


def check_tag(crate, f):
    for toks, facts in paths(crate, f):
        st = START
        for e in toks:
            st = step(st, e.method, e.args, e.site)
        if st != (('top', (), 1),):
            raise Bad('does not become one complete value')
        check_ident('tag', toks)
        lab = None
        none_tag = None
        for k, v in facts.items():
            kk = noref(k)
            if kk == ('discr', ('arg', 'label')):
                lab = v == 1
            if kk == ('excl', ('discr', ('arg', 'label'))):
                lab = False if 1 in v else None
            if 'RUST_OPTION_NONE' in repr(kk) and kk[0] not in ('excl', 'discr'):
                none_tag = bool(v)
            elif kk == ('discr', ('arg', 'tag')) and v == 0 or kk == ('excl', ('discr', ('arg', 'tag'))) and 1 in v:
                none_tag = False
            elif kk[0] == 'bin' and mentions(kk, ('arg', 'tag')) and (kk[1] == 'Eq' and v == 0 or kk[1] == 'Ne' and v == 1):
                none_tag = False
            elif kk[0] == 'excl' and mentions(kk, ('arg', 'tag')) and kk[1][0] != 'discr':
                none_tag = False
        inner = [e for e in toks if e.method not in ('tagged_begin', 'tagged_end')]
        if len(inner) == 1 and inner[0].method == 'null':
            if lab is True and none_tag is None and any(opaque(k) for k in facts):
                raise Unknown('which tags are absent options')
            if lab is True and not none_tag:
                raise Bad('a labelled tag becomes null')
        elif len(inner) == 1 and inner[0].method in ('value', 'value_computed'):
            if not mentions(noref(inner[0].args[0]), ('arg', 'label')):
                raise Bad('streams %s' % show(inner[0].args[0]))
            check_label('tag', inner[0].args[0])
            if none_tag is True:
                raise Bad('an absent option does not become null')
            if none_tag is None:
                if any(opaque(k) for k in facts):
                    raise Unknown('which tags are absent options')
                raise Bad('any tag becomes its label, so an absent option does not become null')
        else:
            raise Unknown('tag')


def check_value(crate, f, name):
    for toks, facts in paths(crate, f):
        if len(toks) != 1 or noref(toks[0].recv) != ('arg', 'v') or toks[0].method != 'stream':
            raise Bad('becomes %s' % [repr(e) for e in toks])


def check_nothing(crate, f, name):
    """tagged_begin / tagged_end / tag_hint may be ignored, but must not emit anything"""
    for toks, facts in paths(crate, f):
        if toks:
            raise Bad('emits %s' % [e.method for e in toks])


def acyclic(deps):
    seen = {}

    def go(n, stack):
        if n in stack:
            raise Bad('%s lower into each other without end' % ' and '.join(stack[stack.index(n):]))
        for m in sorted(deps.get(n, ())):
            go(m, stack + [n])
    for n in sorted(deps):
        go(n, [])


def p04(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        crate = ctx.crate('sval', cfg)
        rep.cfg = cfg
        ms = {f['name']: f for f in crate.roots if is_default(f)}
        deps = {}
        jobs = []
        for n, f in sorted(ms.items()):
            if n in RANK or n == 'f32':
                jobs.append(('default-scalar', n, f, lambda f=f, n=n: check_scalar(crate, f, n, deps)))
            elif n == 'text_fragment':
                jobs.append(('default-fragment', n, f, lambda f=f: check_single(crate, f, 'text_fragment_computed')))
            elif n == 'binary_fragment':
                jobs.append(('default-fragment', n, f, lambda f=f: check_single(crate, f, 'binary_fragment_computed')))
            elif n == 'binary_fragment_computed':
                jobs.append(('default-fragment', n, f, lambda f=f: check_bytes(crate, f)))
            elif n == 'tag':
                jobs.append(('default-tag', n, f, lambda f=f: check_tag(crate, f)))
            elif n in ('value', 'value_computed'):
                jobs.append(('default-value', n, f, lambda f=f, n=n: check_value(crate, f, n)))
            elif n in ('tagged_begin', 'tagged_end', 'tag_hint'):
                jobs.append(('default-transparent', n, f, lambda f=f, n=n: check_nothing(crate, f, n)))
        for k in COMPOSE:
            f = ms.get(COMPOSE[k][0])
            jobs.append(('default-container', k, f, lambda k=k: check_container(crate, ms, k)))
        jobs.append(('default-scalar', 'termination', ms.get('u128'), lambda: acyclic(deps)))
        for rule, n, f, fn in jobs:
            where = fn_where(f) if f else 'src/stream.rs'
            try:
                fn()
                rep.ok(rule, n)
            except Bad as e:
                rep.viol('%s:%s' % (rule, n), rule, where, '`%s` left to its default: %s' % (n, e))
            except Unknown as e:
                rep.inconclusive(rule, where, '%s: %s' % (n, e))
    rep.cfg = 'full'
