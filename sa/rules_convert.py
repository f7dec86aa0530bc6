"""P06: conversions of values are sound.

The extractors behind the default conversions are stream implementations.  They are driven, abstractly, with every short
token sequence of the value grammar and symbolic contents; whatever they have extracted at the end must be exactly the content."""
from interp import Interp, show
from lib import *
from common import fn_where
from machine import Machine, LOC
from typestate import Bad, Unknown, ok_paths

WANT = {'to_bool': {'bool'}, 'to_f32': {'f32'}, 'to_f64': {'f64', 'f32'}, 'to_i128': set(INTS), 'to_u128': set(INTS),
        'to_text': set(), 'to_binary': set(), 'tag': set()}
NONE_T = ('adt', 'core::option::Option', 0, ())


def A(n):
    return ('arg', n)


def opt(v):
    """None / Some(x) / unknown of an abstract option"""
    v = noref(v)
    if v[0] == 'adt' and v[1].endswith('Option'):
        return ('none', None) if v[2] == 0 else ('some', v[3][0])
    return ('?', v)


def strip_exact(v):
    v = noref(v)
    while v[0] == 'exact':
        v = noref(v[2])
    return v


TAGS3 = (A('tag'), A('label'), A('index'))
CONT = {  # begin, item open/close pairs, end
    'seq': (('seq_begin', (A('n'),)), [(('seq_value_begin', ()), ('seq_value_end', ()))], ('seq_end', ())),
    'map': (('map_begin', (A('n'),)), [(('map_key_begin', ()), ('map_key_end', ())), (('map_value_begin', ()), ('map_value_end', ()))], ('map_end', ())),
    'record': (('record_begin', TAGS3 + (A('n'),)), [(('record_value_begin', (A('t'), A('l'))), ('record_value_end', (A('t'), A('l'))))], ('record_end', TAGS3)),
    'tuple': (('tuple_begin', TAGS3 + (A('n'),)), [(('tuple_value_begin', (A('t'), A('i'))), ('tuple_value_end', (A('t'), A('i'))))], ('tuple_end', TAGS3)),
    'record_tuple': (('record_tuple_begin', TAGS3 + (A('n'),)),
                     [(('record_tuple_value_begin', (A('t'), A('l'), A('i'))), ('record_tuple_value_end', (A('t'), A('l'), A('i'))))],
                     ('record_tuple_end', TAGS3)),
}


def text_seqs(kind):
    b, e = ('%s_begin' % kind, (A('n'),)), ('%s_end' % kind, ())
    out = [([b, e], None)]
    for n in (1, 2, 3):
        for mask in range(2 ** n):
            frs = [('%s_fragment%s' % (kind, '_computed' if mask >> i & 1 else ''), (A('f%d' % i),)) for i in range(n)]
            out.append(([b] + frs + [e], A('f0') if n == 1 and mask == 0 else None))
    return out


def leaves():
    """(tokens, kind, content) of values that are not containers"""
    yield [('null', ())], 'null', None
    for m in ['bool'] + INTS + ['f32', 'f64']:
        yield [(m, (A('value'),))], m, A('value')
    for k in ('text', 'binary'):
        for toks, c in text_seqs(k):
            yield toks, k, c


def values():
    for toks, k, c in leaves():
        yield toks, k, c
        yield [('tagged_begin', TAGS3)] + toks + [('tagged_end', TAGS3)], k, c
        yield [('enum_begin', TAGS3), ('tagged_begin', TAGS3)] + toks + [('tagged_end', TAGS3), ('enum_end', TAGS3)], k, c
    yield [('tag', TAGS3)], 'tag', None
    yield [('enum_begin', TAGS3), ('tag', TAGS3), ('enum_end', TAGS3)], 'tag', None
    simple = [[('null', ())], [('bool', (A('value'),))]] + [[(m, (A('value'),))] for m in INTS + ['f32', 'f64']] + \
        [[('text_begin', (A('n'),)), ('text_fragment', (A('f0'),)), ('text_end', ())],
         [('binary_begin', (A('n'),)), ('binary_fragment', (A('f0'),)), ('binary_end', ())]]
    for name, (b, items, e) in CONT.items():
        yield [b, e], name, None
        for inner in simple:
            for n in (1, 2):
                toks = [b]
                for _ in range(n):
                    for ib, ie in items:
                        toks += [ib] + inner + [ie]
                yield toks + [e], name, None


class Extractor:
    def __init__(self, crate, name, ty, methods):
        self.c, self.name, self.ty = crate, name, ty
        self.m = Machine(crate, methods, canonf=lambda v: v)

    def drive(self, state, toks):
        """post-states of the paths on which every call succeeded"""
        conf = {state}
        for name, args in toks:
            nxt = set()
            for st in conf:
                if st == 'dead':
                    continue
                for post, evs, kind, t in self.m.call(name, st, args):
                    if kind == 'ok':
                        nxt.add(post)
                    elif kind == 'panic':
                        raise Bad('`%s` may panic: %s' % (name, t['why']))
                    elif kind not in ('err', 'fail'):
                        raise Unknown('%s %s' % (name, kind))
            conf = nxt
            if not conf:
                break
        return conf


def short_toks(toks):
    return ' '.join(m for m, a in toks)


def wrapper(crate, f, name):
    """the conversion function: (initial extractor state, {field the success path returns})"""
    g = run(crate, f)
    if g.incomplete:
        raise Unknown(g.incomplete)
    init = None
    proj = set()
    for n, es in enumerate(g.edges):
        for e, m in es:
            if is_ev(e):
                if e.method != 'stream' or noref(e.recv) not in (A('self'), A('value')):
                    raise Unknown('calls %s' % e.method)
                s = noref(e.args[0])
                if s[0] != 'adt':
                    raise Unknown('extractor %s' % show(s))
                if init is not None and init != s:
                    raise Unknown('several extractors')
                init = s
    if init is None:
        if not any(is_ev(e) for es in g.edges for e, m in es) and all(
                t['kind'] == 'panic' or t['kind'] == 'ret' and noref(t['snap']) == NONE_T for t in g.term.values()):
            raise Bad('gives nothing, whatever the value is: the value is never streamed')
        return None
    for n, t in g.term.items():
        if t['kind'] == 'panic':
            raise Bad('may panic: %s' % t['why'])
    # follow success and failure edges separately
    stack, seen = [(g.start, None)], set()
    while stack:
        n, r = stack.pop()
        if (n, r) in seen:
            continue
        seen.add((n, r))
        if n in g.term:
            if g.term[n]['kind'] == 'ret':
                proj.add((r, noref(g.term[n]['snap'])))
            continue
        for e, m in g.edges[n]:
            stack.append((m, e[1] if is_res(e) else r))
    return init, proj


def impl_groups(crate):
    out = {}
    for f in crate.roots:
        s = f.get('impl_self') or f.get('inh_self') or ''
        tr = (f.get('impl_trait') or f.get('inh_trait') or '').split('::')[-1]
        if tr == 'Stream' and s:
            out.setdefault(s, {})[f['name']] = f
    return out


def check_extractors(crate, rep):
    groups = impl_groups(crate)
    for f in crate.roots:
        if (f.get('trait_default') or '').split('::')[-1] != 'Value' or f.get('inh_self'):
            continue
        name = f['name']
        if name == 'stream' or not (name.startswith('to_') or name == 'tag'):
            continue
        where = fn_where(f)
        try:
            if name in ('to_i8', 'to_i16', 'to_i32', 'to_i64', 'to_u8', 'to_u16', 'to_u32', 'to_u64'):
                if narrow(crate, f, name):
                    rep.ok('narrowing', name)
                    continue
            w = wrapper(crate, f, name)
            if w is None:
                raise Unknown('no extractor')
            init, proj = w
            ty = init[1]
            cand = [k for k in groups if k.split('<')[0].split('::')[-2:] == ty.split('<')[0].split('::')[-2:]]
            if len(cand) != 1:
                raise Unknown('extractor type %s' % ty)
            ex = Extractor(crate, name, ty, groups[cand[0]])
            nfields = len(init[3])
            fld = result_field(name, proj, nfields)
            if name == 'tag':
                check_tag_extract(ex, init, fld)
                rep.ok('extract-tag', name)
                continue
            if opt(init[3][fld])[0] != 'none':
                raise Bad('starts out with something already extracted')
            n = 0
            for toks, kind, content in values():
                for post in ex.drive(init, toks):
                    if noref(post)[0] != 'adt':
                        raise Unknown('state %s' % show(post)[:60])
                    r, v = opt(noref(post)[3][fld])
                    if r == 'none':
                        continue
                    if r == '?':
                        raise Unknown('extracts %s' % show(v)[:60])
                    verdict(name, kind, content, v, toks)
                n += 1
            rep.ok('extract', '%s: %d token sequences' % (name, n))
            complete(ex, name, init, fld)
            rep.ok('extract-complete', name)
        except Bad as e:
            rep.viol('extract:' + name, 'extract', where, '`%s`: %s' % (name, e))
        except Unknown as e:
            rep.inconclusive('extract', where, '%s: %s' % (name, e))


def rng(ty):
    b = BITS[ty]
    return (0, 2 ** b - 1) if ty[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)


def complete(ex, name, init, fld):
    """the value is given whenever it can be: no number that fits, and no single borrowed fragment, is refused"""
    if name in ('to_text', 'to_binary'):
        k = name[3:]
        want = [([('%s_begin' % k, (A('n'),)), ('%s_fragment' % k, (A('f0'),)), ('%s_end' % k, ())], A('f0'))]
    else:
        want = [([(m, (A('value'),))], A('value')) for m in sorted(WANT[name])]
    for toks, content in want:
        st = {init}
        for m, a in toks:
            nxt = set()
            for s in st:
                for post, evs, kind, t in ex.m.call(m, s, a):
                    if kind == 'ok':
                        nxt.add(post)
                        continue
                    if kind not in ('err', 'fail'):
                        raise Unknown('%s %s' % (m, kind))
                    if name[3:] in INTS and m in INTS:
                        lo, hi = rng(m)
                        tl, th = rng(name[3:])
                        nofit = [noref(k)[1] for k, v in t['state'].facts.items() if k[0] == 'fits' and not v and strip_exact(noref(k)[2]) == content]
                        if any(x in INTS and rng(x)[0] <= lo and hi <= rng(x)[1] for x in nofit):
                            continue    # infeasible: it always fits
                        if lo < tl or hi > th:
                            # may only be refused because it does not fit
                            ff = [(noref(k), v) for k, v in t['state'].facts.items() if mentions(noref(k), content)]
                            if any(k[0] == 'fits' and not v and k[1] == name[3:] and strip_exact(k[2]) == content for k, v in ff):
                                continue
                            if any(k[0] != 'fits' for k, v in ff) or any(k[0] == 'fits' and not v and k[1] != name[3:] and k[1] not in INTS for k, v in ff):
                                raise Unknown('refuses under %s' % [show(k) for k, v in ff][:2])
                            raise Bad('refuses a `%s` that fits' % m)
                    raise Bad('refuses the value streamed as `%s`' % short_toks(toks))
            st = nxt
        for post in st:
            r, v = opt(noref(post)[3][fld])
            if r == 'none':
                raise Bad('gives nothing for the value streamed as `%s`' % short_toks(toks))


def verdict(name, kind, content, v, toks):
    what = 'the value streamed as `%s`' % short_toks(toks)
    if name == 'to_text' and kind == 'tag':
        # a bare tag lowers to its label as text
        if mentions(noref(v), A('label')) and noref(v)[0] in ('fld', 'vfld', 'arg'):
            return
        raise Bad('%s converts to %s' % (what, show(v)[:60]))
    if name in ('to_text', 'to_binary'):
        if kind != name[3:] or content is None:
            raise Bad('%s converts to %s' % (what, show(v)[:60]))
        if noref(v) != content:
            raise Bad('%s converts to %s' % (what, show(v)[:60]))
        return
    if kind not in WANT[name]:
        raise Bad('%s converts to %s' % (what, show(v)[:60]))
    if strip_exact(v) != content:
        raise Bad('%s converts to %s, which is not always the same number' % (what, show(v)[:80]))


def result_field(name, proj, nfields):
    fld = None
    for r, v in proj:
        if r == 'err' and name != 'tag':
            if v != NONE_T:
                raise Bad('gives %s although streaming the value failed' % show(v)[:60])
            continue
        if v == NONE_T:
            continue
        k = None
        x = v
        if x[0] == 'fld' and isinstance(x[2], int):
            k = x[2]
        else:
            # a field of the extractor, as streaming left it
            if x[0] == 'havoc' and len(x) == 3 and len(x[2]) == 2:
                k = x[2][1]
        if k is None:
            raise Unknown('returns %s' % show(v)[:80])
        if fld is not None and fld != k:
            raise Unknown('returns several fields')
        fld = k
    if fld is None:
        raise Bad('never gives anything, whatever the value streams')
    return fld


def narrow(crate, f, name):
    """defined by a wider conversion of the same value: must only give what fits, unchanged. False: not defined that way"""
    ty = name[3:]
    g = run(crate, f)
    if g.incomplete:
        raise Unknown(g.incomplete)
    any_some = False
    for evs, t in ok_paths(g):
        if t['kind'] == 'panic':
            raise Bad('may panic: %s' % t['why'])
        if t['kind'] != 'ret':
            continue
        ms = [e for e in evs if is_ev(e)]
        if any(e.method == 'stream' for e in ms):
            return False
        if len(ms) != 1 or noref(ms[0].recv) not in (A('self'), A('value')) or not ms[0].method.startswith('to_'):
            raise Unknown('calls %s' % [e.method for e in ms])
        src = ms[0].method[3:]
        if src not in INTS:
            raise Bad('is defined by `%s`' % ms[0].method)
        r, v = opt(t['snap'])
        if r == 'none':
            continue
        if r == '?':
            raise Unknown('returns %s' % show(v)[:60])
        any_some = True
        if mentions_any(v, lambda x: isinstance(x, tuple) and x and x[0] == 'cast'):
            raise Bad('gives %s, which is not always the same number' % show(v)[:80])
        base = strip_exact(v)
        if mentions_any(base, lambda x: isinstance(x, tuple) and x and x[0] in ('bin', 'un', 'i')):
            raise Bad('gives %s' % show(v)[:80])
    if not any_some:
        raise Bad('never gives anything')
    return True


NUM = 'NUMBER'


def check_tag_extract(ex, init, fld):
    firsts = []
    for m in INTS + ['f32', 'f64']:
        firsts.append(((m, (A('value'),)), NUM))
    for m in ('tag', 'tagged_begin', 'enum_begin'):
        firsts.append(((m, TAGS3), A('tag')))
    for m in ('record_begin', 'tuple_begin', 'record_tuple_begin'):
        firsts.append(((m, TAGS3 + (A('n'),)), A('tag')))
    for m, a in (('null', ()), ('bool', (A('value'),)), ('text_begin', (A('n'),)), ('binary_begin', (A('n'),)), ('seq_begin', (A('n'),)), ('map_begin', (A('n'),))):
        firsts.append(((m, a), None))

    def tag_of(post, want):
        v = noref(noref(post)[3][fld])
        r, x = opt(v)
        if want is None:
            return r == 'none'
        if want == NUM:
            return r == 'some' and mentions_any(x, lambda y: isinstance(y, tuple) and y[:1] == ('str',) and y[1] == 'NUMBER')
        if r == '?':
            return clean(v, want)
        if r == 'none':
            return None
        return clean(x, want)

    posts = set()
    for (m, a), want in firsts:
        for post, evs, kind, t in ex.m.call(m, init, a):
            if kind == 'panic':
                raise Bad('`%s` may panic' % m)
            # the extractor's result is used whether or not streaming succeeded
            ok = tag_of(post, want)
            if ok is None:
                # tag absent on this path?
                if not any(noref(k) == ('discr', want) and v == 0 or noref(k) == ('excl', ('discr', want)) and 1 in v for k, v in t['state'].facts.items()):
                    raise Bad('a value that begins with `%s` has no tag' % m)
                ok = True
            if not ok:
                raise Bad('a value that begins with `%s` has the tag %s' % (m, show(noref(post)[3][fld])[:60]))
            if kind == 'ok':
                posts.add(post)
    second = [(m, (A('value2'),)) for m in INTS + ['f32', 'f64', 'bool']] + [('null', ())] + \
        [(m, (A('tag2'), A('label2'), A('index2'))) for m in ('tag', 'tagged_begin', 'enum_begin')] + \
        [(m, (A('tag2'), A('label2'), A('index2'), A('n'))) for m in ('record_begin', 'tuple_begin', 'record_tuple_begin')]
    for p in posts:
        for m, a in second:
            for post, evs, kind, t in ex.m.call(m, p, a):
                if noref(noref(post)[3][fld]) != noref(noref(p)[3][fld]):
                    raise Bad('the tag of an inner `%s` replaces the tag of the value' % m)
                if kind == 'panic':
                    raise Bad('`%s` may panic' % m)


def clean(x, want):
    """x is (a copy of) want"""
    x = noref(x)
    if x[0] == 'adt' and x[3]:
        # a struct rebuilt from the fields of another
        return all(y[0] in ('fld', 'vfld') and y[-1] == i and clean(y, want) for i, y in enumerate(map(noref, x[3])))
    while x[0] in ('fld', 'vfld') or x[0] == 'app' and str(x[1]).split('::')[-1] in ('clone', 'cloned', 'copied', 'to_owned'):
        x = noref(x[1] if x[0] != 'app' else x[2][0])
    return x == want


def check_overrides(crate, rep):
    """conversions written by hand"""
    for f in crate.roots:
        if (f.get('impl_trait') or '').split('::')[-1] != 'Value' or f.get('inh_self'):
            continue
        name, ty = f['name'], f.get('impl_self') or ''
        if not name.startswith('to_') and name != 'tag':
            continue
        where = fn_where(f)
        key = 'override:%s' % fkey(crate, f)
        try:
            g = run(crate, f)
            if g.incomplete:
                raise Unknown(g.incomplete)
            for evs, t in ok_paths(g):
                if t['kind'] == 'panic':
                    raise Bad('may panic: %s' % t['why'])
                if t['kind'] != 'ret':
                    continue
                ms = [e for e in evs if is_ev(e)]
                r, v = opt(t['snap'])
                if name == 'tag':
                    override_tag(crate, f, ty, r, v, ms)
                    continue
                if r == 'none':
                    if not ms and not any('discr' in repr(k) for k in t['state'].facts):
                        # unconditional None: conversions of this type are pointless but sound
                        pass
                    continue
                if ms:
                    if len(ms) != 1 or ms[0].method != name:
                        raise Bad('answers with `%s`' % ms[-1].method)
                    if not mentions(noref(ms[0].recv), A('self')):
                        raise Bad('asks something other than its content')
                    if r == '?':
                        continue
                    if mentions_any(v, lambda x: isinstance(x, tuple) and x and x[0] in ('cast', 'bin')):
                        raise Bad('changes the answer to %s' % show(v)[:60])
                    continue
                if r == '?':
                    raise Unknown('returns %s' % show(v)[:60])
                x = strip_exact(v)
                if mentions_any(x, lambda y: isinstance(y, tuple) and y and y[0] in ('cast', 'bin', 'un', 'slice')):
                    raise Bad('gives %s' % show(v)[:60])
                if x[0] in ('i', 'str', 'lit'):
                    raise Bad('gives the constant %s' % show(v)[:60])
                base = x
                while base[0] in ('fld', 'vfld') or base[0] == 'app' and str(base[1]).split('::')[-1] in ('as_str', 'as_bytes', 'deref', 'as_ref', 'as_slice', 'clone', 'borrow'):
                    base = noref(base[2][0] if base[0] == 'app' else base[1])
                if base != A('self'):
                    if mentions(base, A('self')):
                        raise Unknown('gives %s' % show(v)[:60])
                    raise Bad('gives %s' % show(v)[:60])
                want = name[3:]
                if ty in SCALARS and ty != want and not (x != noref(v)):
                    raise Bad('a %s is given as %s' % (ty, want))
            rep.ok('override', '%s for %s' % (name, ty))
        except Bad as e:
            rep.viol(key, 'override', where, '`%s` of %s: %s' % (name, ty, e))
        except Unknown as e:
            rep.inconclusive('override', where, '%s of %s: %s' % (name, ty, e))


def override_tag(crate, f, ty, r, v, ms):
    """must be the tag streaming begins with"""
    if ms:
        if len(ms) != 1 or ms[0].method != 'tag' or not mentions(noref(ms[0].recv), A('self')):
            raise Bad('answers with `%s`' % ms[-1].method)
        return
    sf = [x for x in crate.roots if x['name'] == 'stream' and (x.get('impl_trait') or '').split('::')[-1] == 'Value' and x.get('impl_self') == ty]
    if len(sf) != 1:
        raise Unknown('no stream')
    g = run(crate, sf[0])
    if g.incomplete:
        raise Unknown(g.incomplete)
    stream = noref(argnames(crate, sf[0])[1])
    for evs, t in ok_paths(g):
        ev = [e for e in evs if is_ev(e) and noref(e.recv) == stream]
        if not ev:
            continue
        m = ev[0].method
        if m in ('tag', 'tagged_begin', 'enum_begin', 'record_begin', 'tuple_begin', 'record_tuple_begin'):
            want = noref(ev[0].args[0])
            if r == '?' or want[0] != 'adt':
                raise Unknown('tag')
            if r == 'none' and want == NONE_T or r == 'some' and want[2] == 1 and noref(v) == noref(want[3][0]):
                continue
            raise Bad('says %s but streams the tag %s' % (show(v) if v else 'None', show(want)))
        if m in INTS + ['f32', 'f64']:
            if r != 'some' or 'NUMBER' not in repr(v):
                raise Bad('a number without the number tag')
        elif m in ('value', 'value_computed'):
            raise Unknown('tag of a nested value')
        elif r == 'some':
            raise Bad('says %s but streams no tag' % show(v))


def p06(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        rep.cfg = cfg
        crate = ctx.crate('sval', cfg)
        if cfg == 'full' or ctx.tier != 'quick':
            check_extractors(crate, rep)
        check_overrides(crate, rep)
    rep.cfg = 'full'
    for cn in ('sval_json', 'sval_fmt', 'sval_buffer', 'sval_nested', 'sval_serde'):
        c = ctx.crate(cn)
        if c is not None:
            check_overrides(c, rep)
