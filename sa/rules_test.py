"""P19: the test tokens are a faithful record of the calls a value makes, and the assertions decide by them.

Every method of the token buffer is interpreted with symbolic arguments: it must push exactly the token named after it with those arguments.
The assertions may only return normally when the value streamed and the tokens compared equal (or it failed, for the opposite assertion), and
two tokens are only equal when they are of the same kind and every part of them is."""
from common import fn_where, pmap
from interp import Interp, Incomplete, show
from lib import *
from reps import NONE, SOME, Reps
from rules_data import content

OWN = {'value', 'value_computed'}


def camel(n):
    return ''.join(x.capitalize() for x in n.split('_'))


def token_ty(c):
    for t in c.tys:
        if t.get('path') == 'Token' and 'variants' in t:
            return t
    return None


def label_key(v):
    """a label up to its representation: text and tag"""
    if isinstance(v, tuple) and v and v[0] == 'adt' and v[1].split('::')[-1] == 'Label':
        return ('label', content(v[3][0]), content(v[3][-2]))
    if isinstance(v, tuple) and v and v[0] == 'adt':
        return ('adt', v[1].split('::')[-1], v[2], tuple(label_key(x) for x in v[3] if not (x[0] == 'adt' and 'PhantomData' in x[1])))
    if isinstance(v, tuple) and v and v[0] in ('&', 'deref', 'wrapv'):
        return label_key(v[1])
    return content(v)


def record(c, reps, rep, f, tok):
    name = f['name']
    where = fn_where(f)
    want = [i for i, v in enumerate(tok['variants']) if v['name'] == camel(name)]
    if not want:
        rep.inconclusive('record', where, 'there is no token called %s' % camel(name))
        return
    it = Interp(c)
    names = it.default_args(f)[1:]
    tag = ('adt', 'sval::Tag', 0, (('arg', 'id'), ('arg', 'name')))
    ltag = ('adt', 'sval::Tag', 0, (('arg', 'lid'), ('arg', 'lname')))
    itag = ('adt', 'sval::Tag', 0, (('arg', 'iid'), ('arg', 'iname')))
    tys = [c.ty(l[0] if isinstance(l, list) else l) for l in f['locals'][2:2 + len(names)]]
    for present in (False, True):
        args, exp = [], []
        for a, ty in zip(names, tys):
            s = ty['s']
            opt = s.startswith(('core::option::Option', 'std::option::Option', 'Option'))
            if opt and 'usize' in s:
                args.append(a), exp.append(a)
                continue
            x = None
            if 'Tag' in s:
                x = tag
            elif 'Label' in s:
                x = reps.label(('arg', 'text'), ltag)
            elif 'Index' in s:
                x = reps.ctor('Index::new_u64', [('arg', 'number')])
                x = reps.ctor('Index::with_tag', [x, ('&', itag)])
            if x is None:
                args.append(a), exp.append(a)
            elif opt:
                args.append(SOME(('&', x)) if present else NONE), exp.append(SOME(x) if present else NONE)
            else:
                args.append(('&', x)), exp.append(x)
        it = Interp(c, force_event=lambda cc, a: bool(a) and mentions(a[0], ('arg', 'self')) and (cc.get('path') or '').split('::')[-1] == 'push' and 'TokenBuf' not in (cc.get('path') or ''))
        try:
            g = it.run(f, [('arg', 'self')] + args)
            if g.incomplete or g.cyclic():
                raise Incomplete(str(g.incomplete or 'a loop'))
            ps = g.paths()
        except Incomplete as e:
            rep.inconclusive('record', where, str(e))
            return
        for evs, t in ps:
            es = [e for e in evs if is_ev(e)]
            if t['kind'] == 'unreachable':
                continue
            key = '%s:%s' % (name, 'present' if present else 'absent')
            if t['kind'] != 'ret' or res_kind(t) != 'ok':
                rep.viol('record:' + key, 'record', where, '%s does not succeed' % name)
                return
            if len(es) != 1 or len(es[0].args) != 1 or es[0].args[0][0] != 'adt':
                if not es:
                    # recorded in another way, or not at all
                    if any(mentions(x, ('arg', 'self')) for x in t['state'].mem.values() if isinstance(x, tuple) and x and x[0] == 'upd'):
                        rep.inconclusive('record', where, 'not recorded with push')
                    else:
                        rep.inconclusive('record', where, 'no token is pushed') if g.escapes else \
                            rep.viol('record:' + key, 'record', where, '%s records nothing' % name)
                elif len(es) > 1 and all(e.method == 'push' for e in es):
                    rep.viol('record:' + key, 'record', where, '%s records %d tokens' % (name, len(es)))
                else:
                    rep.inconclusive('record', where, 'records with %s' % [e.method for e in es])
                return
            got = es[0].args[0]
            if got[2] != want[0]:
                rep.viol('record:' + key, 'record', where, '%s records the token %s' % (name, tok['variants'][got[2]]['name']))
                return
            for x, y in zip(got[3], exp):
                if label_key(x) != label_key(y):
                    rep.viol('record:' + key, 'record', where, '%s records %s instead of %s' % (name, show(content(x))[:80], show(content(y))[:80]))
                    return
            if len(got[3]) != len(exp):
                rep.inconclusive('record', where, 'the token has %d parts' % len(got[3]))
                return
        rep.ok('record', where)


def asserts(c, rep):
    quiet = ('as_tokens', 'new', 'deref', 'fail', 'as_slice', 'branch', 'as_ref', 'default')
    for f in c.roots:
        name = f['path'].split('::')[-1]
        if name not in ('assert_tokens', 'assert_valid', 'assert_invalid'):
            continue
        where = fn_where(f)

        def fe(cc, a):
            p = cc.get('path') or ''
            if 'result::Result' in p or 'option::Option' in p:
                return False
            return p.split('::')[-1] not in quiet and not (cc.get('inst') is not None and (c.fns.get(cc['inst']) or {}).get('crate') == c.name and
                                                          not cc.get('trait'))
        it = Interp(c, force_event=fe)
        try:
            g = it.run(f, it.default_args(f))
            if g.incomplete or g.cyclic():
                raise Incomplete(str(g.incomplete or 'a loop'))
            ps = g.paths()
        except Incomplete as e:
            rep.inconclusive('assert', where, str(e))
            continue
        bad = None
        unsure = None
        passes = False
        for evs, t in ps:
            if t['kind'] != 'ret':
                continue
            passes = True
            st = [e for e in evs if is_ev(e) and e.method in ('stream', 'stream_ref', 'value', 'value_computed')]
            ok = {e[2]: e[1] for e in evs if is_res(e)}
            if not st:
                bad = 'passes without streaming the value'
                continue
            res = [e[1] for e in evs if is_res(e) and e[2] in st]
            want = 'err' if name == 'assert_invalid' else 'ok'
            if want not in res:
                asked = [e for e in evs if is_ev(e) and e not in st and mentions_any(('t', e.recv) + tuple(e.args), lambda x: x in [y.ret for y in st])]
                if not res and asked:
                    unsure = 'the result is judged by %s' % asked[0].method
                    continue
                bad = 'passes when streaming %s' % ('succeeds' if want == 'err' else 'fails')
                continue
            if name == 'assert_tokens':
                eqs = [e for e in evs if is_ev(e) and e.method in ('eq', 'ne') and mentions_any(('t', e.recv) + tuple(e.args), lambda x: x == ('arg', 'tokens'))]
                if not eqs:
                    calls = [e for e in evs if is_ev(e) and e not in st and mentions_any(('t', e.recv) + tuple(e.args), lambda x: x == ('arg', 'tokens'))]
                    if calls:
                        unsure = 'compares the tokens with %s' % calls[0].method
                    else:
                        bad = 'passes without comparing the tokens'
                    continue
                e = eqs[-1]
                whole = [x for x in (e.recv,) + tuple(e.args) if content(x) == ('arg', 'tokens')]
                part = [x for x in (e.recv,) + tuple(e.args) if mentions_any(x, lambda z: isinstance(z, tuple) and len(z) > 1 and (
                    z[0] in ('slice', 'range') or z[0] == 'app' and str(z[1]).split('::')[-1] in ('index', 'split_at', 'take', 'skip')))]
                if part:
                    bad = 'compares only a part of the tokens'
                    continue
                if not whole:
                    unsure = 'compares %s' % show(e.recv)[:60]
                    continue
                v = t['state'].facts.get(e.ret)
                if v is None:
                    bad = 'passes whatever the comparison of the tokens gives'
                elif v != (1 if e.method == 'eq' else 0):
                    bad = 'passes when the tokens differ'
        if bad:
            rep.viol('assert:%s' % name, 'assert', where, '%s %s' % (name, bad))
        elif unsure:
            rep.inconclusive('assert', where, unsure)
        elif not passes:
            rep.viol('assert:%s' % name, 'assert', where, '%s never passes' % name)
        else:
            rep.ok('assert', where)


def token_eq(c, rep, tok):
    fs = [f for f in c.roots if f.get('name') == 'eq' and (f.get('impl_trait') or '').endswith('PartialEq') and (f.get('impl_self') or '').startswith('Token<')]
    if len(fs) != 1:
        return
    f = fs[0]
    where = fn_where(f)
    n = len(tok['variants'])
    for k, v in enumerate(tok['variants']):
        m = len(v['fields'])
        a = ('adt', 'Token', k, tuple(('arg', 'a%d' % i) for i in range(m)))
        b = ('adt', 'Token', k, tuple(('arg', 'b%d' % i) for i in range(m)))
        j = (k + 1) % n
        o = ('adt', 'Token', j, tuple(('arg', 'b%d' % i) for i in range(len(tok['variants'][j]['fields']))))
        for x, y, same in ((a, b, True), (a, o, False)):
            fields = [('arg', '%s%d' % (q, i)) for q in 'ab' for i in range(m + 2)]
            it = Interp(c, force_event=lambda cc, aa: (cc.get('path') or '').split('::')[-1] in ('eq', 'ne'))
            try:
                g = it.run(f, [('&', x), ('&', y)])
                if g.incomplete or g.cyclic():
                    raise Incomplete(str(g.incomplete or 'a loop'))
                ps = g.paths()
            except Incomplete as e:
                rep.inconclusive('token equality', where, '%s: %s' % (v['name'], e))
                continue
            bad = None
            for evs, t in ps:
                if t['kind'] != 'ret' or t['ret'] == ('i', 0):
                    continue
                if not same:
                    bad = 'a token %s can equal a token %s' % (v['name'], tok['variants'][j]['name'])
                    continue
                terms = list(t['state'].facts) + [t['ret']] + [('t', e.recv) + tuple(e.args) for e in evs if is_ev(e)]
                for i in range(m):
                    p, q = ('arg', 'a%d' % i), ('arg', 'b%d' % i)
                    if not any(mentions(z, p) and mentions(z, q) for z in terms if isinstance(z, tuple)):
                        bad = 'tokens %s are equal whatever part %d of them is' % (v['name'], i)
            if bad:
                rep.viol('eq:%s' % v['name'], 'token equality', where, bad)
            else:
                rep.ok('token equality', where)


def p19(ctx, rep):
    ctx.prepare(['full'])
    c = ctx.crate('sval_test', 'full')
    sv = ctx.crate('sval', 'full')
    reps = Reps(ctx)
    tok = token_ty(c)
    if tok is None:
        rep.inconclusive('record', 'test/src/lib.rs', 'no enum of tokens')
        return
    have = {}
    for f in c.roots:
        if (f.get('impl_trait') or '').endswith('::Stream') and (f.get('impl_self') or '').startswith('TokenBuf'):
            have[f['name']] = f
    methods = {f['name'] for f in sv.roots if (f.get('trait_default') or '').endswith('stream::Stream') and f.get('name')}
    for m in sorted(methods - set(have) - OWN):
        if any(v['name'] == camel(m) for v in tok['variants']):
            rep.viol('record:' + m, 'record', 'test/src/lib.rs', 'calls to %s are recorded as what its default implementation calls' % m)
    for m, f in sorted(have.items()):
        if m not in OWN:
            record(c, reps, rep, f, tok)
    asserts(c, rep)
    token_eq(c, rep, tok)
