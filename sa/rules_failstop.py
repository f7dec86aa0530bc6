"""P03: the first failure stops everything and is what the caller sees."""
from common import fn_where, pmap
from interp import Incomplete, show
from lib import *

CRATES = ['sval', 'sval_ref', 'sval_dynamic', 'sval_json', 'sval_fmt', 'sval_buffer', 'sval_nested', 'sval_flatten',
          'sval_serde', 'sval_corpus']


def returns_result(crate, f):
    t = crate.ty(f['locals'][0][0])
    return (t.get('path') or '').endswith('Result')


def carries_error(t, ev):
    """terminal value carries the failure of ev (Err, or an error stored inside the returned value)"""
    if t['kind'] != 'ret':
        return False
    if res_kind(t) == 'err':
        return True
    s = t['snap']
    if mentions(s, ('err', ev.ret)):
        return True
    return False


def opaque_result(t):
    return t['kind'] == 'ret' and res_kind(t) == 'other'


CTOR_TRAITS = ('Error',)


def after_error(g, m):
    """events and terminals reachable after an error edge"""
    st, vis, evs, terms = [m], {m}, [], []
    while st:
        x = st.pop()
        if x in g.term:
            terms.append(g.term[x])
            continue
        for e, y in g.edges[x]:
            if is_ev(e):
                if e.trait.split('::')[-1] in CTOR_TRAITS or 'serde' in e.trait and e.method == 'custom':
                    pass
                else:
                    evs.append(e)
                    continue
            if y not in vis:
                vis.add(y)
                st.append(y)
    return evs, terms


def buffered(cf, c):
    """replaying a buffer is a call that may fail, analysed on its own"""
    return cf.get('name') == 'stream_ref' and 'sval_buffer' in (cf.get('impl_self') or '')


def check_fn(crate, f, rep, rule='fail-stop', opaque=None, g=None):
    if f.get('closure') or not f.get('name') or not f['blocks'] or not returns_result(crate, f):
        return
    if '::default_value::' in f['path'] and 'Extract' in f['path']:
        return
    where = fn_where(f)
    if g is None:
        kw = {'opaque_inst': opaque} if opaque else {}
        g = run(crate, f, **kw)
    errs = [(e[2], m) for es in g.edges for e, m in es if is_res(e, 'err')]
    if not errs:
        return
    if g.incomplete:
        rep.inconclusive(rule, where, g.incomplete)
        return
    bad = False
    for ev, m in errs:
        evs, terms = after_error(g, m)
        key = '%s:%s:%s' % (rule, fkey(crate, f), ev.method)
        io = ev.trait.endswith('io::Write')
        if evs and not (io and all(e.trait.endswith('io::Write') for e in evs)):
            rep.viol(key, rule, where, 'after `%s` fails (%s) the code still calls `%s`' % (ev.method, ev.site, evs[0].method))
            bad = True
            continue
        for t in terms:
            if t['kind'] == 'panic':
                rep.viol(key, rule, where, 'a failure of `%s` (%s) panics instead of being returned: %s' % (ev.method, ev.site, t['why']))
                bad = True
                break
            if t['kind'] == 'ret' and not carries_error(t, ev):
                if opaque_result(t) and mentions(t['snap'], ('err', ev.ret)):
                    continue
                if opaque_result(t) and t['snap'][0] in ('app', 'ret'):
                    rep.inconclusive(rule, where, 'opaque result %s' % show(t['snap'])[:80])
                    continue
                rep.viol(key, rule, where, 'a failure of `%s` (%s) is swallowed: returns %s' % (ev.method, ev.site, show(t['snap'])[:80]))
                bad = True
                break
    if not bad:
        rep.ok(rule, where)


def p03(ctx, rep):
    def go(task, r):
        crate, cfg, fns = task
        r.cfg = cfg
        for f in fns:
            check_fn(crate, f, r, opaque=buffered)
    pmap(rep, ctx.each(CRATES), go)
    rep.floor('fail-stop', 500)
