"""P01: transparent adapters forward every token and every conversion unchanged."""
from common import fn_where
from interp import Incomplete, show
from lib import *


def is_forwarder_impl(crate, f):
    tr = (f.get('impl_trait') or '').split('::')[-1]
    s = f.get('impl_self') or ''
    if crate.name == 'sval':
        if tr == 'Stream':
            return s == '&mut S' or s.endswith('Box<S>') or s.endswith('Computed<S>')
        if tr == 'Value':
            return s == '&T' or s.endswith('Box<T>')
    if crate.name == 'sval_dynamic':
        return tr in ('Stream', 'Value') and s.startswith('dyn ') or tr in ('DispatchStream', 'DispatchValue')
    if crate.name == 'sval_ref':
        if tr == 'Value':
            return s == 'Ref<V>'
        if tr == 'ValueRef':
            return s in ('&T', 'Ref<&V>') or s.endswith('Box<T>')
    if crate.name == 'sval_fmt':
        return tr == 'TokenWrite' and s == '&mut W'
    if crate.name == 'sval_flatten':
        return tr in ('Stream', 'LabelStream') and (s.startswith('map::PassThru') or s == '&mut S')
    return False


def check_forward(crate, f, m, rep, dispatch=None):
    """every path of f is exactly one call `m` on the wrapped object with f's own arguments,
    and f returns what that call returned"""
    rule = 'forward'
    where = fn_where(f)
    key = 'forward:' + fkey(crate, f)
    g = run(crate, f)
    if g.incomplete:
        rep.inconclusive(rule, where, g.incomplete)
        return
    try:
        paths = g.paths()
    except Incomplete as e:
        rep.viol(key, rule, where, 'forwarding method loops (%s)' % e)
        return
    args = [noref(a) for a in argnames(crate, f)]
    comp = 'Computed<S>' in (f.get('impl_self') or '')
    n = 0
    for evs, t in paths:
        if t['kind'] == 'unreachable':
            continue
        if t['kind'] != 'ret':
            rep.viol(key, rule, where, 'a path of the adapter ends in %s: %s' % (t['kind'], t['why']))
            return
        calls = [e for e in evs if is_ev(e)]
        if len(calls) != 1:
            rep.viol(key, rule, where, 'a path makes %d calls %s instead of forwarding `%s` once'
                     % (len(calls), [repr(c) for c in calls], m))
            return
        ev = calls[0]
        meth, recv, eargs = ev.method, noref(ev.recv), [noref(a) for a in ev.args]
        names = {m}
        if dispatch is not None:
            if ev.trait.split('::')[-1].startswith('Dispatch'):
                meth = dispatch.get(meth, meth)
        if comp and m in DEMOTE:
            names = {DEMOTE[m]}
        if m in ('value', 'value_computed') and meth == 'stream':
            # recursing into the value with this very adapter as the stream is the same thing
            tgt = noref(eargs[0]) if eargs else None
            if recv == args[1] and (tgt == args[0] or mentions(tgt, args[0])):
                if m == 'value_computed' and not comp and not mentions_any(
                        tgt, lambda x: isinstance(x, tuple) and x and x[0] == 'adt' and 'Computed' in x[1]) \
                        and 'Computed' not in str(ev.tys):
                    rep.viol(key, rule, where, 'value_computed streams the value as if it were borrowed')
                    return
                n += 1
                continue
        if m == 'stream_ref' and meth == 'stream_ref' or m in ('stream',) and meth in ('stream', 'value', 'value_ref', 'stream_ref'):
            # value adapters: inner.stream(stream)
            pass
        if meth not in names and not (m == 'stream_ref' and meth in ('stream_ref', 'stream', 'value')):
            rep.viol(key, rule, where, '`%s` is forwarded as `%s`' % (m, ev.method))
            return
        if not mentions(recv, args[0]) and not (m == 'stream_ref' and recv == args[1]):
            rep.viol(key, rule, where, '`%s` is forwarded to %s, which is not the wrapped object' % (m, show(ev.recv)))
            return
        if m in ('stream', 'stream_ref') and meth == 'value':
            ok = recv == args[1] and mentions(eargs[0], args[0])
        else:
            ok = eargs == args[1:]
        if not ok:
            rep.viol(key, rule, where, '`%s` is forwarded with arguments (%s) instead of its own'
                     % (m, ', '.join(show(a) for a in ev.args)))
            return
        res = [e for e in evs if is_res(e)]
        rk = res_kind(t)
        if res:
            if res[0][1] == 'err' and rk != 'err':
                rep.viol(key, rule, where, 'an error from the wrapped `%s` is not returned' % m)
                return
            if res[0][1] == 'ok' and rk != 'ok':
                rep.viol(key, rule, where, 'success of the wrapped `%s` is returned as %s' % (m, show(t['snap'])))
                return
        elif noref(t['snap']) != noref(ev.ret) and t['snap'] != UNIT:
            rep.viol(key, rule, where, 'returns %s instead of the result of the wrapped `%s`' % (show(t['snap']), m))
            return
        n += 1
    if n == 0:
        rep.viol(key, rule, where, 'no path forwards `%s`' % m)
        return
    rep.ok(rule, where)


def dispatch_map(crate, rep):
    """what each object-safe dispatch method of the dynamic crate forwards to"""
    out = {}
    for f in crate.roots:
        tr = (f.get('impl_trait') or '').split('::')[-1]
        if not tr.startswith('Dispatch'):
            continue
        g = run(crate, f)
        if g.incomplete:
            continue
        ms = {e.method for es in g.edges for e, _ in es if is_ev(e)}
        if len(ms) == 1:
            out[f['name']] = list(ms)[0]
    return out


def check_optional(crate, f, m, rep):
    """conversions on an optional value: None, or exactly the inner value's conversion"""
    rule = 'forward-optional'
    where = fn_where(f)
    key = 'forward:' + fkey(crate, f)
    g = run(crate, f)
    if g.incomplete:
        rep.inconclusive(rule, where, g.incomplete)
        return
    try:
        paths = g.paths()
    except Incomplete as e:
        rep.inconclusive(rule, where, str(e))
        return
    for evs, t in paths:
        calls = [e for e in evs if is_ev(e)]
        if t['kind'] == 'unreachable':
            continue
        if t['kind'] != 'ret':
            rep.viol(key, rule, where, 'may panic: %s' % t['why'])
            return
        if not calls:
            if not (t['ret'][0] == 'adt' and t['ret'][2] == 0):
                rep.viol(key, rule, where, 'returns %s without asking the inner value' % show(t['snap']))
                return
        elif len(calls) != 1 or calls[0].method != m or noref(t['snap']) != noref(calls[0].ret):
            rep.viol(key, rule, where, 'does not return the inner value\'s `%s` (%s -> %s)' % (m, calls, show(t['snap'])))
            return
    if not any(e.method == m for es in g.edges for e, _ in es if is_ev(e)):
        rep.viol(key, rule, where, 'never asks the inner value for `%s`' % m)
        return
    rep.ok(rule, where)


MUST_OVERRIDE_EXEMPT = {'value', 'value_computed'}


def check_entry(crate, f, rep):
    """the functions that stream a value: the value itself goes to the stream, once, as borrowed as it was given"""
    where, key, n = fn_where(f), 'entry:' + fkey(crate, f), f['path'].split('::')[-1]
    g = run(crate, f)
    if g.incomplete:
        rep.inconclusive('entry', where, g.incomplete)
        return
    try:
        paths = g.paths()
    except Incomplete as e:
        rep.inconclusive('entry', where, str(e))
        return
    args = [noref(a) for a in argnames(crate, f)]
    if len(args) != 2:
        return
    for evs, t in paths:
        if t['kind'] == 'unreachable':
            continue
        if t['kind'] != 'ret':
            rep.viol(key, 'entry', where, 'streaming may end in %s: %s' % (t['kind'], t['why']))
            return
        calls = [e for e in evs if is_ev(e)]
        if len(calls) != 1:
            rep.viol(key, 'entry', where, 'the value is streamed by the calls %s instead of one' % [e.method for e in calls])
            return
        e = calls[0]
        recv, arg = noref(e.recv), noref(e.args[0]) if e.args else None
        if e.method in ('value', 'value_computed', 'value_ref') and recv == args[0] and (arg == args[1] or mentions(arg, args[1])):
            if e.method == 'value_computed' and n in ('stream', 'stream_ref') and crate.name != 'sval_serde':
                rep.viol(key, 'entry', where, 'a borrowed value is streamed as a computed one')
                return
        elif e.method in ('stream', 'stream_ref') and recv == args[1] and (arg == args[0] or mentions(arg, args[0])):
            if n in ('stream', 'stream_ref') and arg != args[0] and mentions_any(
                    arg, lambda x: isinstance(x, tuple) and x and x[0] == 'adt' and 'Computed' in str(x[1])):
                rep.viol(key, 'entry', where, 'a borrowed value is streamed as a computed one')
                return
        else:
            rep.inconclusive('entry', where, 'calls %s' % e.method)
            return
        res = [x[1] for x in evs if is_res(x)]
        rk = res_kind(t)
        if res and (res[0] == 'err') != (rk == 'err') and rk != 'other':
            rep.viol(key, 'entry', where, 'reports %s when streaming gives %s' % (rk, res[0]))
            return
        if not res and noref(t['snap']) != noref(e.ret):
            if rk in ('ok', 'err'):
                rep.viol(key, 'entry', where, 'reports %s whatever streaming gives' % rk)
                return
            rep.inconclusive('entry', where, 'returns %s' % show(t['snap'])[:60])
            return
    rep.ok('entry', where)


def p01(ctx, rep):
    for cfg in ctx.configs():
        rep.cfg = cfg
        sv = ctx.crate('sval', cfg)
        trait_methods = {'Stream': [m[0] for m in sv.traits['stream::Stream']['methods']],
                         'Value': [m[0] for m in sv.traits['value::Value']['methods']]}
        for name in ('sval', 'sval_dynamic', 'sval_ref', 'sval_fmt', 'sval_flatten'):
            crate = ctx.crate(name, cfg)
            if crate is None:
                continue
            disp = dispatch_map(crate, rep) if name == 'sval_dynamic' else None
            for f in crate.roots:
                if f['path'] in ('stream', 'stream_computed', 'stream_ref') and not f.get('impl_trait') and f.get('blocks'):
                    check_entry(crate, f, rep)
                if f.get('impl_trait') and is_forwarder_impl(crate, f):
                    tr = f['impl_trait'].split('::')[-1]
                    m = f['name']
                    if tr.startswith('Dispatch'):
                        m = disp.get(m)
                        # the object-safe name must stand for exactly one method, decided from the
                        # methods that use it (checked below); here: it must forward faithfully
                        if m is None:
                            rep.viol('forward:' + fkey(crate, f), 'forward', fn_where(f), 'does not forward to one method')
                            continue
                    if tr == 'LabelStream':
                        continue
                    check_forward(crate, f, m, rep, disp)
                elif name == 'sval' and (f.get('impl_trait') or '').endswith('Value') \
                        and 'Option<T>' in (f.get('impl_self') or '') and f['name'].startswith('to_'):
                    check_optional(crate, f, f['name'], rep)
                # a method left to its default is not forwarded
                if f.get('inh_self') and f.get('inh_trait', '').split('::')[-1] == 'Stream':
                    g = {'impl_trait': f['inh_trait'], 'impl_self': f['inh_self']}
                    if is_forwarder_impl(crate, g) and f['name'] not in MUST_OVERRIDE_EXEMPT:
                        rep.viol('forward:' + fkey(crate, f), 'forward', f['inh_self'],
                                 '`%s` is not forwarded: the adapter falls back to the lossy default' % f['name'])
            # Value adapters: conversions left to their defaults
            for i in crate.impls:
                tr = i['trait'].split('::')[-1]
                g = {'impl_trait': i['trait'], 'impl_self': i['self']}
                if tr == 'Value' and is_forwarder_impl(crate, g):
                    for m in trait_methods['Value']:
                        if m not in i['items']:
                            rep.viol('forward:%s:%s:Value:%s' % (name, i['self'], m), 'forward', i['self'],
                                     '`%s` is not forwarded: the adapter falls back to the default' % m)
    rep.cfg = 'full'
    rep.floor('forward', 400)
