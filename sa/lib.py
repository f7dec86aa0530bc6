"""Vocabulary shared by the rules: the token protocol and helpers over event graphs."""
from interp import Interp, Incomplete, Ev, show, subterms, UNIT

INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128']
SCALARS = ['null', 'bool'] + INTS + ['f32', 'f64']
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}

DEMOTE = {'text_fragment': 'text_fragment_computed', 'binary_fragment': 'binary_fragment_computed',
          'value': 'value_computed'}


def strip(v):
    """value behind references"""
    while isinstance(v, tuple) and v and v[0] in ('&', 'deref'):
        v = v[1]
    return v


def noref(v):
    """remove reference/deref layers at every level: compares what is pointed at"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] in ('&', 'deref', 'wrapv'):
        return noref(v[1])
    return tuple(noref(x) if isinstance(x, tuple) else x for x in v)


def mentions(v, t):
    acc = set()
    subterms(v, acc)
    return t in acc


def mentions_any(v, pred):
    acc = set()
    subterms(v, acc)
    return any(pred(x) for x in acc)


def run(crate, f, args=None, **kw):
    it = Interp(crate, **kw)
    g = it.run(f, args if args is not None else it.default_args(f))
    g.it = it
    return g


def argnames(crate, f):
    return Interp(crate).default_args(f)


def is_ev(e):
    return isinstance(e, Ev)


def is_res(e, which=None):
    return isinstance(e, tuple) and e and e[0] == 'res' and (which is None or e[1] == which)


def res_kind(t):
    """ok / err / other for a terminal's returned value"""
    r = t['ret']
    if r is None:
        return 'other'
    if r[0] == 'adt' and r[1].endswith('Result'):
        return 'ok' if r[2] == 0 else 'err'
    return 'other'


def short(f):
    return f['path']


def owner(f):
    return f.get('impl_self') or f.get('inh_self') or f.get('trait_default') or ''


def fkey(crate, f):
    """stable identity of a function: crate, self type, trait and method, no source positions"""
    tr = (f.get('impl_trait') or f.get('inh_trait') or f.get('trait_default') or '').split('::')[-1]
    nm = f.get('name') or f['path'].split('::')[-1]
    return '%s:%s:%s:%s' % (crate.name, owner(f) or '-', tr or '-', nm) if (owner(f) or tr) else '%s:%s' % (crate.name, f['path'])


def int_range(ty):
    b = int(ty[1:])
    return (0, 2 ** b - 1) if ty[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)


def may_fit(facts, ty, v, into='i64'):
    """under these facts, may the integer v of type ty still fit `into`? (False also where it is decided in some other way)"""
    (lo, hi), (wl, wh) = int_range(ty), int_range(into)
    lo, hi = max(lo, wl), min(hi, wh)
    for k, y in facts.items():
        k = noref(k)
        if not mentions_any(k, lambda z: z == v):
            continue
        if k[0] != 'fits' or k[1] not in ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'):
            return False
        if not y and int_range(k[1])[0] <= lo and hi <= int_range(k[1])[1]:
            return False
    return True


def check_writers(crate, rep, bad, unknown, where):
    """text writers that wrap a writer: what they are given arrives whole, unchanged and once"""
    n = 0
    for f in crate.roots:
        if (f.get('impl_trait') or '').split('::')[-1] != 'Write' or f['name'] not in ('write_str', 'write_char', 'write_fmt'):
            continue
        if 'fmt' not in (f.get('impl_trait') or ''):
            continue
        try:
            g = run(crate, f)
            if g.incomplete:
                raise unknown(g.incomplete)
            a = [noref(x) for x in argnames(crate, f) if noref(x) != ('arg', 'self')]
            if len(a) != 1:
                raise unknown('arguments')
            a = a[0]
            names = {e.method for es in g.edges for e, d in es if is_ev(e)}
            if f['name'] == 'write_str' and not names <= {'write_str', 'write_char', 'write_fmt'}:
                continue        # not a wrapper of a text writer: judged by what uses it
            stack, seen = [(g.start, 0, None)], set()
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                nd, k, r = x
                if nd in g.term:
                    t = g.term[nd]
                    if t['kind'] == 'ret':
                        kind = res_kind(t)
                        if r != 'err' and kind == 'ok' and k == 0:
                            em = is_empty_fact(t['state'].facts, a)
                            if em is None:
                                raise unknown('skips some text')
                            if not em:
                                raise bad('`%s` succeeds without writing what it is given' % f['name'])
                        if r == 'err' and kind == 'ok':
                            raise bad('`%s` succeeds although writing failed' % f['name'])
                    elif t['kind'] == 'panic':
                        raise bad('`%s` may panic: %s' % (f['name'], t['why']))
                    continue
                for e, d in g.edges[nd]:
                    k2, r2 = k, r
                    if is_ev(e):
                        v = noref(e.args[-1])
                        if v != a and not (isinstance(v, tuple) and v[0] == 'app' and str(v[1]).split('::')[-1] == 'encode_utf8' and noref(v[2][0]) == a):
                            if not mentions(v, a):
                                raise bad('`%s` writes something else than it is given' % f['name'])
                            raise unknown('writes %s' % str(v)[:60])
                        if k:
                            raise bad('`%s` writes what it is given twice' % f['name'])
                        k2 = 1
                    elif is_res(e):
                        r2 = e[1]
                    stack.append((d, k2, r2))
            rep.ok('writer', where(f))
            n += 1
        except bad as e:
            rep.viol('writer:%s' % fkey(crate, f), 'writer', where(f), str(e))
        except unknown as e:
            rep.inconclusive('writer', where(f), str(e))
    return n


def is_empty_fact(facts, a):
    """is the text known to be empty? (None: something about its length is known)"""
    out = False
    for k, v in facts.items():
        k = noref(k)
        if k == ('len', a) and v == 0:
            return True
        if isinstance(k, tuple) and k[0] == 'app' and str(k[1]).split('::')[-1] == 'is_empty' and noref(k[2][0]) == a and v == 1:
            return True
        if isinstance(k, tuple) and k[0] in ('bin', 'binop') and k[1] == 'Eq' and v == 1 and {k[2], k[3]} == {('len', a), ('i', 0)}:
            return True
        if mentions(k, ('len', a)):
            out = None
    return out
