"""Writing JSON to an io writer delivers every byte or reports an error (P11)."""
from interp import Interp, Note, show
from lib import *
from common import fn_where
from machine import LOC
from reps import NONE
from typestate import Bad, Unknown


def len_zero(facts, cur):
    """do the facts say that cur is empty / not empty / nothing?"""
    if cur[0] == 'slice' and cur[3] is None:
        off, ln = cur[2], ('len', cur[1])
        for k, v in facts.items():
            kk = noref(k)
            if kk in (('bin', 'Lt', off, ln), ('bin', 'Gt', ln, off), ('bin', 'Ne', off, ln), ('bin', 'Ne', ln, off)):
                return v == 0
            if kk in (('bin', 'Eq', off, ln), ('bin', 'Eq', ln, off), ('bin', 'Ge', off, ln), ('bin', 'Le', ln, off)):
                return v == 1
    ln = ('len', cur)
    for k, v in facts.items():
        kk = noref(k)
        if kk == ('bin', 'Lt', ('i', 0), ln) or kk == ('bin', 'Gt', ln, ('i', 0)) or kk == ('bin', 'Ne', ln, ('i', 0)) or \
                kk == ('bin', 'Ge', ln, ('i', 1)):
            return v == 0
        if kk in (('bin', 'Eq', ln, ('i', 0)), ('bin', 'Le', ln, ('i', 0)), ('bin', 'Lt', ln, ('i', 1))):
            return v == 1
        if kk == ln:
            return v == 0
        if kk[0] == 'app' and kk[1].split('::')[-1] == 'is_empty' and mentions(kk, cur):
            return v == 1
        if kk[0] == 'not' and isinstance(kk[1], tuple) and kk[1][0] == 'app' and kk[1][1].split('::')[-1] == 'is_empty':
            return v == 0
    return None


def same_len(facts, r, cur):
    for k, v in facts.items():
        kk = noref(k)
        if kk[0] == 'bin' and {kk[2], kk[3]} == {r, ('len', cur)}:
            if (kk[1] == 'Eq' and v == 1) or (kk[1] == 'Ne' and v == 0) or (kk[1] == 'Lt' and kk[2] == r and v == 0) or \
                    (kk[1] == 'Ge' and kk[2] == r and v == 1):
                return True
    return False


def interrupted(crate, facts):
    """do the facts say the error kind is Interrupted? None: something else is tested"""
    idx = {v['name']: i for t in crate.tys if t.get('path', '').endswith('io::ErrorKind') for i, v in enumerate(t.get('variants', ()))}
    disc = {v['discr']: v['name'] for t in crate.tys if t.get('path', '').endswith('io::ErrorKind') for v in t.get('variants', ())}
    is_kind = lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] == 'app' and str(x[1]).split('::')[-1] == 'kind'
    for k, v in facts.items():
        kk = noref(k)
        if kk[0] == 'excl' or not mentions_any(kk, is_kind):
            if mentions_any(kk, lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] == 'app' and str(x[1]).split('::')[-1] == 'is_interrupted'):
                return v != 0
            continue
        if kk[0] == 'discr':
            return disc.get(v) == 'Interrupted'
        if kk[0] == 'app' and kk[1].split('::')[-1] in ('eq', 'ne'):
            acc = set()
            from interp import subterms
            subterms(kk, acc)
            adts = [x for x in acc if isinstance(x, tuple) and x and x[0] == 'adt' and x[1].endswith('ErrorKind')]
            if len(adts) != 1:
                return None
            same = (v == 1) == (kk[1].split('::')[-1] == 'eq')
            return same and adts[0][2] == idx.get('Interrupted')
        return None
    return False


def is_count(v, ret):
    """v is the number of bytes the call returned"""
    v = noref(v)
    return v[0] == 'vfld' and noref(v[1]) == noref(ret) and v[2:] == (0, 0)


def walk(g, n0):
    out = []
    stack = [(n0, (), None)]
    while stack:
        n, evs, r = stack.pop()
        if n in g.term:
            out.append((evs, r, g.term[n]))
            continue
        for e, m in g.edges[n]:
            if isinstance(e, Note):
                out.append((evs, r, e))
            elif is_ev(e):
                stack.append((m, evs + (e,), None))
            elif is_res(e):
                stack.append((m, evs, e[1]))
            else:
                stack.append((m, evs, r))
            if len(out) + len(stack) > 2000:
                raise Unknown('too many paths')
    return out


def check_write(crate, f):
    it = Interp(crate)
    it.note_loops = True
    args = it.default_args(f)
    text = noref(args[1])
    g = it.run(f, args)
    if g.incomplete:
        raise Unknown(g.incomplete)
    heads = []
    for n, es in enumerate(g.edges):
        for e, m in es:
            if isinstance(e, Note):
                for e2, h in g.edges[m]:
                    heads.append((e, h))
    n = 0
    # the variable holding what is still to be written, or how much has been
    var = None
    offs = {noref(e.args[0])[2] for _, h in heads for evs, _, _ in walk(g, h) for e in evs[:1]
            if e.args and noref(e.args[0])[0] == 'slice' and noref(e.args[0])[1] == text and noref(e.args[0])[3] is None}
    counts = [{k for k, v in note.vals.items() if noref(v) == ('i', 0) and (('phi', k) in offs or ('i', 0) in offs)}
              for note, _ in heads if note.kind == 'enter']
    ch = {k for note, _ in heads if note.kind == 'back' for k, v in note.vals.items() if noref(v) != ('i', 0)}
    counts = counts[0] & ch if len(counts) == 1 else set()
    if len(counts) > 1:
        counts = {k for k in counts if ('phi', k) in offs}
    by_count = len(counts) == 1
    rest = (lambda v: ('slice', text, noref(v), None)) if by_count else noref
    if by_count:
        var = counts.pop()
    for note, h in heads:
        if note.kind == 'enter' and not by_count:
            c = [k for k, v in note.vals.items() if noref(v) == text]
            if len(c) > 1:
                # one of them changes
                ch = {k for n2, _ in heads if n2.kind == 'back' for k in c if noref(n2.vals.get(k, ())) != text}
                c = [k for k in c if k in ch] or c[:1]
            if len(c) != 1:
                raise Unknown('no variable holds the remaining text')
            var = c[0]
    for cur, h, start in [(rest(('i', 0)) if by_count else text, g.start, True)] + [(None, hh, nn) for nn, hh in heads]:
        if start is not True:
            note = start
            cur = rest(note.vals[var])
            if note.kind == 'back':
                # the head may have widened the variable
                reads = {noref(e.args[0]) for evs, _, _ in walk(g, h) for e in evs[:1] if e.args}
                cands = reads & {cur, rest(('phi', var)), text}
                cands = cands or {cur}
                if len(cands) != 1:
                    raise Unknown('remaining text')
                cur = cands.pop()
        for evs, r, end in walk(g, h):
            facts = {noref(k) if isinstance(k, tuple) else k: v for k, v in (end.facts if isinstance(end, Note) else end['state'].facts).items()}
            term = isinstance(end, dict)
            if term and end['kind'] == 'unreachable':
                continue
            if term and end['kind'] == 'panic':
                raise Bad('may panic: %s' % end['why'])
            kind = (res_kind(end) if term else 'back')
            if len(evs) > 1:
                raise Unknown('several calls per iteration')
            n += 1
            if not evs:
                if kind == 'ok':
                    z = len_zero(facts, cur)
                    if z is None:
                        if start is True:
                            raise Bad('success is returned although nothing was written')
                        raise Bad('success is returned while %s may not be written yet' % show(cur))
                    if not z:
                        raise Bad('success is returned while %s is not written' % show(cur))
                elif kind == 'err':
                    raise Bad('failure is returned although the writer did not fail')
                elif kind == 'back' and rest(end.vals.get(var, ())) != cur:
                    raise Bad('%s is dropped' % show(cur))
                continue
            e = evs[0]
            a = noref(e.args[0]) if e.args else None
            if e.method not in ('write', 'write_all'):
                raise Unknown('calls %s' % e.method)
            if a != cur:
                raise Bad('%s is handed to the writer while %s remains' % (show(a), show(cur)))
            if r == 'err':
                if kind == 'ok':
                    raise Bad('a failing writer is reported as success')
                if kind == 'back':
                    i = interrupted(crate, facts)
                    if i is None:
                        raise Unknown('which errors are retried')
                    if not i:
                        raise Bad('a failing writer is called again for errors other than interruption')
                    if rest(end.vals[var]) != cur:
                        raise Bad('text is dropped when a write is interrupted')
                continue
            if r != 'ok':
                raise Unknown('result not inspected')
            if e.method == 'write_all':
                if kind == 'err':
                    raise Bad('failure is returned although everything was written')
                continue
            zero = None
            cnt = None
            for k, v in facts.items():
                kk = k[1] if k[0] == 'excl' else k
                if k[0] == 'bin' and k[1] in ('Eq', 'Ne') and is_count(k[2], e.ret) and k[3] == ('i', 0):
                    zero = (v == 1) == (k[1] == 'Eq')
                    cnt = k[2]
                elif k[:2] == ('bin', 'Lt') and k[2] == ('i', 0) and is_count(k[3], e.ret) or \
                        k[0] == 'bin' and (k[1], k[3]) in (('Gt', ('i', 0)), ('Ge', ('i', 1))) and is_count(k[2], e.ret):
                    zero = v == 0
                    cnt = k[3] if k[1] == 'Lt' else k[2]
                elif k[0] == 'bin' and (k[1], k[3]) in (('Lt', ('i', 1)), ('Le', ('i', 0))) and is_count(k[2], e.ret):
                    zero = v == 1
                    cnt = k[2]
                elif k[0] == 'excl' and is_count(kk, e.ret) and 0 in v:
                    zero, cnt = False, kk
                elif k[0] not in ('bin', 'excl', 'app') and is_count(k, e.ret) and v == 0:
                    zero, cnt = True, k
            if kind == 'err':
                if zero is not True:
                    raise Bad('failure is returned although the writer accepted bytes')
                continue
            if kind == 'ok':
                if zero is True:
                    raise Bad('success is returned when the writer accepts no more bytes: the output is cut short')
                if not any(same_len(facts, x, cur) for x in {noref(k[2]) for k in facts if k[0] == 'bin'} | {noref(k[3]) for k in facts if k[0] == 'bin' and len(k) > 3}):
                    raise Bad('success is returned after a partial write')
                continue
            if zero is True:
                raise Bad('a writer that accepts no bytes is called forever')
            nxt = rest(end.vals[var])
            if by_count:
                sums = [x for x in (nxt[2][2:4] if nxt[2][:2] == ('bin', 'Add') else (nxt[2], ('i', 0)))]
                if cur[2] in sums and any(is_count(x, e.ret) for x in sums):
                    continue
                if nxt == cur or mentions(nxt[2], cur[2]) or nxt[2][0] in ('i', 'vfld'):
                    raise Bad('after writing n bytes from %s on, %s are considered written' % (show(cur[2]), show(nxt[2])))
                raise Unknown('remaining text %s' % show(nxt))
            if nxt[0] == 'slice' and nxt[1] == cur and is_count(nxt[2], e.ret) and nxt[3] is None:
                continue
            if nxt == cur or mentions(nxt, cur) or nxt[0] == 'slice':
                raise Bad('after writing n bytes of %s, %s is considered unwritten' % (show(cur), show(nxt)))
            raise Unknown('remaining text %s' % show(nxt))
    return n


def check_entry(crate, f):
    """a public entry point: streams its value once into a fresh formatter over its own writer"""
    g = run(crate, f)
    if g.incomplete:
        raise Unknown(g.incomplete)
    args = [noref(a) for a in argnames(crate, f)]
    n = 0
    seen_io = {}
    stack = [(g.start, (), None)]
    while stack:
        nd, evs, r = stack.pop()
        if nd in g.term:
            t = g.term[nd]
            if t['kind'] != 'ret':
                if t['kind'] == 'panic':
                    raise Bad('may panic: %s' % t['why'])
                continue
            n += 1
            st = [e for e in evs if e.method == 'stream']
            if len(st) != 1:
                raise Bad('the value is streamed %d times' % len(st))
            if noref(st[0].recv) != args[-1]:
                raise Bad('%s is streamed instead of the value' % show(st[0].recv))
            k = res_kind(t)
            if r == 'ok' and k != 'ok':
                raise Bad('failure is reported although streaming succeeded')
            if r == 'err' and k != 'err':
                raise Bad('success is reported although streaming failed')
            if k == 'err':
                ret = noref(t['snap'])
                for kk, v in t['state'].facts.items():
                    kk = noref(kk)
                    if kk[0] == 'discr' and v == 1:
                        has = mentions_any(ret, lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] not in ('discr', 'adt', 'tup') and kk[1] in x)
                        seen_io.setdefault(kk[1], []).append((has, ret))
            continue
        for e, m in g.edges[nd]:
            if is_ev(e):
                stack.append((m, evs + (e,), r))
            elif is_res(e):
                stack.append((m, evs, e[1]))
            else:
                stack.append((m, evs, r))
            if len(stack) > 3000:
                raise Unknown('too many paths')
    return n


def p11(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        crate = ctx.crate('sval_json', cfg)
        rep.cfg = cfg
        for f in crate.roots:
            tr = (f.get('impl_trait') or '').split('::')[-1]
            where = fn_where(f)
            if tr == 'Write' and f.get('name') == 'write_str':
                # only adapters that hand bytes to an io writer
                try:
                    g = run(crate, f)
                except Exception:
                    g = None
                if g is not None and any(is_ev(e) and e.method in ('write', 'write_all') for es in g.edges for e, _ in es):
                    try:
                        n = check_write(crate, f)
                        for _ in range(n):
                            rep.ok('delivery', where)
                    except Bad as e:
                        rep.viol('delivery:' + fkey(crate, f), 'delivery', where, str(e))
                    except Unknown as e:
                        rep.inconclusive('delivery', where, str(e))
            if not tr and (f['path'].split('::')[-1]).startswith('stream_to_') and '{' not in f['path'] and not f.get('impl_self'):
                try:
                    n = check_entry(crate, f)
                    for _ in range(n):
                        rep.ok('entry', where)
                except Bad as e:
                    rep.viol('entry:' + fkey(crate, f), 'entry', where, str(e))
                except Unknown as e:
                    rep.inconclusive('entry', where, str(e))
    rep.cfg = 'full'
    rep.floor('delivery', 5)
    rep.floor('entry', 5)
