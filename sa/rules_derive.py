"""P17: the code `#[derive(Value)]` generates streams the value as documented.

The types of derive_corpus/ (structs, tuples, newtypes, unit structs and enums with every documented attribute alone and in pairs, in
every position) are compiled with the macro of the current tree. The `stream` method it generates for each is interpreted abstractly and
every path of it is compared with the paths of the calls written out next to the type (`ref_*`): the same calls on the stream with the same
arguments in the same order for the same variant, the same calls that can fail and the same results."""
import re

from common import Ctx, BuildError, EXTRA, REPO, VERIF, dumps, pmap, fn_where
from interp import Interp, Incomplete, Ev, show, subterms, UNIT
from lib import run, is_ev, is_res, mentions, noref

A = lambda n: ('arg', n)
SELF, STREAM = A('self'), A('stream')


class Norm:
    """terms up to the constructors of labels, indexes and tags, which are evaluated"""

    def __init__(self, sv):
        self.sv = sv
        self.fns = {}
        for f in sv.roots:
            k = self.key(f['path'])
            if k:
                self.fns.setdefault(k, f)
        self.cache = {}

    @staticmethod
    def key(path):
        m = re.search(r'(Index|Label|Tag)\b', path)
        if not m:
            return None
        fr = re.search(r'From<(\w+)>', path)
        return m.group(1), path.split('::')[-1], fr.group(1) if fr else ''

    def __call__(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        if v in self.cache:
            return self.cache[v]
        k = v
        if v[0] == 'app':
            args = tuple(self(x) for x in v[2])
            r = self.apply(v[1], args)
            r = r if r is not None else ('app', v[1], args)
        elif v[0] == 'adt':
            r = ('adt', v[1].split('::')[-1].split('<')[0], v[2], tuple(self(x) for x in v[3]))
        elif v[0] in ('&', 'deref') and len(v) == 2:
            x = self(v[1])
            r = x[1] if x[0] in ('&', 'deref') and x[0] != v[0] else (v[0], x)
        else:
            r = tuple(self(x) if isinstance(x, tuple) else x for x in v)
        self.cache[k] = r
        return r

    def apply(self, path, args):
        f = self.fns.get(self.key(path))
        if f is None or f['nargs'] != len(args):
            return None
        try:
            g = run(self.sv, f, list(args))
        except Exception:
            return None
        if g.incomplete or len(g.term) != 1 or any(is_ev(e) for es in g.edges for e, _ in es):
            return None
        t = list(g.term.values())[0]
        if t['kind'] != 'ret':
            return None
        return self(t.get('snap') or t['ret'])


def untyped_adt(v):
    return v


def rename(v, m):
    if not isinstance(v, tuple):
        return v
    if v in m:
        return m[v]
    return tuple(rename(x, m) if isinstance(x, tuple) else x for x in v)


class Unknown(Exception):
    pass


class Deriver:
    def __init__(self, c, sv, rep):
        self.c, self.rep, self.norm = c, rep, Norm(sv)

    def paths(self, f, args):
        it = Interp(self.c, force_event=lambda c, a: any(mentions(x, STREAM) for x in a))
        g = it.run(f, args)
        if g.incomplete:
            raise Unknown('not followed: %s' % g.incomplete)
        if g.escapes:
            raise Unknown('the stream is handed to %s' % g.escapes[0][0])
        out = set()
        for evs, t in g.paths():
            m = {}
            trace = []
            for e in evs:
                if is_ev(e):
                    m[e.ret] = ('r', len(m))
                    trace.append(self.event(e, m))
                elif is_res(e):
                    trace.append((e[1],))
            # the variant of the value this path is for
            cond = tuple(sorted((show(rename(noref(k), {})), v) for k, v in t['state'].facts.items()
                                if isinstance(v, int) and isinstance(k, tuple) and mentions(k, SELF) and k[0] != 'excl'))
            if t['kind'] == 'unreachable':
                continue
            if t['kind'] != 'ret':
                out.add((cond, tuple(trace), t['kind']))
                continue
            r = self.norm(rename(t.get('snap') or t['ret'], m))
            last = ('r', len(m) - 1)
            if r == last or r[0] == 'ret':
                out.add((cond, tuple(trace) + (('ok',),), 'ok'))
                out.add((cond, tuple(trace) + (('err',),), 'err'))
            elif r[0] == 'adt' and r[1] == 'Result' and r[2] == 0 and r[3] == (UNIT,):
                out.add((cond, tuple(trace), 'ok'))
            elif r[0] == 'adt' and r[1] == 'Result' and r[2] == 1:
                out.add((cond, tuple(trace), 'err' if mentions(r, last) else 'err of ' + show(r)))
            else:
                raise Unknown('the result is %s' % show(r)[:60])
        return out

    def event(self, e, m):
        recv, args, method = e.recv, e.args, e.method
        if method == 'stream' and args and noref(args[0]) == STREAM:
            method, recv, args = 'value', args[0], (recv,)
        if (e.trait or '').split('::')[-1] == 'Stream' and noref(recv) != STREAM:
            raise Unknown('a call on %s' % show(recv)[:40])
        return (method, noref(self.norm(rename(recv, m)))) + tuple(noref(self.norm(rename(a, m))) for a in args)

    def check(self, name, derived, ref, tags):
        rep, c = self.rep, self.c
        where = 'derive_macros, for %s' % name
        what = 'the derived implementation for `%s`' % name
        try:
            got, want = self.paths(derived['stream'], [SELF, STREAM]), self.paths(ref, [SELF, STREAM])
            d = self.diff(got, want)
            if d:
                rep.viol('derive/%s' % self.kind(name), 'stream', where, '%s %s; declared as: %s' % (what, d, self.decl(name)))
            else:
                rep.ok('stream', name)
        except (Unknown, Incomplete) as e:
            rep.inconclusive('stream', where, str(e)[:200])
        self.tag(name, derived, tags, where)

    def tag(self, name, derived, tags, where):
        rep, c = self.rep, self.c
        f = derived.get('tag')
        try:
            if tags is None:
                # the tag of what it stands for: found by streaming it, or asked of the field
                if f is None:
                    return rep.ok('tag', name)
                g = run(c, f, [SELF])
                ts = [t for t in g.term.values() if t['kind'] == 'ret']
                evs = [e for es in g.edges for e, _ in es if is_ev(e)]
                if not g.incomplete and not evs and len(ts) == 1 and ts[0]['ret'][0] == 'adt':
                    return rep.viol('tag/transparent', 'tag', where, 'asking `%s` for its tag gives %s without looking at the value it streams; declared as: %s' % (
                        name, show(ts[0]['ret'])[:30], self.decl(name)))
                if len(evs) == 1 and evs[0].method == 'tag' or any(mentions_app(t['ret'], 'tag') for t in ts):
                    return rep.ok('tag', name)
                return rep.inconclusive('tag', where, 'another way of finding the tag')
            if f is None:
                return rep.ok('tag', name)      # found by streaming
            a, b = [self.ret(x, args) for x, args in ((f, [SELF]), (tags, [SELF]))]
            if a != b:
                return rep.viol('tag/%s' % self.kind(name), 'tag', where, 'asking `%s` for its tag gives %s instead of %s; declared as: %s' % (name, show(a)[:60], show(b)[:60], self.decl(name)))
            rep.ok('tag', name)
        except (Unknown, Incomplete) as e:
            rep.inconclusive('tag', where, str(e)[:200])

    def ret(self, f, args):
        g = run(self.c, f, args)
        ts = [t for t in g.term.values()]
        if g.incomplete or len(ts) != 1 or ts[0]['kind'] != 'ret':
            raise Unknown('several results')
        r = ts[0].get('snap') or ts[0]['ret']
        return noref(self.norm(r))

    def diff(self, got, want):
        if got == want:
            return None
        # the longest common way, then what differs
        g, w = got - want, want - got
        for cond, trace, end in sorted(w, key=lambda x: (x[2] != 'ok', -len(x[1]))):
            for c2, t2, e2 in sorted(g, key=lambda x: (x[2] != end, abs(len(x[1]) - len(trace)))):
                if c2 != cond and any(x[0] == cond for x in g):
                    continue
                for a, b in zip(trace, t2):
                    if a != b:
                        return 'calls %s instead of %s' % (self.text(b), self.text(a))
                if len(trace) < len(t2):
                    return 'goes on with %s' % self.text(t2[len(trace)])
                if len(trace) > len(t2):
                    return 'stops before %s' % self.text(trace[len(t2)])
                if e2 != end:
                    return 'ends in %s instead of %s' % (e2, end)
                return 'does this for %s instead of %s' % (c2, cond)
            return 'never does %s' % ', '.join(self.text(x) for x in trace[:3])
        for cond, trace, end in g:
            return 'also does %s' % ', '.join(self.text(x) for x in trace[-2:])

    def text(self, e):
        return '%s(%s)' % (e[0], ', '.join(show(x) for x in e[2:]))[:220] if len(e) > 1 else 'on after a failure' if e[0] == 'ok' else 'a failure'

    src = None

    def decl(self, name):
        if Deriver.src is None:
            Deriver.src = open('%s/derive_corpus/src/lib.rs' % VERIF).read()
        m = re.search(r'^(?:#\[[^\n]*\] ?)?pub (?:struct|enum) %s\b[^\n]*' % name, Deriver.src, re.M)
        return m.group(0)[:300] if m else name

    def kind(self, name):
        return name


def mentions_app(v, m):
    acc = set()
    subterms(v, acc)
    return any(isinstance(x, tuple) and x and x[0] == 'app' and x[1].split('::')[-1] == m for x in acc)


def p17(ctx, rep):
    ctx.prepare(['full'])
    sv = ctx.crate('sval', 'full')
    try:
        c = ctx.crate('sval_derive_corpus', 'derive')
    except BuildError as e:
        # everything else of the tree compiles: the macro rejects or mistranslates a declaration it should accept
        msg = str(e)
        ms = re.findall(r'^error[^\n]*\n(?:.*\n)*?.*derive_corpus|^error[^\n]*', msg, re.M)
        line = re.search(r'src/lib\.rs:(\d+)', msg)
        at = ''
        if line:
            src = open('%s/derive_corpus/src/lib.rs' % VERIF).read().split('\n')
            at = src[int(line.group(1)) - 1][:200]
        if not line:
            raise
        rep.viol('compiles', 'compiles', 'derive_corpus/src/lib.rs:%s' % line.group(1), 'a type that may derive Value no longer compiles: %s: %s' % (at, (ms[0] if ms else msg)[:200]))
        return
    derived, refs, tags = {}, {}, {}
    for f in c.roots:
        if f.get('impl_trait', '') and f['impl_trait'].split('::')[-1] == 'Value':
            n = re.match(r'\w+', f['impl_self'] if isinstance(f['impl_self'], str) else c.ty(f['impl_self'])['s']).group(0)
            derived.setdefault(n, {})[f['path'].split('::')[-1]] = f
        elif f['path'].startswith('ref_'):
            refs[f['path'][4:]] = f
        elif f['path'].startswith('tag_'):
            tags[f['path'][4:]] = f
    names = sorted(refs)
    rep.ok('compiles', '%d types' % len(names))
    tasks = [names[i:i + 40] for i in range(0, len(names), 40)]

    def go(t, sub):
        sub.cfg = 'derive'
        d = Deriver(c, sv, sub)
        for n in t:
            if 'stream' not in derived.get(n, {}):
                sub.viol('derive/' + n, 'stream', 'derive_macros, for %s' % n, 'no implementation of Value')
                continue
            d.check(n, derived[n], refs[n], tags.get(n))
    pmap(rep, tasks, go)
