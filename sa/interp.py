"""Interprocedural abstract interpretation of the MIR extracted by ../driver.

The analysis is a disjunctive (path-partitioned) dataflow analysis.  Abstract
values are known constants, known enum variants / aggregates of abstract values,
abstract pointers, or opaque *provenance terms* ("the 2nd argument", "field 0 of
*self", "the result of calling f on x").  Workspace functions, closures and a few
std combinators are analysed inline (context sensitively); every other call is
either an *event* (a call made on a generic parameter / trait object: the
observable behaviour of the function) or a pure provenance term.  A switch on an
opaque value analyses all successors, remembering which alternative was taken so
that the same test is not decided two ways on one path.  Loop heads are points at
which abstract states are compared and widened, so loops end up as cycles in the
resulting event graph.  Nothing is executed and no solver is consulted.

Result of `Interp.run`: a Graph whose edges carry events and whose terminal nodes
carry the abstract return value and the abstract memory.
"""
import re
import json
import sys
import time
import zlib
from collections import deque

sys.setrecursionlimit(20000)

UNDEF = ('undef',)
UNIT = ('tup', ())


def shash(x):
    return zlib.crc32(repr(x).encode())


def tdepth(v, lim):
    """does the term nest deeper than lim?"""
    if lim <= 0:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and tdepth(x, lim - 1):
                return True
    return False


def post(path, old, rest, site):
    v = ('post', path, old, rest)
    if tdepth(v, 30):
        return ('havoc', shash(site))
    return v


class Incomplete(Exception):
    pass


# --------------------------------------------------------------- program db
class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d['crate']
        self.tys = d['tys']
        self.fns = {f['id']: f for f in d['fns']}
        self.impls = d['impls']
        self.traits = {t['path']: t for t in d['traits']}
        self.unsafes = d['unsafes']
        self.consts = {c['path']: c for c in d['consts']}
        for f in self.fns.values():
            f.setdefault('impl_trait', None)
            f.setdefault('name', None)
        self.roots = [f for f in self.fns.values() if f.get('root')]
        self._loops = {}
        self._endless = None
        self._live = {}
        self._tyi = {}
        for i, t in enumerate(self.tys):
            if t:
                self._tyi.setdefault(t['s'], i)

    def ty(self, i):
        return self.tys[i] if i is not None else {'s': '?', 'k': 'other'}

    def tid(self, s):
        return self._tyi.get(s)

    def find(self, trait=None, self_ty=None, name=None, pred=None, root=True):
        out = []
        for f in (self.roots if root else self.fns.values()):
            if trait is not None and not (f.get('impl_trait') or '').endswith(trait):
                continue
            if self_ty is not None and self_ty not in (f.get('impl_self') or ''):
                continue
            if name is not None and f.get('name') != name:
                continue
            if pred is not None and not pred(f):
                continue
            out.append(f)
        return out

    def succ(self, b):
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[3]]
        return []

    def must_call(self, f):
        """the functions called on every way through f to its return"""
        calls = {}
        for i, b in enumerate(f['blocks']):
            t = b and b['t']
            if t and t[0] == 'call' and t[1].get('inst') in self.fns:
                calls.setdefault(t[1]['inst'], set()).add(i)
        out = set()
        for g, at in calls.items():
            if len(self.fns[g]['blocks']) == 0:
                continue
            st, vis, free = [0], {0}, False
            while st and not free:
                x = st.pop()
                if x in at:
                    continue
                n = f['blocks'][x] and self.succ(f['blocks'][x])
                free = not n
                for y in n:
                    if y not in vis:
                        vis.add(y)
                        st.append(y)
            if not free:
                out.add(g)
        return out

    def endless(self):
        """functions that, once entered, call themselves again before they can return"""
        if self._endless is None:
            m = {i: self.must_call(f) for i, f in self.fns.items()}
            out = set()
            for i in m:
                st, vis = list(m[i]), set(m[i])
                while st:
                    for y in m[st.pop()]:
                        if y not in vis:
                            vis.add(y)
                            st.append(y)
                if i in vis:
                    out.add(i)
            self._endless = out
        return self._endless

    def loops(self, f):
        fid = f['id']
        if fid in self._loops:
            return self._loops[fid]
        heads = set()
        color = {}
        stack = [(0, iter(self.succ(f['blocks'][0])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if f['blocks'][m] is None:
                    continue
                c = color.get(m, 0)
                if c == 0:
                    color[m] = 1
                    stack.append((m, iter(self.succ(f['blocks'][m]))))
                    break
                elif c == 1:
                    heads.add(m)
            else:
                color[n] = 2
                stack.pop()
        self._loops[fid] = heads
        return heads

    def drives_iter(self, f):
        """does it loop by handing a closure to an iterator"""
        for b in f['blocks']:
            if b and b['t'][0] == 'call':
                c = b['t'][1]
                if c.get('method') in ITER_DRIVERS and c.get('trait', '').split('::')[-1] == 'Iterator':
                    return True
        return False

    def live(self, f):
        """live-in locals per block (a borrowed local is live until StorageDead)."""
        fid = f['id']
        if fid in self._live:
            return self._live[fid]
        blocks = f['blocks']
        borrowed = set()

        def pl_use(p, out):
            out.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    out.add(e[1])

        def op_use(o, out):
            if o[0] in 'cm':
                pl_use(o[1], out)

        def rv_use(r, out):
            k = r[0]
            if k == 'use' or k == 'repeat':
                op_use(r[1], out)
            elif k == 'ref':
                pl_use(r[1], out)
                if '*' not in r[1][1:]:
                    borrowed.add(r[1][0])
            elif k == 'cast':
                op_use(r[2], out)
            elif k == 'bin':
                op_use(r[2], out)
                op_use(r[3], out)
            elif k == 'un':
                op_use(r[2], out)
            elif k == 'discr':
                pl_use(r[1], out)
            elif k == 'agg':
                for o in r[2]:
                    op_use(o, out)

        n = len(blocks)
        use = [None] * n
        deff = [None] * n
        for i, b in enumerate(blocks):
            if b is None:
                continue
            u, d = set(), set()
            for s in b['s']:
                if s[0] == '=':
                    tmp = set()
                    rv_use(s[2], tmp)
                    if len(s[1]) > 1:
                        pl_use(s[1], tmp)
                    u |= tmp - d
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == 'sd':
                    if s[1][0] not in d:
                        u.add(s[1][0])
                elif s[0] in ('dead', 'live'):
                    d.add(s[1])
            t = b['t']
            tmp = set()
            if t[0] == 'switch':
                op_use(t[1], tmp)
            elif t[0] == 'call':
                for o in t[2]:
                    op_use(o, tmp)
                if 'dyn' in t[1]:
                    op_use(t[1]['dyn'], tmp)
                if len(t[3]) > 1:
                    pl_use(t[3], tmp)
            elif t[0] == 'assert':
                op_use(t[1], tmp)
            elif t[0] == 'ret':
                tmp.add(0)
            u |= tmp - d
            if t[0] == 'call' and len(t[3]) == 1:
                pass
            use[i], deff[i] = u, d
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                if blocks[i] is None:
                    continue
                out = set()
                for m in self.succ(blocks[i]):
                    out |= livein[m]
                t = blocks[i]['t']
                if t[0] == 'call' and len(t[3]) == 1:
                    out = out - {t[3][0]}
                new = use[i] | (out - deff[i])
                if new != livein[i]:
                    livein[i] = new
                    ch = True
        res = (livein, borrowed)
        self._live[fid] = res
        return res


# --------------------------------------------------------------- state
class Frame:
    __slots__ = ('f', 'bb', 'dest', 'retbb', 'site', 'tail')

    def __init__(self, f, bb, dest, retbb, site, tail=None):
        self.f, self.bb, self.dest, self.retbb, self.site = f, bb, dest, retbb, site
        self.tail = tail  # optional python continuation name


class State:
    __slots__ = ('stack', 'mem', 'facts', 'node', 'visits', 'aux')

    def __init__(self):
        self.stack = []
        self.mem = {}
        self.facts = {}
        self.node = None
        self.visits = {}
        self.aux = ()

    def fork(self):
        s = State()
        s.stack = [Frame(x.f, x.bb, x.dest, x.retbb, x.site, x.tail) for x in self.stack]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.node = self.node
        s.visits = dict(self.visits)
        s.aux = self.aux
        return s


class Graph:
    def __init__(self):
        self.edges = []      # list of lists of (event|None, target)
        self.term = {}       # node -> dict(kind, ret, mem, facts)
        self.incomplete = None
        self.lines = {}
        self.escapes = []    # calls whose effect on a stream could not be analysed
        self.start = self.new()

    def new(self):
        self.edges.append([])
        return len(self.edges) - 1

    def paths(self, maxn=4000, skip=None):
        """All event sequences of an acyclic graph: (events, terminal). Raises on cycles."""
        out = []
        onpath = set()

        def go(n, acc):
            if n in onpath:
                raise Incomplete('cycle')
            if len(out) > maxn:
                raise Incomplete('too many paths')
            if n in self.term:
                out.append((acc, self.term[n]))
                return
            onpath.add(n)
            for ev, m in self.edges[n]:
                go(m, acc + [ev] if ev is not None else acc)
            onpath.discard(n)

        go(self.start, [])
        return out

    def cyclic(self):
        color = {}

        def go(n):
            color[n] = 1
            for _, m in self.edges[n]:
                c = color.get(m, 0)
                if c == 1:
                    return True
                if c == 0 and go(m):
                    return True
            color[n] = 2
            return False
        return go(self.start)


class Note:
    """not an event: what a loop carries around its back edge"""
    def __init__(self, kind, head, vals, prev, facts):
        self.kind, self.head, self.vals, self.prev, self.facts = kind, head, vals, prev, facts

    def __repr__(self):
        return '%s[%s]' % (self.kind, ', '.join('%d:%s' % (k % 1000, show(v)) for k, v in sorted(self.vals.items())))


class Ev:
    """an observable call"""
    __slots__ = ('trait', 'method', 'recv', 'args', 'ret', 'site', 'path', 'tys', 'data')

    def __init__(self, trait, method, recv, args, ret, site, path, tys=(), data=None):
        self.trait, self.method, self.recv, self.args = trait, method, recv, args
        self.ret, self.site, self.path, self.tys, self.data = ret, site, path, tys, data

    def key(self):
        return (self.trait, self.method, self.recv, self.args)

    def __repr__(self):
        return '%s.%s(%s)' % (show(self.recv), self.method, ', '.join(show(a) for a in self.args))


def show(v, d=0):
    if d > 8:
        return '..'
    if not isinstance(v, tuple):
        return repr(v)
    if not v:
        return '()'
    k = v[0]
    if k == 'i':
        return str(v[1])
    if k == 'str':
        return repr(v[1])
    if k == 'arg':
        return str(v[1])
    if k == 'adt':
        n = v[1].split('::')[-1]
        if n == 'Option':
            return 'None' if v[2] == 0 else 'Some(%s)' % show(v[3][0], d + 1)
        if n == 'Result':
            return '%s(%s)' % ('Ok' if v[2] == 0 else 'Err', show(v[3][0], d + 1))
        return '%s#%d{%s}' % (n, v[2], ', '.join(show(x, d + 1) for x in v[3]))
    if k == 'tup':
        return '(%s)' % ', '.join(show(x, d + 1) for x in v[1])
    if k == '&':
        return '&' + show(v[1], d + 1)
    if k == 'deref':
        return '*' + show(v[1], d + 1)
    if k == 'fld':
        return '%s.%s' % (show(v[1], d + 1), v[2])
    if k == 'vfld':
        return '%s:%s.%s' % (show(v[1], d + 1), v[2], v[3])
    if k == 'app':
        return '%s(%s)' % (v[1].split('::')[-1], ', '.join(show(x, d + 1) for x in v[2]))
    if k == 'ret':
        return 'ret%s' % (v[1][-1],) if isinstance(v[1], tuple) and v[1] else 'ret'
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in v[1:]))


def subterms(v, acc):
    if isinstance(v, tuple):
        if v in acc:
            return
        acc.add(v)
        for x in v:
            if isinstance(x, tuple):
                subterms(x, acc)


EVENT_TRAITS = (
    'Stream', 'Value', 'ValueRef', 'Write', 'TokenWrite', 'Serializer', 'Serialize', 'SerializeSeq',
    'SerializeTuple', 'SerializeTupleStruct', 'SerializeTupleVariant', 'SerializeMap',
    'SerializeStruct', 'SerializeStructVariant', 'StreamSeq', 'StreamMap', 'StreamTuple',
    'StreamRecord', 'StreamEnum', 'FnOnce', 'FnMut', 'Fn', 'Flatten', 'LabelStream',
    'DispatchStream', 'DispatchValue', 'StreamToken', 'Display', 'Debug', 'LowerHex', 'Binary', 'LowerExp', 'UpperExp', 'UpperHex', 'Error',
)

PANIC_PATHS = ('panicking::', 'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed',
               'slice_error_fail', 'rt::panic', 'process::abort', 'begin_panic', 'panic_fmt')


COMMUTES = ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne')


def swapped(a, b):
    """is (b, a) the order in which the operands of a commutative operation are written here?"""
    if a[0] == 'i' or b[0] == 'i':
        return a[0] == 'i' and b[0] != 'i'
    if a[0] != b[0]:
        return a[0] > b[0]
    return repr(a) > repr(b)


class Interp:
    def __init__(self, crate, hooks=None, max_steps=400000, max_nodes=60000, opaque_inst=None,
                 force_event=None):
        self.c = crate
        self.models = dict(DEFAULT_MODELS)
        if hooks:
            self.models.update(hooks)
        self.max_steps = max_steps
        self.max_nodes = max_nodes
        self.opaque_inst = opaque_inst      # pred(callee fn) -> treat as event
        self.force_event = force_event      # pred(callee dict) -> treat as event
        self.widen_after = 3
        self.fork_cap = 400000
        self.want_panics = True
        self.max_time = 40
        self.note_loops = False
        self.havoc_heads = ()    # label back edges with the values loop variables carry around
        self.iter_payload = None   # (interp, state, item type, item term) -> abstract item

    # ----------------------------------------------------------- values
    def deref_initial(self, term):
        # Box::new(x) deref'd through its raw pointer
        t = term
        while isinstance(t, tuple) and t and t[0] in ('fld', 'cast'):
            t = t[1]
        if isinstance(t, tuple) and t and t[0] == 'app' and t[1].endswith('Box::<T>::new') and t is not term:
            return t[2][0]
        return ('deref', term)

    def load(self, st, loc):
        m = st.mem
        if loc in m:
            return m[loc]
        if isinstance(loc, tuple) and loc and loc[0] == 'D':
            return self.deref_initial(loc[1])
        if isinstance(loc, tuple) and loc and loc[0] == 'K':
            return loc[1]
        return UNDEF

    def proj(self, st, v, e):
        """project value v by path element e"""
        k = e[0]
        if k == 'f':
            i = e[1]
            if v[0] == 'adt':
                if i < len(v[3]):
                    return v[3][i]
                return UNDEF
            if v[0] in ('tup', 'clo'):
                fs = v[1] if v[0] == 'tup' else v[2]
                return fs[i] if i < len(fs) else UNDEF
            if v[0] == 'vview':
                base, var = v[1], v[2]
                if base[0] == 'adt':
                    if base[2] != var or i >= len(base[3]):
                        return UNDEF
                    return base[3][i]
                while base[0] == 'upd' and isinstance(base[2], tuple) and base[2][0] == 'd':
                    if base[2] == ('d', var, i):
                        return base[3]
                    base = base[1]
                return ('vfld', base, var, i)
            if v == UNDEF:
                return UNDEF
            if v[0] == 'wrapv' and i == 0:
                return v[1]
            while v[0] == 'upd' and isinstance(v[2], int):
                if v[2] == i:
                    return v[3]
                v = v[1]
            return ('fld', v, i)
        if k == 'd':
            return ('vview', v, e[1])
        if k == 'w':
            return ('wrapv', v)
        if k == 'ix':
            if v[0] == 'arr' and e[1][0] == 'i' and 0 <= e[1][1] < len(v[1]):
                return v[1][e[1][1]]
            if v[0] == 'wrapv':
                v = v[1]
            return ('elem', v, e[1])
        if k == 'sub':
            if v[0] == 'arr':
                frm, to, fe = e[1], e[2], e[3]
                return ('arr', v[1][frm:(len(v[1]) - to) if fe else to])
            return ('subslice', v, e[1], e[2], e[3])
        return ('proj', v, e)

    def read(self, st, loc, path):
        v = self.load(st, loc)
        for e in path:
            v = self.proj(st, v, e)
        if v[0] == 'vview':
            return v
        return v

    def expand(self, st, v, tid):
        """make an opaque struct/tuple value explicit so a field can be stored"""
        if v[0] in ('adt', 'tup', 'clo', 'arr'):
            return v
        t = self.c.ty(tid) if tid is not None else None
        if t is None:
            return None
        if t['k'] == 'adt' and t.get('adt') == 'struct' and 'variants' in t:
            fs = t['variants'][0]['fields']
            if v == UNDEF:
                return ('adt', t['path'], 0, tuple(UNDEF for _ in fs))
            return ('adt', t['path'], 0, tuple(self.proj(st, v, ('f', i)) for i in range(len(fs))))
        if t['k'] in ('tuple', 'closure'):
            n = len(t['elems'])
            if v == UNDEF:
                return ('tup', tuple(UNDEF for _ in range(n)))
            return ('tup', tuple(self.proj(st, v, ('f', i)) for i in range(n)))
        return None

    def store(self, st, loc, path, val, tids=None):
        if not path:
            st.mem[loc] = val
            return
        base = self.load(st, loc)
        st.mem[loc] = self._set(st, base, list(path), val, tids)

    def _set(self, st, base, path, val, tid):
        if not path:
            return val
        e = path[0]
        if e[0] == 'w':
            # wrapper view: next must be field 0
            if len(path) > 1 and path[1] == ('f', 0):
                return self._set(st, base, path[2:], val, None)
            if len(path) == 1 and val[0] == 'adt' and len(val[3]) >= 1:
                return val[3][0]
            if len(path) == 1 and val[0] == 'wrapv':
                return val[1]
            return ('upd', base, 'w', val)
        if e[0] == 'f':
            i = e[1]
            b = base
            if b[0] not in ('adt', 'tup', 'clo'):
                b2 = self.expand(st, b, tid)
                if b2 is None:
                    # unknown layout: keep functional update
                    inner = self._set(st, self.proj(st, b, e), path[1:], val, None)
                    return ('upd', b, i, inner)
                b = b2
            if b[0] == 'adt':
                fs = list(b[3])
                while len(fs) <= i:
                    fs.append(UNDEF)
                fs[i] = self._set(st, fs[i], path[1:], val, self.field_tid(b, i, tid))
                return ('adt', b[1], b[2], tuple(fs))
            if b[0] == 'tup':
                fs = list(b[1])
                while len(fs) <= i:
                    fs.append(UNDEF)
                fs[i] = self._set(st, fs[i], path[1:], val, self.elem_tid(tid, i))
                return ('tup', tuple(fs))
            if b[0] == 'clo':
                fs = list(b[2])
                while len(fs) <= i:
                    fs.append(UNDEF)
                fs[i] = self._set(st, fs[i], path[1:], val, None)
                return ('clo', b[1], tuple(fs))
        if e[0] == 'd':
            var = e[1]
            if base[0] == 'adt' and base[2] == var:
                # next path element is a field
                if len(path) >= 2 and path[1][0] == 'f':
                    return self._set(st, base, path[1:], val, tid)
                return base
            if len(path) >= 2 and path[1][0] == 'f':
                # opaque enum: materialise variant
                t = self.c.ty(tid) if tid is not None else None
                if t and 'variants' in t and var < len(t['variants']):
                    n = len(t['variants'][var]['fields'])
                    fs = [('vfld', base, var, j) if base != UNDEF else UNDEF for j in range(n)]
                    i = path[1][1]
                    fs[i] = self._set(st, fs[i], path[2:], val, t['variants'][var]['fields'][i][1])
                    return ('adt', t['path'], var, tuple(fs))
                i = path[1][1]
                old = self.proj(st, self.proj(st, base, e), path[1])
                return ('upd', base, ('d', var, i), self._set(st, old, path[2:], val, None))
            return ('upd', base, ('d', var), val)
        if e[0] == 'ix':
            if base[0] == 'arr' and e[1][0] == 'i' and 0 <= e[1][1] < len(base[1]):
                el = list(base[1])
                el[e[1][1]] = self._set(st, el[e[1][1]], path[1:], val, None)
                return ('arr', tuple(el))
            return ('upd', base, e, self._set(st, self.proj(st, base, e), path[1:], val, None))
        return ('upd', base, e, val)

    def field_tid(self, b, i, tid):
        t = self.c.ty(tid) if tid is not None else None
        if t and 'variants' in t:
            vs = t['variants']
            v = vs[b[2]] if b[2] < len(vs) else None
            if v and i < len(v['fields']):
                return v['fields'][i][1]
        return None

    def elem_tid(self, tid, i):
        t = self.c.ty(tid) if tid is not None else None
        if t and 'elems' in t and i < len(t['elems']):
            return t['elems'][i]
        return None

    # ----------------------------------------------------------- places
    def place(self, st, p):
        """-> (loc, path, tid-of-loc)"""
        fr = st.stack[-1]
        depth = len(st.stack)
        loc = (depth, p[0])
        path = ()
        tid = fr.f['locals'][p[0]][0]
        loctid = tid
        for e in p[1:]:
            if e == '*':
                v = self.read(st, loc, path)
                pt = self.c.ty(tid) if tid is not None else None
                inner = pt.get('to') if pt else None
                if v[0] == 'vview':
                    v = v[1]
                if v[0] == 'ref':
                    loc, path = v[1], v[2]
                    loctid = None
                    tid = inner
                    if not path:
                        loctid = inner
                elif v[0] == '&':
                    loc, path = ('K', v[1]), ()
                    tid = inner
                    loctid = inner
                elif v[0] in ('str', 'bytes', 'arr'):
                    loc, path = ('K', v), ()
                    tid = inner
                    loctid = inner
                else:
                    loc, path = ('D', v), ()
                    tid = inner
                    loctid = inner
                    if inner is None and pt and pt.get('k') == 'adt':
                        pass
            elif isinstance(e, list):
                if e[0] == 'f':
                    path = path + (('f', e[1]),)
                    if len(path) >= 2 and path[-2] == ('w',) and e[1] == 0:
                        path = path[:-2]
                    tid = e[2]
                elif e[0] == 'd':
                    path = path + (('d', e[1]),)
                elif e[0] == 'i':
                    iv = self.read(st, (depth, e[1]), ())
                    path = path + (('ix', iv),)
                    tid = None
                elif e[0] == 'ci':
                    path = path + (('ix', ('i', e[1]) if not e[3] else ('i', -e[1])),)
                    tid = None
                elif e[0] == 'sub':
                    path = path + (('sub', e[1], e[2], e[3]),)
                    tid = None
        # strip trailing variant views with no field
        return loc, path, loctid

    def read_place(self, st, p):
        loc, path, _ = self.place(st, p)
        v = self.read(st, loc, path)
        if v[0] == 'vview':
            v = v[1]
        return self.norm(st, v)

    def norm(self, st, v):
        f = st.facts.get(v)
        if f is not None and isinstance(f, int):
            return ('i', f)
        return v

    def write_place(self, st, p, val):
        loc, path, tid = self.place(st, p)
        path = tuple(path)
        self.store(st, loc, path, val, tid)

    # ----------------------------------------------------------- constants
    def const(self, st, k):
        v = k['v']
        t = self.c.ty(k['ty']) if k['ty'] is not None else {'k': 'other', 's': '?'}
        return self.constv(st, v, k['ty'], k.get('name'))

    def constv(self, st, v, tid, name=None):
        t = self.c.ty(tid) if tid is not None else {'k': 'other', 's': '?'}
        if v is None:
            return ('const', name or t['s'])
        if 'int' in v:
            return ('i', v['int'])
        if 'bool' in v:
            return ('i', 1 if v['bool'] else 0)
        if 'str' in v:
            return ('str', v['str'])
        if 'float' in v:
            return ('flt', v['float'], v.get('bits'))
        if 'tuple' in v:
            return ('tup', tuple(self.constv(st, x, self.elem_tid(tid, i)) for i, x in enumerate(v['tuple'])))
        if 'array' in v:
            el = t.get('elem')
            return ('arr', tuple(self.constv(st, x, el) for x in v['array']))
        if 'slice' in v:
            el = None
            if t.get('k') == 'ref':
                el = self.c.ty(t['to']).get('elem')
            return ('arr', tuple(self.constv(st, x, el) for x in v['slice']))
        if 'ref' in v:
            inner = t.get('to')
            iv = self.constv(st, v['ref'], inner)
            if v.get('static'):
                return ('&', iv)
            return ('&', iv)
        if 'variant' in v:
            fs = []
            for i, x in enumerate(v['fields']):
                ftid = None
                if 'variants' in t and v['variant'] < len(t['variants']):
                    ff = t['variants'][v['variant']]['fields']
                    if i < len(ff):
                        ftid = ff[i][1]
                fs.append(self.constv(st, x, ftid))
            return ('adt', t.get('path', t['s']), v['variant'], tuple(fs))
        if 'fn' in v:
            return ('fn', v['fn'])
        if 'zst' in v:
            if t['k'] == 'adt' and 'variants' in t and t['adt'] == 'struct':
                fs = t['variants'][0]['fields']
                return ('adt', t['path'], 0, tuple(self.constv(st, v, f[1]) for f in fs))
            if t['k'] == 'closure':
                return ('clo', t['s'], ())
            if t['k'] == 'tuple':
                return ('tup', tuple(self.constv(st, v, e) for e in t['elems']))
            return ('zst', t['s'])
        if 'promoted' in v:
            return self.eval_promoted(v['promoted'])
        if 'cparam' in v:
            return ('cparam', v['cparam'])
        if 'uneval' in v:
            return ('const', v['uneval'])
        if 'fnptr' in v:
            return ('fn', v['fnptr'])
        return ('const', name or json.dumps(v, sort_keys=True))

    def eval_promoted(self, pid):
        f = self.c.fns.get(pid)
        if f is None:
            return ('const', 'promoted%d' % pid)
        sub = Interp(self.c, max_steps=2000)
        sub.models = self.models
        g = sub.run(f, [])
        ts = [t for t in g.term.values() if t['kind'] == 'ret']
        if len(ts) == 1:
            t = ts[0]
            return self.snap_mem(t['state'], t['ret'])
        return ('const', 'promoted:' + f['path'])

    def operand(self, st, o):
        if o[0] in 'cm':
            return self.read_place(st, o[1])
        return self.const(st, o[1])

    # ----------------------------------------------------------- snapshots
    def snap(self, st, v, depth=0):
        return self.snap_mem(st, v, depth)

    def snap_mem(self, st, v, depth=0):
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if depth > 12:
            return v
        if k == 'ref':
            inner = self.read(st, v[1], v[2])
            if inner[0] == 'vview':
                inner = inner[1]
            s = self.snap_mem(st, inner, depth + 1)
            if s[0] == 'deref':
                return s[1]
            if s[0] in ('str', 'arr') and v[1][0] == 'K':
                return s if s[0] == 'str' else ('&', s)
            return ('&', s)
        if k == 'adt':
            return ('adt', v[1], v[2], tuple(self.snap_mem(st, x, depth + 1) for x in v[3]))
        if k in ('tup', 'arr'):
            return (k, tuple(self.snap_mem(st, x, depth + 1) for x in v[1]))
        if k == 'clo':
            return ('clo', v[1], tuple(self.snap_mem(st, x, depth + 1) for x in v[2])) + v[3:]
        if k == 'app':
            return ('app', v[1], tuple(self.snap_mem(st, x, depth + 1) for x in v[2]))
        if k == 'wrapv':
            return ('wrapv', self.snap_mem(st, v[1], depth + 1))
        return v

    # ----------------------------------------------------------- rvalues
    def intwrap(self, n, tid):
        t = self.c.ty(tid)
        if t['k'] == 'uint':
            return n & ((1 << t['bits']) - 1)
        if t['k'] == 'int':
            b = t['bits']
            n &= (1 << b) - 1
            return n - (1 << b) if n >> (b - 1) else n
        return n

    def binop(self, st, op, a, b, tid):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            r = None
            if base == 'Add':
                r = x + y
            elif base == 'Sub':
                r = x - y
            elif base == 'Mul':
                r = x * y
            elif base == 'BitAnd':
                r = x & y
            elif base == 'BitOr':
                r = x | y
            elif base == 'BitXor':
                r = x ^ y
            elif base == 'Shl':
                r = x << y if 0 <= y < 128 else None
            elif base == 'Shr':
                r = x >> y if 0 <= y < 128 else None
            elif base == 'Div' and y != 0:
                r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            elif base == 'Rem' and y != 0:
                r = x - y * (abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1))
            elif base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                r = int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[base])
                return ('i', r)
            elif base == 'Cmp':
                return ('adt', 'core::cmp::Ordering', 0 if x < y else (1 if x == y else 2), ())
            if r is not None:
                w = self.intwrap(r, tid)
                if 'WithOverflow' in op:
                    return ('tup', (('i', w), ('i', int(w != r))))
                return ('i', w)
        # linear normal form for +/- constants
        if base in ('Add', 'Sub') and (b[0] == 'i' or (base == 'Add' and a[0] == 'i')):
            if a[0] == 'i':
                a, b = b, a
            k = b[1] if base == 'Add' else -b[1]
            if a[0] == 'lin':
                k += a[2]
                a = a[1]
            r = a if k == 0 else ('lin', a, k)
            if 'WithOverflow' in op:
                return ('tup', (r, ('bin', 'Ovf' + base, a, b)))
            return r
        if base in ('Add', 'Sub') and (a[0] == 'lin' or b[0] == 'lin') and self.c.ty(tid)['k'] in ('int', 'uint'):
            # constants move outwards (arithmetic is modular, so this is exact)
            a0, b0, k = a, b, 0
            if a[0] == 'lin':
                a, k = a[1], a[2]
            if b[0] == 'lin':
                b, k = b[1], k + (b[2] if base == 'Add' else -b[2])
            r = self.binop(st, base, a, b, tid)
            r = self.binop(st, 'Add', r, ('i', k), tid) if k else r
            if 'WithOverflow' in op:
                return ('tup', (r, ('bin', 'Ovf' + base, a0, b0)))
            return r
        if base in COMMUTES and swapped(a, b):
            a, b = b, a
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a == b and a[0] != 'flt':
                t = self.c.ty(tid)
                if t['k'] != 'float':
                    return ('i', int(base in ('Eq', 'Le', 'Ge')))
            if base in ('Eq', 'Ne') and a[0] == 'discr' and b[0] == 'i' and b[1] in st.facts.get(('excl', a), ()):
                return ('i', int(base == 'Ne'))
            if base == 'Ne':
                t = ('bin', 'Eq', a, b)
                f = st.facts.get(t)
                if isinstance(f, int):
                    return ('i', 1 - f)
                return ('not', t)
            # canonical direction: Lt/Ge only on (a,b)
            if base == 'Gt':
                return self.norm(st, ('bin', 'Lt', b, a))
            if base == 'Le':
                t = ('bin', 'Lt', b, a)
                f = st.facts.get(t)
                return ('i', 1 - f) if isinstance(f, int) else ('not', t)
            if base == 'Ge':
                t = ('bin', 'Lt', a, b)
                f = st.facts.get(t)
                return ('i', 1 - f) if isinstance(f, int) else ('not', t)
            return self.norm(st, ('bin', base, a, b))
        if base in ('BitAnd', 'BitOr') and self.c.ty(tid)['k'] == 'bool':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'i':
                    if base == 'BitAnd':
                        return y if x[1] else ('i', 0)
                    return ('i', 1) if x[1] else y
        r = ('bin', base, a, b)
        if 'WithOverflow' in op:
            return ('tup', (r, ('bin', 'Ovf' + base, a, b)))
        return r

    def unop(self, st, op, a, tid):
        if op == 'Not':
            t = self.c.ty(tid)
            if a[0] == 'i':
                if t['k'] == 'bool':
                    return ('i', 1 - a[1])
                return ('i', self.intwrap(~a[1], tid))
            if a[0] == 'not':
                return a[1]
            return ('not', a)
        if op == 'Neg':
            if a[0] == 'i':
                return ('i', self.intwrap(-a[1], tid))
            return ('neg', a)
        if op == 'PtrMetadata':
            return self.length(st, a)
        return ('un', op, a)

    def length(self, st, v):
        """length of the slice/str a pointer points to"""
        if v[0] == 'str':
            return ('i', len(v[1].encode()))
        s = self.snap(st, v)
        if s[0] == '&' and s[1][0] == 'arr':
            return ('i', len(s[1][1]))
        if s[0] == 'arr':
            return ('i', len(s[1]))
        if s[0] == 'str':
            return ('i', len(s[1].encode()))
        return ('len', s)

    def transparent_chain(self, outer, inner):
        """number of single-field layers to get from type outer down to type inner, or None"""
        n = 0
        cur = outer
        it = self.c.ty(inner)
        for _ in range(6):
            ct = self.c.ty(cur)
            if cur == inner or ct['s'] == it['s']:
                return n
            if ct['k'] == 'adt' and ct.get('adt') == 'struct' and 'variants' in ct:
                fs = ct['variants'][0]['fields']
                if len(fs) >= 1:
                    cur = fs[0][1]
                    n += 1
                    continue
            return None
        return None

    def in_range(self, st, v, ft, tt):
        """do the comparisons made on this path show that v fits the type tt?"""
        def rng(t):
            b = t['bits']
            return (0, (1 << b) - 1) if t['k'] == 'uint' else (-(1 << b - 1), (1 << b - 1) - 1)

        def core(x):
            while x and x[0] == 'exact':
                x = x[2]
            return x
        lo, hi = rng(ft)
        c = core(v)
        for k, f in st.facts.items():
            if k[0] == 'fits' and f == 1 and core(k[2]) == c and k[1] in INT_TYPES:
                a, b = rng({'k': 'uint' if k[1][0] == 'u' else 'int', 'bits': int(k[1][1:].replace('size', '64'))})
                lo, hi = max(lo, a), min(hi, b)
            elif k[0] == 'bin' and k[1] == 'Lt' and f in (0, 1):
                if core(k[2]) == c and k[3][0] == 'i':
                    if f:
                        hi = min(hi, k[3][1] - 1)
                    else:
                        lo = max(lo, k[3][1])
                elif core(k[3]) == c and k[2][0] == 'i':
                    if f:
                        lo = max(lo, k[2][1] + 1)
                    else:
                        hi = min(hi, k[2][1])
        a, b = rng(tt)
        return a <= lo and hi <= b

    def fits(self, v, to):
        """does the integer v fit the type, when an analysis knows its range"""
        return None

    def cast(self, st, kind, v, to, frm):
        tt, ft = self.c.ty(to), self.c.ty(frm)
        if kind in ('IntToInt',):
            if v[0] == 'i':
                return ('i', self.intwrap(v[1], to))
            if v[0] == 'lin' and 0:
                return v
            if ft['k'] == 'bool' or tt['s'] == ft['s']:
                return v
            if tt['k'] in ('int', 'uint') and ft['k'] in ('int', 'uint'):
                if self.widens(ft, tt):
                    return v if v[0] == 'exact' else ('exact', tt['s'], v)
                if self.in_range(st, v, ft, tt):
                    return v if v[0] == 'exact' else ('exact', tt['s'], v)
            if ft['k'] == 'char' and tt['k'] in ('int', 'uint') and tt['bits'] >= 32:
                return ('exact', tt['s'], v)
            return ('cast', v, tt['s'], ft['s'])
        if kind.startswith('Coerce') or kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'Subtype', 'FnPtrToPtr'):
            # pointer to wrapper <-> pointer to inner
            if v[0] == 'ref' and tt['k'] in ('ref', 'ptr') and ft['k'] in ('ref', 'ptr'):
                ti, fi = tt['to'], ft['to']
                if self.c.ty(ti)['s'] == self.c.ty(fi)['s']:
                    return v
                n = self.transparent_chain(ti, fi)
                if n:
                    return ('ref', v[1], v[2] + (('w',),) * n)
                n = self.transparent_chain(fi, ti)
                if n:
                    path = v[2]
                    for _ in range(n):
                        if path and path[-1] == ('w',):
                            path = path[:-1]
                        else:
                            path = path + (('f', 0),)
                    return ('ref', v[1], path)
                return v
            if tt['k'] in ('ref', 'ptr') and ft['k'] in ('ref', 'ptr'):
                ti, fi = tt['to'], ft['to']
                if self.c.ty(ti)['s'] != self.c.ty(fi)['s'] and v[0] not in ('str', '&', 'arr'):
                    n = self.transparent_chain(ti, fi)
                    if n:
                        return ('ref', ('D', v), (('w',),) * n)
                    n = self.transparent_chain(fi, ti)
                    if n:
                        return ('ref', ('D', v), (('f', 0),) * n)
                return v
            if kind == 'BoxDerefTransmute':
                return v
            if tt['s'] == ft['s']:
                return v
            if kind == 'Transmute':
                # by-value transparent wrapper transmute
                if v[0] == 'adt':
                    n = self.transparent_chain(frm, to)
                    if n is not None:
                        for _ in range(n):
                            v = self.proj(st, v, ('f', 0))
                        return v
                return ('transmute', v, tt['s'])
            return v
        if v[0] == 'i' and kind == 'IntToFloat':
            return ('cast', v, tt['s'], ft['s'])
        if kind == 'FloatToFloat':
            if ft.get('bits', 64) <= tt.get('bits', 0):
                return v if ft['s'] == tt['s'] else ('exact', tt['s'], v)
        return ('cast', v, tt['s'], ft['s'])

    @staticmethod
    def widens(ft, tt):
        if ft['k'] == tt['k']:
            return tt['bits'] >= ft['bits']
        if ft['k'] == 'uint' and tt['k'] == 'int':
            return tt['bits'] > ft['bits']
        return False

    def discr(self, st, v, tid):
        t = self.c.ty(tid)
        if v[0] == 'adt':
            if 'variants' in t and v[2] < len(t['variants']):
                return ('i', t['variants'][v[2]]['discr'])
            return ('i', v[2])
        while v[0] == 'upd' and isinstance(v[2], tuple) and v[2][0] == 'd':
            v = v[1]
        r = ('discr', v)
        f = st.facts.get(r)
        if isinstance(f, int):
            return ('i', f)
        if 'variants' in t and len(t['variants']) == 1:
            return ('i', t['variants'][0]['discr'])
        return r

    def rvalue(self, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k == 'ref':
            loc, path, _ = self.place(st, r[1])
            if loc[0] == 'K':
                v = self.read(st, loc, path)
                if v[0] == 'vview':
                    v = v[1]
                if v[0] == 'str':
                    return v
                return ('ref', loc, path)
            if loc[0] == 'D' and not path:
                return loc[1]
            return ('ref', loc, path)
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, r[2]), r[3], r[4])
        if k == 'bin':
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            if a[0] == 'ref':
                a = self.snap(st, a)
            if b[0] == 'ref':
                b = self.snap(st, b)
            return self.binop(st, r[1], a, b, r[4])
        if k == 'un':
            v = self.operand(st, r[2])
            return self.unop(st, r[1], v, r[3])
        if k == 'discr':
            loc, path, _ = self.place(st, r[1])
            v = self.read(st, loc, path)
            if v[0] == 'vview':
                v = v[1]
            return self.discr(st, v, r[2])
        if k == 'agg':
            ops = [self.operand(st, o) for o in r[2]]
            kind = r[1]
            t = self.c.ty(r[3])
            if kind == 'tuple':
                return ('tup', tuple(ops))
            if kind == 'array':
                return ('arr', tuple(ops))
            if kind == 'closure':
                return ('clo', t['s'], tuple(ops))
            if kind == 'rawptr':
                return ops[0]
            if isinstance(kind, list):
                if t.get('adt') == 'union' or kind[2] is not None:
                    return ('union', t['path'], kind[2], ops[0] if ops else UNDEF)
                return ('adt', t['path'], kind[1], tuple(ops))
            return ('opaque', 'agg')
        if k == 'repeat':
            v = self.operand(st, r[1])
            if r[2] is not None and r[2] <= 256:
                return ('arr', (v,) * r[2])
            return ('repeat', v)
        return ('opaque', str(r)[:80])

    # ----------------------------------------------------------- running
    def run(self, f, args, mem=None, facts=None, aux=()):
        g = Graph()
        self.g = g
        st = State()
        st.node = g.start
        st.aux = aux
        if mem:
            st.mem.update(mem)
        if facts:
            st.facts.update(facts)
        st.stack.append(Frame(f, 0, None, None, (f.get('path'),)))
        for i, a in enumerate(args):
            st.mem[(1, i + 1)] = a
        self.work = deque([st])
        self.steps = 0
        self.t0 = time.time()
        self.seen = {}
        try:
            while self.work:
                s = self.work.pop()
                self.step_until(s)
        except Incomplete as e:
            g.incomplete = str(e)
        return g

    def default_args(self, f):
        out = []
        for i in range(f['nargs']):
            l = f['locals'][i + 1]
            out.append(('arg', l[1] or ('a%d' % i)))
        return out

    def finish(self, st, kind, ret=None, why=None):
        n = st.node
        if n in self.g.term:
            # node already terminal through another path: make a fresh one
            pass
        m = self.g.new()
        self.g.edges[n].append((None, m))
        self.g.term[m] = {'kind': kind, 'ret': ret, 'state': st, 'why': why, 'snap': self.snap(st, ret) if ret is not None else None}

    def emit(self, st, ev):
        m = self.g.new()
        if len(self.g.edges) > self.max_nodes:
            raise Incomplete('too many nodes')
        self.g.edges[st.node].append((ev, m))
        st.node = m

    def step_until(self, st):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Incomplete('step limit')
            if self.steps & 255 == 0 and time.time() - self.t0 > self.max_time:
                raise Incomplete('time limit')
            fr = st.stack[-1]
            f = fr.f
            bb = fr.bb
            if bb in self.c.loops(f):
                if not self.loop_head(st):
                    return
            b = f['blocks'][bb]
            if b is None:
                self.finish(st, 'panic', why='cleanup')
                return
            for s in b['s']:
                op = s[0]
                if op == '=':
                    v = self.rvalue(st, s[2])
                    self.write_place(st, s[1], v)
                elif op == 'sd':
                    loc, path, tid = self.place(st, s[1])
                    v = self.read(st, loc, path)
                    t = self.c.ty(f['locals'][s[1][0]][0])
                    if v[0] == 'adt':
                        self.store(st, loc, path, ('adt', v[1], s[2], v[3]), tid)
                    else:
                        self.store(st, loc, path, ('adt', t.get('path', t['s']), s[2], ()), tid)
                elif op == 'dead':
                    st.mem.pop((len(st.stack), s[1]), None)
            t = b['t']
            k = t[0]
            if k == 'goto':
                fr.bb = t[1]
            elif k == 'switch':
                nxt = self.switch(st, t)
                if nxt is None:
                    return
                fr.bb = nxt
            elif k == 'ret':
                v = self.load(st, (len(st.stack), 0))
                if len(st.stack) == 1:
                    self.finish(st, 'ret', v)
                    return
                if not self.do_return(st, v):
                    return
            elif k == 'drop':
                r = self.do_drop(st, t)
                if r is None:
                    return
            elif k == 'assert':
                c = self.operand(st, t[1])
                exp = 1 if t[2] else 0
                if c[0] == 'i':
                    if c[1] != exp:
                        self.finish(st, 'panic', why='assert:' + t[4] + ' at ' + self.where(st))
                        return
                else:
                    if self.want_panics and not t[4].startswith('Overflow'):
                        s2 = st.fork()
                        self.assume(s2, c, 1 - exp)
                        self.finish(s2, 'panic', why='assert:' + t[4] + ' at ' + self.where(st))
                    self.assume(st, c, exp)
                fr.bb = t[3]
            elif k == 'call' or k == 'tailcall':
                if not self.call(st, t):
                    return
            else:
                self.finish(st, 'unreachable', why=self.where(st))
                return

    def where(self, st):
        fr = st.stack[-1]
        f = fr.f
        return '%s:%s (%s)' % ((f.get('file') or '').replace('/repo/', ''), f['blocks'][fr.bb]['l'] if f['blocks'][fr.bb] else '?', f['path'])

    def do_drop(self, st, t):
        st.stack[-1].bb = t[2]
        return True

    def assume(self, st, term, val):
        while term[0] == 'not':
            term = term[1]
            val = 1 - val
        st.facts[term] = val
        if term[0] == 'bin' and term[1] == 'Eq' and val == 1:
            a, b = term[2], term[3]
            if b[0] == 'i' and a[0] != 'i':
                st.facts.setdefault(a, b[1])
        elif term[0] == 'bin' and term[1] == 'Eq' and val == 0:
            a, b = term[2], term[3]
            if b[0] == 'i' and a[0] == 'discr':
                key = ('excl', a)
                st.facts[key] = frozenset(st.facts.get(key, frozenset()) | {b[1]})

    def switch(self, st, t):
        d = self.operand(st, t[1])
        if d[0] == 'not' and d[1] in st.facts and isinstance(st.facts[d[1]], int):
            d = ('i', 1 - st.facts[d[1]])
        if d[0] == 'i':
            dv = d[1]
            if dv < 0:
                ty = self.c.ty(t[4])
                bits = ty.get('bits', 128)
                dv &= (1 << bits) - 1
            for v, tgt in t[2]:
                if v == dv:
                    return tgt
            return t[3]
        ty = self.c.ty(t[4])
        neg = False
        term = d
        while term[0] == 'not':
            term = term[1]
            neg = not neg
        excl = st.facts.get(('excl', term), frozenset())
        branches = []
        isbool = ty['k'] == 'bool'
        for v, tgt in t[2]:
            vv = self.signed(v, ty)
            if vv in excl or not self.possible(term, vv, ty):
                continue
            val = (1 - vv) if (isbool and neg) else vv
            branches.append((val, tgt))
        other = t[3]
        ob = st.stack[-1].f['blocks'][other]
        dead = ob is not None and ob['t'][0] == 'unreachable' and not ob['s']
        if not dead:
            if isbool:
                used = {b[0] for b in branches}
                rest = [x for x in (0, 1) if x not in used and x not in excl]
                if rest:
                    branches.append((rest[0], other))
            else:
                dv = self.remaining(term, ty, {b[0] for b in branches} | set(excl), st)
                if dv is None:
                    branches.append((None, other))
                elif len(dv) == 1:
                    branches.append((dv[0], other))
                elif dv:
                    branches.append((None, other))
        if not branches:
            self.finish(st, 'unreachable', why='no branch ' + self.where(st))
            return None
        for val, tgt in branches[1:]:
            s2 = st.fork()
            self.refine(s2, term, val, {b[0] for b in branches if b[0] is not None})
            s2.stack[-1].bb = tgt
            self.work.append(s2)
        val, tgt = branches[0]
        self.refine(st, term, val, {b[0] for b in branches if b[0] is not None})
        return tgt

    def possible(self, term, v, ty):
        return True

    def refine(self, st, term, val, used):
        if val is not None:
            self.assume(st, term, val)
        else:
            key = ('excl', term)
            st.facts[key] = frozenset(st.facts.get(key, frozenset()) | used)

    def remaining(self, term, ty, used, st):
        """for discriminants: the variant discriminants not in used"""
        if term[0] == 'discr':
            tid = None
            t = self.enum_type_of(term, st)
            if t is not None:
                return [v['discr'] for v in t['variants'] if v['discr'] not in used]
        return None

    def enum_type_of(self, term, st):
        return None

    def signed(self, v, ty):
        if ty['k'] == 'int':
            b = ty['bits']
            if v >> (b - 1) & 1:
                return v - (1 << b)
        return v

    # ----------------------------------------------------------- loops
    def havoc(self, st, sig):
        """forget, at loop entry, the integers named in havoc_heads: the body is then analysed for any iteration"""
        for loc in list(self.live_mem(st)):
            h = shash((sig, loc))
            if not isinstance(loc[0], int) or h not in self.havoc_heads:
                continue

            def hv(v, path):
                if not isinstance(v, tuple) or not v:
                    return v
                if v[0] in ('i', 'lin', 'len'):
                    return ('phi', h) + path
                if v[0] in ('adt',):
                    return (v[0], v[1], v[2], tuple(hv(x, path + (i,)) for i, x in enumerate(v[3])))
                if v[0] == 'tup':
                    return ('tup', tuple(hv(x, path + (i,)) for i, x in enumerate(v[1])))
                return v
            st.mem[loc] = hv(st.mem[loc], ())

    def loop_head(self, st):
        sig = tuple((fr.f['id'], fr.bb) for fr in st.stack)
        hist = st.visits.get(sig, ())
        n = len(hist)
        if n == 0 and self.havoc_heads:
            self.havoc(st, sig)
        if self.note_loops:
            lm = self.live_mem(st)
            vals = {shash((sig, loc)): self.snap(st, v) for loc, v in lm.items() if isinstance(loc[0], int)}
            prev = {shash((sig, loc)): self.snap(st, hist[-1][loc]) for loc in lm if n and loc in hist[-1]}
            note = Note('back' if n else 'enter', shash(sig), vals, prev, dict(st.facts))
            note.mem = {loc: self.snap(st, v) for loc, v in st.mem.items() if loc[0] == 'M'}
            note.n = n
            self.emit(st, note)
        key = self.canon(st)
        if key in self.seen:
            self.g.edges[st.node].append((None, self.seen[key]))
            return False
        if n >= 1:
            prev = hist[-1]
            hit = False
            lm = self.live_mem(st)
            for d, fr in enumerate(st.stack, 1):
                for i, l in enumerate(fr.f['locals']):
                    loc = (d, i)
                    if loc in lm and loc in prev and prev[loc] != st.mem[loc]:
                        lt = self.c.ty(l[0])
                        if lt['k'] in ('int', 'uint') or lt['k'] == 'ref' and st.mem[loc][0] not in ('ref', '&', 'str'):
                            st.mem[loc] = ('phi', shash((sig, loc)))
                            hit = True
            if hit:
                for k in [k for k in st.facts if self.has_phi(k)]:
                    del st.facts[k]
                key = self.canon(st)
                if key in self.seen:
                    self.g.edges[st.node].append((None, self.seen[key]))
                    return False
        if n >= self.widen_after:
            prev = hist[-1]
            self.widen(st, prev, sig, hard=n >= self.widen_after + 3)
            key = self.canon(st)
            if key in self.seen:
                self.g.edges[st.node].append((None, self.seen[key]))
                return False
            if n > 14:
                raise Incomplete('loop does not stabilise at ' + self.where(st))
        st.visits[sig] = hist + (dict(st.mem),)
        m = self.g.new()
        self.g.edges[st.node].append((None, m))
        st.node = m
        self.seen[key] = m
        return True

    def live_mem(self, st):
        out = {}
        for d, fr in enumerate(st.stack, 1):
            livein, borrowed = self.c.live(fr.f)
            if d == len(st.stack):
                lv = livein[fr.bb]
            else:
                # caller frame: live at its return block
                nx = st.stack[d]
                lv = livein[nx.retbb] if nx.retbb is not None else set()
            for i in range(len(fr.f['locals'])):
                loc = (d, i)
                if loc in st.mem and (i in lv or i in borrowed):
                    out[loc] = st.mem[loc]
        for loc, v in st.mem.items():
            if not (isinstance(loc[0], int)):
                out[loc] = v
        return out

    def canon(self, st):
        lm = self.live_mem(st)
        # drop borrowed-but-unreachable locals
        acc = set()
        for v in lm.values():
            subterms(v, acc)
        facts = []
        drop = []
        for k, v in st.facts.items():
            base = k[1] if k[0] in ('excl', 'discr') else k
            if k in acc or base in acc or self.mentions(k, acc):
                facts.append((k, v if not isinstance(v, frozenset) else tuple(sorted(v))))
            else:
                drop.append(k)
        for k in drop:
            del st.facts[k]
        return (tuple((fr.f['id'], fr.bb, fr.retbb) for fr in st.stack),
                frozenset(lm.items()), frozenset(facts), st.aux)

    def mentions(self, k, acc):
        if k in acc or k[0] == 'i':
            return True
        if k[0] == 'bin':
            return self.mentions(k[2], acc) and self.mentions(k[3], acc)
        if k[0] in ('len', 'lin', 'not', 'discr', 'excl', 'slice'):
            return all(self.mentions(x, acc) for x in k[1:] if isinstance(x, tuple))
        return False

    def widen(self, st, prev, sig, hard):
        cur = self.live_mem(st)
        hit = False
        for loc, v in cur.items():
            if loc in prev and prev[loc] != v:
                st.mem[loc] = self.join(prev[loc], v, (sig, loc), hard)
                hit = True
        # a widened counter keeps no facts
        ks = [k for k in st.facts if self.has_phi(k)] if hit else []
        for k in ks:
            del st.facts[k]

    def has_phi(self, k):
        acc = set()
        subterms(k, acc)
        return any(x and x[0] == 'phi' for x in acc if isinstance(x, tuple))

    def join(self, a, b, name, hard):
        if a == b:
            return a
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            return ('adt', a[1], a[2], tuple(self.join(x, y, name + (i,), hard) for i, (x, y) in enumerate(zip(a[3], b[3]))))
        if a[0] in ('tup', 'arr') and a[0] == b[0] and len(a[1]) == len(b[1]):
            return (a[0], tuple(self.join(x, y, name + (i,), hard) for i, (x, y) in enumerate(zip(a[1], b[1]))))
        if a[0] == 'adt' and b[0] == 'adt' and not hard:
            return b
        if a[0] == 'ref' or b[0] == 'ref':
            return b
        if a[0] == 'i' and b[0] == 'i' and not hard and a[1] in (0, 1) and b[1] in (0, 1):
            return b
        return ('phi', shash(name))

    # ----------------------------------------------------------- calls
    def do_return(self, st, v):
        fr = st.stack.pop()
        d = len(st.stack) + 1
        for loc in [l for l in st.mem if l[0] == d]:
            del st.mem[loc]
        tail = fr.tail
        if tail is not None:
            return tail(self, st, v, fr)
        if fr.retbb is None:
            self.finish(st, 'diverge')
            return False
        self.write_place(st, fr.dest, v)
        st.stack[-1].bb = fr.retbb
        return True

    def set_ret(self, st, t, v):
        """write result of a call terminator in the top frame and go on"""
        if t[0] == 'tailcall':
            st.mem[(len(st.stack), 0)] = v
            raise Incomplete('tailcall')
        if t[4] is None:
            self.finish(st, 'diverge', why=self.where(st))
            return False
        self.write_place(st, t[3], v)
        st.stack[-1].bb = t[4]
        return True

    def site(self, st):
        return tuple((fr.f['path'], fr.bb) for fr in st.stack[-4:])

    def push(self, st, callee_f, args, t, tail=None):
        if len(st.stack) > 60:
            raise Incomplete('call depth')
        rec = sum(1 for fr in st.stack if fr.f['id'] == callee_f['id'])
        if rec >= 3:
            raise Incomplete('recursion ' + callee_f['path'])
        d = len(st.stack) + 1
        fr = Frame(callee_f, 0, t[3] if t is not None else None, t[4] if t is not None else None, None, tail)
        st.stack.append(fr)
        for i, a in enumerate(args):
            st.mem[(d, i + 1)] = a
        return True

    def call(self, st, t):
        c = t[1]
        args = [self.operand(st, o) for o in t[2]]
        path = c.get('path', '')
        if 'dyn' in c:
            fv = self.operand(st, c['dyn'])
            return self.event(st, t, 'fnptr', 'call', self.snap(st, fv), args, c)
        rpath = c.get('rpath', path)
        for p in (rpath, path):
            m = self.models.get(p)
            if m is not None:
                r = m(self, st, t, c, args)
                if r is not NotImplemented:
                    return r
        m = generic_model(self, st, t, c, args, path, rpath)
        if m is not NotImplemented:
            return m
        if self.force_event is not None and self.force_event(c, args):
            return self.event(st, t, c.get('trait') or path, c.get('method') or path.split('::')[-1], None, args, c)
        inst = c.get('inst')
        if inst is not None:
            cf = self.c.fns.get(inst)
            if cf is not None and not cf.get('truncated'):
                if self.opaque_inst is not None and self.opaque_inst(cf, c):
                    return self.event(st, t, c.get('trait') or path, c.get('method') or path.split('::')[-1], None, args, c)
                if c.get('closure') and cf.get('closure') and len(args) == 2 and cf.get('spread') is None:
                    # rust-call: (env, (args...)) -> env, args...
                    tup = args[1]
                    n = cf['nargs'] - 1
                    args = [args[0]] + [self.proj(st, tup, ('f', i)) for i in range(n)]
                rec = sum(1 for fr in st.stack if fr.f['id'] == cf['id'])
                if rec >= 1 and cf['id'] in self.c.endless():
                    self.finish(st, 'panic', why='endless recursion through %s at %s' % (cf['path'], self.where(st)))
                    return False
                if rec >= 1:
                    return self.event(st, t, 'recursion', cf['path'], None, args, c)
                return self.push(st, cf, args, t)
        if any(x in path for x in PANIC_PATHS) or self.c.ty(t[5])['k'] == 'never':
            self.finish(st, 'panic', why=path.split('::')[-1] + ' at ' + self.where(st))
            return False
        if c.get('abs') or c.get('virtual'):
            tr = c.get('trait', '')
            if tr.split('::')[-1] in EVENT_TRAITS:
                return self.event(st, t, tr, c['method'], None, args, c)
            return self.pure(st, t, c, args)
        tr = c.get('trait', '')
        if tr and tr.split('::')[-1] in EVENT_TRAITS and 'self_ty' in c and c.get('wstr') is None:
            sk = self.c.ty(c['self_ty'])
            if sk['k'] in ('param', 'dyn', 'alias') or tr.split('::')[-1] == 'Write':
                return self.event(st, t, tr, c['method'], None, args, c)
        # external leaf
        return self.leaf(st, t, c, args)

    def event(self, st, t, trait, method, recv, args, c):
        sargs = [self.snap(st, a) for a in args]
        for i, fid in c.get('clos', ()):
            if i < len(sargs) and sargs[i][0] == 'clo':
                sargs[i] = sargs[i][:3] + (fid,)
        if recv is None and sargs:
            recv, sargs = sargs[0], sargs[1:]
        ret = ('ret', self.site(st))
        self.drop_facts(st, ret)
        ev = Ev(trait, method, recv, tuple(sargs), ret, self.where(st), c.get('path'),
                tuple(self.c.ty(x)['s'] for x in c.get('targs', [])))
        ev.data = self.c.ty(c['self_ty'])['s'] if 'self_ty' in c else None
        self.emit(st, ev)
        # effects: everything reachable through &mut args of workspace-state type may change
        rt = self.c.ty(t[5])
        if rt['k'] == 'tuple' and not rt['elems']:
            ret = UNIT
        self.havoc_args(st, t, args, c)
        if rt['k'] == 'never':
            self.finish(st, 'panic', why='diverging event')
            return False
        if rt.get('path', '').endswith('result::Result') and 'variants' in rt:
            # split on success / failure at the call
            okf = rt['variants'][0]['fields'][0][1]
            okt = self.c.ty(okf)
            okv = UNIT if (okt['k'] == 'tuple' and not okt['elems']) else ('vfld', ret, 0, 0)
            s2 = st.fork()
            er = ('adt', rt['path'], 1, (('err', ret),))
            n2 = self.g.new()
            self.g.edges[s2.node].append((('res', 'err', ev), n2))
            s2.node = n2
            n1 = self.g.new()
            self.g.edges[st.node].append((('res', 'ok', ev), n1))
            st.node = n1
            if self.set_ret(s2, t, er):
                self.work.append(s2)
            return self.set_ret(st, t, ('adt', rt['path'], 0, (okv,)))
        return self.set_ret(st, t, ret)

    def drop_facts(self, st, term):
        ks = []
        for k in st.facts:
            acc = set()
            subterms(k, acc)
            if term in acc:
                ks.append(k)
        for k in ks:
            del st.facts[k]

    def havoc_args(self, st, t, args, c):
        f = st.stack[-1].f
        for i, a in enumerate(args):
            tid = None
            if i < len(t[2]) and t[2][i][0] in ('c', 'm') and len(t[2][i][1]) == 1:
                tid = f['locals'][t[2][i][1][0]][0]
            self.havoc_ref(st, a, 0, tid)

    def havoc_ref(self, st, v, depth, tid=None):
        """an opaque callee got v (of type tid): state behind &mut pointers to *local* structures may change"""
        if depth > 6:
            return
        ty = self.c.ty(tid) if tid is not None else {}
        if ty.get('k') == 'ref' and not ty.get('mut') and 'Cell' not in ty.get('s', ''):
            return
        if v[0] == 'ref' and v[1][0] != 'K':
            old = self.read(st, v[1], v[2])
            if old[0] == 'vview':
                return
            to = ty.get('to') if ty.get('k') == 'ref' and ty.get('mut') else None
            new = self.havoc_val(st, old, ('hv', self.site(st), v[1], v[2]), depth, to)
            if new != old:
                try:
                    self.store(st, v[1], v[2], new)
                except Exception:
                    pass
        elif v[0] == 'wrapv':
            self.havoc_ref(st, v[1], depth + 1)
        elif v[0] == 'adt':
            for i, x in enumerate(v[3]):
                self.havoc_ref(st, x, depth + 1, self.field_tid(v, i, tid))
        elif v[0] in ('tup',):
            for i, x in enumerate(v[1]):
                self.havoc_ref(st, x, depth + 1, self.elem_tid(tid, i))

    def is_enum(self, path):
        c = self.c
        if not hasattr(c, '_enums'):
            tys = c.tys.values() if isinstance(c.tys, dict) else c.tys
            c._enums = {t['path'] for t in tys if t and len(t.get('variants') or ()) > 1}
        return path in c._enums or path.endswith('::Option') or path.endswith('::Result')

    def havoc_val(self, st, v, name, depth, tid=None):
        if v[0] == 'wrapv':
            return ('wrapv', self.havoc_val(st, v[1], name, depth + 1))
        if v[0] == 'ref':
            self.havoc_ref(st, v, depth + 1, tid)
            return v
        if v[0] == 'adt' and not self.is_enum(v[1]):
            return ('adt', v[1], v[2], tuple(self.havoc_val(st, x, name + (i,), depth, self.field_tid(v, i, tid))
                                             for i, x in enumerate(v[3])))
        if v[0] == 'tup':
            return ('tup', tuple(self.havoc_val(st, x, name + (i,), depth, self.elem_tid(tid, i)) for i, x in enumerate(v[1])))
        if v[0] in ('i', 'adt', 'arr', 'flt', 'phi', 'lin', 'bin', 'not', 'vec') or \
                tid is not None and self.c.ty(tid)['k'] in ('bool', 'char', 'int', 'uint', 'float'):
            return ('havoc', shash(name), ('at',) + name[4:])
        return v

    def pure(self, st, t, c, args):
        nm = c.get('rpath') if not (c.get('abs') or c.get('virtual')) else None
        v = ('app', c.get('path', '?'), tuple(self.snap(st, a) for a in args))
        rt = self.c.ty(t[5])
        if rt['k'] == 'tuple' and not rt['elems']:
            v = UNIT
        return self.set_ret(st, t, self.norm(st, v))

    def leaf(self, st, t, c, args):
        # mutable borrows handed to unknown code are clobbered (args typed &mut T)
        path = c.get('rpath') or c.get('path', '?')
        snaps = tuple(self.snap(st, a) for a in args)
        fr = st.stack[-1]
        for o, a in zip(t[2], args):
            if self.is_mut_ref(fr.f, o) and a[0] == 'ref' and a[1][0] != 'K':
                old = self.read(st, a[1], a[2])
                if old[0] != 'vview':
                    self.store(st, a[1], a[2], post(path, self.snap(st, old), tuple(s for s, b in zip(snaps, args) if b is not a), self.site(st)))
            elif self.is_mut_ref(fr.f, o) and a[0] not in ('ref', 'K', 'str', '&'):
                loc = ('D', a)
                old = self.load(st, loc)
                st.mem[loc] = post(path, old, tuple(s for s, b in zip(snaps, args) if b is not a), self.site(st))
        for s in snaps:
            if self.mentions_closure(s):
                self.g.escapes.append((path, self.where(st)))
                break
        v = fold_int(path, snaps) or ('app', path, snaps)
        rt = self.c.ty(t[5])
        if rt['k'] == 'tuple' and not rt['elems']:
            v = UNIT
        return self.set_ret(st, t, self.norm(st, v))

    def mentions_closure(self, s):
        acc = set()
        subterms(s, acc)
        return any(isinstance(x, tuple) and x and x[0] == 'clo' for x in acc)

    def is_mut_ref(self, f, o):
        if o[0] not in 'cm':
            return False
        p = o[1]
        if len(p) != 1:
            return False
        t = self.c.ty(f['locals'][p[0]][0])
        return t['k'] == 'ref' and t['mut']


INT_METHOD = re.compile(r'^(?:core|std)::num::<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$')


def fold_int(path, args):
    """integer methods on constants"""
    if not args or any(a[0] != 'i' or not isinstance(a[1], int) for a in args):
        return None
    m = INT_METHOD.match(path or '')
    xs = [a[1] for a in args]
    if not m:
        if path and len(xs) == 2 and path.split('::')[-1] in ('integer_min', 'integer_max'):
            return ('i', (min if path.endswith('min') else max)(xs))
        return None
    ty, f = m.groups()
    bits = 64 if ty.endswith('size') else int(ty[1:])
    lo, hi = (0, 2 ** bits - 1) if ty[0] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)

    def wrap(n):
        n &= 2 ** bits - 1
        return n - 2 ** bits if n > hi else n
    two = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}
    if f in ('unsigned_abs', 'abs') and len(xs) == 1 and (f == 'unsigned_abs' or xs[0] != lo):
        return ('i', abs(xs[0]))
    if f == 'signum' and len(xs) == 1:
        return ('i', (xs[0] > 0) - (xs[0] < 0))
    k, _, o = f.partition('_')
    if len(xs) == 2 and o in two:
        n = two[o](*xs)
        if k == 'saturating':
            return ('i', max(lo, min(hi, n)))
        if k == 'wrapping':
            return ('i', wrap(n))
    return None


# --------------------------------------------------------------- std models
DEFAULT_MODELS = {}


def model(*paths):
    def deco(fn):
        for p in paths:
            DEFAULT_MODELS[p] = fn
        return fn
    return deco


def opt(it, v):
    return ('adt', 'core::option::Option', 1, (v,))


NONE = ('adt', 'core::option::Option', 0, ())


def fork2(it, st, t, outcomes):
    """outcomes: list of (value, assume_fn or None); first continues in st"""
    for v, asm in outcomes[1:]:
        s2 = st.fork()
        if asm:
            asm(s2)
        if it.set_ret(s2, t, v):
            it.work.append(s2)
    v, asm = outcomes[0]
    if asm:
        asm(st)
    return it.set_ret(st, t, v)


@model('core::mem::replace', 'std::mem::replace')
def m_replace(it, st, t, c, args):
    a = args[0]
    if a[0] == 'ref':
        old = it.read(st, a[1], a[2])
        if old[0] == 'vview':
            return NotImplemented
        it.store(st, a[1], a[2], args[1])
    else:
        old = it.load(st, ('D', a))
        st.mem[('D', a)] = args[1]
    return it.set_ret(st, t, old)


@model('core::mem::swap', 'std::mem::swap')
def m_swap(it, st, t, c, args):
    def rd(a):
        return it.read(st, a[1], a[2]) if a[0] == 'ref' else it.load(st, ('D', a))

    def wr(a, v):
        if a[0] == 'ref':
            it.store(st, a[1], a[2], v)
        else:
            st.mem[('D', a)] = v
    x, y = rd(args[0]), rd(args[1])
    wr(args[0], y)
    wr(args[1], x)
    return it.set_ret(st, t, UNIT)


@model('core::str::<impl str>::len', 'core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len',
       'alloc::string::String::len', 'std::string::String::len', 'std::vec::Vec::<T, A>::len')
def m_len(it, st, t, c, args):
    return it.set_ret(st, t, it.norm(st, it.length(st, args[0])))


@model('core::str::<impl str>::is_empty', 'core::slice::<impl [T]>::is_empty',
       'alloc::vec::Vec::<T, A>::is_empty', 'alloc::string::String::is_empty')
def m_is_empty(it, st, t, c, args):
    n = it.norm(st, it.length(st, args[0]))
    return it.set_ret(st, t, it.binop(st, 'Eq', n, ('i', 0), it.c.tid('usize') or 0))


@model('core::str::<impl str>::as_bytes', 'alloc::string::String::as_str', 'alloc::string::String::as_bytes',
       'alloc::vec::Vec::<T, A>::as_slice', 'std::string::String::as_str')
def m_as_bytes(it, st, t, c, args):
    return it.set_ret(st, t, it.snap(st, args[0]))


@model('core::str::traits::<impl core::cmp::PartialEq for str>::eq')
def m_str_eq(it, st, t, c, args):
    a, b = it.snap(st, args[0]), it.snap(st, args[1])
    if a[0] == 'str' and b[0] == 'str':
        return it.set_ret(st, t, ('i', int(a[1] == b[1])))
    if a == b:
        return it.set_ret(st, t, ('i', 1))
    if str(a) > str(b):
        a, b = b, a
    return it.set_ret(st, t, it.norm(st, ('app', 'str_eq', (a, b))))


INT_TYPES = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
FLOAT_TYPES = {'f32', 'f64'}

ITER_NEXT = ('next', 'next_back')


def fmt_loop(it, st, t, cf, args, c):
    """write!(w, ..): any number of w.write_str(fragment) calls, stopping at the first Err"""
    rt = it.c.ty(t[5])
    frag = ('frag', it.snap(st, args[1]))
    depth = len(st.stack)
    writer = args[0]
    ok = ('adt', rt['path'], 0, (UNIT,))
    fe = ('adt', 'core::fmt::Error', 0, ())
    er = ('adt', rt['path'], 1, (fe,))

    sig = ('fmtloop',) + tuple((fr.f['id'], fr.bb) for fr in st.stack)

    def head(st):
        hist = st.visits.get(sig, ())
        if len(hist) >= 2:
            it.widen(st, hist[-1], sig, hard=len(hist) >= 4)
            if len(hist) > 10:
                raise Incomplete('write! loop does not stabilise')
        st.visits[sig] = hist + (dict(st.mem),)
        key = ('fmtloop', it.canon(st), it.snap(st, writer), frag)
        if key in it.seen:
            it.g.edges[st.node].append((None, it.seen[key]))
            return False
        if len(it.g.edges) > it.max_nodes:
            raise Incomplete('too many nodes')
        m = it.g.new()
        it.g.edges[st.node].append((None, m))
        st.node = m
        it.seen[key] = m
        for lab, v in (('done', ok), ('fail', er)):
            s2 = st.fork()
            n2 = it.g.new()
            it.g.edges[m].append((('fmt', lab, frag), n2))
            s2.node = n2
            if it.set_ret(s2, t, v):
                it.work.append(s2)
        n3 = it.g.new()
        it.g.edges[m].append((('fmt', 'frag', frag), n3))
        st.node = n3
        return it.push(st, cf, [writer, frag], t, tail=after)

    def after(it2, st, v, fr):
        if v[0] == 'adt':
            if v[2] == 1:
                return it.set_ret(st, t, er)
            return head(st)
        s2 = st.fork()
        it.assume(s2, ('discr', v), 1)
        if it.set_ret(s2, t, er):
            it.work.append(s2)
        it.assume(st, ('discr', v), 0)
        return head(st)

    return head(st)


def breaks(it, rt):
    """(breaking variant, continuing variant) of a Try type"""
    n = rt.get('path', '').split('::')[-1]
    return {'Result': (1, 0), 'ControlFlow': (1, 0), 'Option': (0, 1)}.get(n)


def iter_loop(it, st, t, c, args, meth):
    """iter.try_for_each(f) and its relatives: the loop over next() that they are documented to be"""
    fids = dict((i, f) for i, f in c.get('clos', ()))
    ci = len(args) - 1
    cf = it.c.fns.get(fids.get(ci))
    if cf is None or cf.get('truncated') or not cf.get('closure'):
        return NotImplemented
    rt = it.c.ty(t[5])
    brk = None
    if meth.startswith('try_'):
        brk = breaks(it, rt)
        if brk is None or 'variants' not in rt:
            return NotImplemented
    folds = meth in ('fold', 'try_fold')
    if sum(1 for fr in st.stack if fr.f['id'] == cf['id']) or cf['nargs'] != (3 if folds else 2):
        return NotImplemented
    itv = it.snap(st, args[0])
    sig = ('iterloop',) + tuple((fr.f['id'], fr.bb) for fr in st.stack)
    env = ('E', shash(sig))
    acc = ('A', shash(sig))
    st.mem[env] = args[ci]
    if folds:
        st.mem[acc] = args[1]
    itid = cf['locals'][cf['nargs']][0]

    def leave(st, v):
        st.mem.pop(env, None)
        st.mem.pop(acc, None)
        return it.set_ret(st, t, v)

    def ended(st):
        if meth == 'for_each':
            return UNIT
        if meth == 'fold':
            return st.mem[acc]
        if meth == 'all':
            return ('i', 1)
        if meth == 'any':
            return ('i', 0)
        if meth == 'find':
            return ('adt', rt['path'], 0, ())
        return ('adt', rt['path'], brk[1], (st.mem[acc] if folds else UNIT,))

    def head(st):
        hist = st.visits.get(sig, ())
        if len(hist) >= 1:
            it.widen(st, hist[-1], sig, hard=len(hist) >= 3)
            if len(hist) > 10:
                raise Incomplete('iterator loop does not stabilise')
        st.visits[sig] = hist + (dict(st.mem),)
        d = len(st.stack)
        key = ('iterloop', it.canon(st), frozenset((l, v) for l, v in st.mem.items() if l[0] == d), itv)
        if key in it.seen:
            it.g.edges[st.node].append((None, it.seen[key]))
            return False
        if len(it.g.edges) > it.max_nodes:
            raise Incomplete('too many nodes')
        m = it.g.new()
        it.g.edges[st.node].append((None, m))
        st.node = m
        it.seen[key] = m
        nm = ('next', itv, 'next')
        it.drop_facts(st, nm)
        item = nm
        if it.iter_payload is not None:
            item = it.iter_payload(it, st, itid, nm) or nm
        s2 = st.fork()
        m0, m1 = it.g.new(), it.g.new()
        it.g.edges[m].append((('iter', 'some', itv), m0))
        it.g.edges[m].append((('iter', 'none', itv), m1))
        st.node, s2.node = m0, m1
        if leave(s2, ended(s2)):
            it.work.append(s2)
        cargs = [('ref', env, ())]
        if folds:
            cargs.append(st.mem[acc])
        cargs.append(('&', item) if meth == 'find' else item)
        return it.push(st, cf, cargs, t, tail=lambda i2, s, v, fr: after(s, v, item))

    def after(st, v, item):
        if meth == 'for_each':
            return head(st)
        if meth == 'fold':
            st.mem[acc] = v
            return head(st)
        if meth in ('all', 'any', 'find'):
            stop = 0 if meth == 'all' else 1
            sv = ('adt', rt['path'], 1, (item,)) if meth == 'find' else ('i', stop)
            if v[0] != 'i':
                f = st.facts.get(v)
                if isinstance(f, int):
                    v = ('i', f)
            if v[0] == 'i':
                return leave(st, sv) if v[1] == stop else head(st)
            s2 = st.fork()
            it.assume(s2, v, stop)
            if leave(s2, sv):
                it.work.append(s2)
            it.assume(st, v, 1 - stop)
            return head(st)
        if v[0] == 'adt':
            if v[2] == brk[0]:
                return leave(st, v)
            if folds:
                st.mem[acc] = v[3][0] if v[3] else UNIT
            return head(st)
        s2 = st.fork()
        it.assume(s2, ('discr', v), brk[0])
        if leave(s2, v):
            it.work.append(s2)
        it.assume(st, ('discr', v), brk[1])
        if folds:
            st.mem[acc] = ('vfld', v, brk[1], 0)
        return head(st)

    return head(st)


ITER_DRIVERS = ('try_for_each', 'for_each', 'try_fold', 'fold', 'all', 'any', 'find')


def generic_model(it, st, t, c, args, path, rpath):
    tr = c.get('trait', '')
    meth = c.get('method')
    trn = tr.split('::')[-1]
    if trn == 'Iterator' and meth in ITER_DRIVERS and c.get('inst') is None and c.get('clos'):
        r = iter_loop(it, st, t, c, args, meth)
        if r is not NotImplemented:
            return r
    # numeric conversions
    if trn in ('TryFrom', 'TryInto', 'From', 'Into'):
        ta = [it.c.ty(x)['s'] for x in c.get('targs', [])]
        if trn in ('TryInto', 'Into') and len(ta) >= 2:
            frm, to = ta[0], ta[1]
        elif len(ta) >= 2:
            to, frm = ta[0], ta[1]
        else:
            return NotImplemented
        if frm in INT_TYPES | {'bool', 'char'} and to in INT_TYPES | FLOAT_TYPES or (frm in FLOAT_TYPES and to in FLOAT_TYPES):
            v = args[0]
            if trn in ('From', 'Into'):
                if v[0] == 'i' and to in INT_TYPES:
                    return it.set_ret(st, t, v)
                return it.set_ret(st, t, v if frm == to else ('exact', to, v))
            if frm in INT_TYPES and to in INT_TYPES:
                rt = it.c.ty(t[5])
                okv = ('adt', rt['path'], 0, (v if (v[0] == 'i' or frm == to) else ('exact', to, v),))
                errv = ('adt', rt['path'], 1, (('converr', to, v),))
                ti, fi = it.c.ty(it.c.tid(to)), it.c.ty(it.c.tid(frm))
                if frm == to or it.widens(fi, ti) and 'size' not in frm and 'size' not in to:
                    return it.set_ret(st, t, okv)
                if v[0] == 'i':
                    ok = it.intwrap(v[1], it.c.tid(to)) == v[1]
                    return it.set_ret(st, t, okv if ok else errv)
                key = ('fits', to, v)
                f = st.facts.get(key, it.fits(v, to))
                if isinstance(f, int):
                    return it.set_ret(st, t, okv if f else errv)
                return fork2(it, st, t, [(okv, lambda s: s.facts.__setitem__(key, 1)),
                                         (errv, lambda s: s.facts.__setitem__(key, 0))])
    if trn == 'Write' and meth in ('write_fmt', 'write_char') and c.get('wstr') is not None and c.get('inst') is None:
        cf = it.c.fns.get(c['wstr'])
        if cf is not None:
            return fmt_loop(it, st, t, cf, args, c)
    # iterators: next on anything not analysed inline
    if trn in ('Iterator', 'DoubleEndedIterator') and meth in ITER_NEXT and c.get('inst') is None:
        rt = it.c.ty(t[5])
        itv = it.snap(st, args[0])
        nm = ('next', itv, meth)
        it.drop_facts(st, nm)
        item = nm
        if it.iter_payload is not None:
            item = it.iter_payload(it, st, rt['variants'][1]['fields'][0][1] if 'variants' in rt else None, nm)
            if item is None:
                item = nm
        m0 = it.g.new()
        m1 = it.g.new()
        s2 = st.fork()
        it.g.edges[st.node].append((('iter', 'some', itv), m0))
        it.g.edges[s2.node].append((('iter', 'none', itv), m1))
        st.node, s2.node = m0, m1
        if it.set_ret(s2, t, ('adt', rt['path'], 0, ())):
            it.work.append(s2)
        return it.set_ret(st, t, ('adt', rt['path'], 1, (item,)))
    if trn == 'IntoIterator' and meth == 'into_iter' and c.get('inst') is None:
        return it.set_ret(st, t, ('app', 'into_iter', (it.snap(st, args[0]),)))
    if trn == 'PartialEq' and meth in ('eq', 'ne') and c.get('inst') is None:
        a, b = it.snap(st, args[0]), it.snap(st, args[1])
        while a[0] == '&' and b[0] == '&':
            a, b = a[1], b[1]
        r = None
        if a == b and 'f64' not in it.c.ty(c.get('self_ty'))['s'] and 'f32' not in it.c.ty(c.get('self_ty'))['s']:
            r = 1
        elif a[0] == 'i' and b[0] == 'i':
            r = int(a[1] == b[1])
        elif a[0] == 'str' and b[0] == 'str':
            r = int(a[1] == b[1])
        if r is not None:
            return it.set_ret(st, t, ('i', r if meth == 'eq' else 1 - r))
        term = ('app', 'eq', (a, b))
        f = st.facts.get(term)
        if isinstance(f, int):
            return it.set_ret(st, t, ('i', f if meth == 'eq' else 1 - f))
        return it.set_ret(st, t, term if meth == 'eq' else ('not', term))
    if trn == 'Clone' and meth == 'clone' and c.get('inst') is None:
        sty = it.c.ty(c.get('self_ty'))
        v = it.snap(st, args[0])
        if v[0] == '&':
            return it.set_ret(st, t, v[1])
        if sty['k'] in ('int', 'uint', 'bool', 'char', 'float', 'ref'):
            a = args[0]
            return it.set_ret(st, t, it.load(st, ('D', a)) if a[0] != 'ref' else it.read(st, a[1], a[2]))
        return it.set_ret(st, t, ('deref', v))
    if trn == 'Deref' and meth == 'deref' and c.get('inst') is None:
        return it.set_ret(st, t, it.snap(st, args[0]))
    if trn == 'DerefMut' and meth == 'deref_mut' and c.get('inst') is None:
        return it.set_ret(st, t, args[0])
    if trn in ('Index', 'SliceIndex') and meth == 'index':
        base, rng = (args[0], args[1]) if trn == 'Index' else (args[1], args[0])
        bt = it.c.ty(c['targs'][0 if trn == 'Index' else 1])['s'] if c.get('targs') else ''
        if rng[0] == 'adt' and (bt == 'str' or bt.startswith('[') or 'String' in bt or 'Vec<' in bt):
            b = it.snap(st, base)
            n = rng[1].split('::')[-1]
            fs = rng[3]
            if n == 'Range':
                return it.set_ret(st, t, ('slice', b, fs[0], fs[1]))
            if n == 'RangeFrom':
                return it.set_ret(st, t, ('slice', b, fs[0], None))
            if n == 'RangeTo':
                return it.set_ret(st, t, ('slice', b, ('i', 0), fs[0]))
            if n == 'RangeFull':
                return it.set_ret(st, t, b)
    intr = c.get('intrinsic')
    if intr:
        if intr in ('size_of', 'align_of', 'needs_drop'):
            return it.set_ret(st, t, ('app', intr, tuple(it.c.ty(x)['s'] for x in c.get('targs', []))))
        if intr in ('unlikely', 'likely', 'black_box'):
            return it.set_ret(st, t, args[0])
        if intr in ('cold_path', 'assume'):
            return it.set_ret(st, t, UNIT)
        if intr in ('transmute', 'transmute_unchecked'):
            return it.set_ret(st, t, ('transmute', args[0], it.c.ty(t[5])['s']))
        if intr == 'discriminant_value':
            a = args[0]
            v = it.read(st, a[1], a[2]) if a[0] == 'ref' else it.load(st, ('D', a))
            return it.set_ret(st, t, it.discr(st, v, c['targs'][0]))
        if intr == 'read_via_copy':
            a = args[0]
            v = it.read(st, a[1], a[2]) if a[0] == 'ref' else it.load(st, ('D', a))
            return it.set_ret(st, t, v)
        if intr == 'write_via_move':
            a = args[0]
            if a[0] == 'ref':
                it.store(st, a[1], a[2], args[1])
            else:
                st.mem[('D', a)] = args[1]
            return it.set_ret(st, t, UNIT)
    return NotImplemented
