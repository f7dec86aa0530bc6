"""P07: buffering a value and streaming the buffer gives the tokens that were buffered.

Two summaries are computed from arbitrary states and composed: what each token leaves in the buffer, and what the replay
does with each kind of entry.  Together with the bookkeeping rules (a container's length is the number of entries recorded
while it was open; the replay visits exactly that many and steps over them) this is an induction over the recorded entries."""
from common import fn_where
from interp import Interp, show, Note
from lib import *
from typestate import Bad, Unknown, ok_paths
from rules_unsafe import subfield, discr_of

SELF = ('arg', 'self')
ENDS = {'map_begin': 'map_end', 'map_key_begin': 'map_key_end', 'map_value_begin': 'map_value_end', 'seq_begin': 'seq_end',
        'seq_value_begin': 'seq_value_end', 'enum_begin': 'enum_end', 'tagged_begin': 'tagged_end', 'record_begin': 'record_end',
        'record_value_begin': 'record_value_end', 'tuple_begin': 'tuple_end', 'tuple_value_begin': 'tuple_value_end',
        'record_tuple_begin': 'record_tuple_end', 'record_tuple_value_begin': 'record_tuple_value_end'}
NEND = {'enum_end': 3, 'tagged_end': 3, 'record_end': 3, 'tuple_end': 3, 'record_tuple_end': 3, 'record_value_end': 2, 'tuple_value_end': 2,
        'record_tuple_value_end': 3}
LEAVES = SCALARS + ['tag', 'tag_hint']
COPY = {'to_owned', 'borrow', 'from', 'into', 'into_boxed_str', 'into_boxed_slice', 'as_str', 'as_ref', 'deref', 'clone', 'to_string', 'as_bytes',
        'into_string', 'to_vec', 'into_raw', 'as_slice', 'into_owned', 'cloned'}


def seg(n):
    return str(n).split('::')[-1]


# ---- what text and byte storage contains

def content(t, facts, depth=0):
    """the bytes a piece of storage shows, independent of who owns them"""
    t = noref(t)
    if not isinstance(t, tuple) or depth > 40:
        return t
    k = t[0]
    if k == 'app' and seg(t[1]) in COPY and len(t[2]) == 1:
        return content(t[2][0], facts, depth + 1)
    if k == 'adt' and seg(t[1]) == 'Cow':
        return content(t[3][0], facts, depth + 1)
    if k == 'adt' and seg(t[1]) in ('TextBuf', 'BinaryBuf', 'FragmentBuf', 'BinarySlice'):
        return content(t[3][0], facts, depth + 1)
    if k == 'post' and seg(t[1]) in ('push_str', 'extend', 'extend_from_slice', 'write_str', 'extend_desugared', 'append'):
        return cat(content(t[2], facts, depth + 1), content(t[3][0], facts, depth + 1))
    if k == 'fld' and t[1][0] == 'app' and seg(t[1][1]) in COPY:
        return content(t[1], facts, depth + 1)
    if k == 'upd' and isinstance(t[2], tuple) and t[2][0] == 'd':
        return content(t[3], facts, depth + 1)
    if k == 'upd' and isinstance(t[2], int):
        return content(t[3], facts, depth + 1)
    if k == 'vfld' and t[2] in (0, 1) and t[3] == 0:
        return content(t[1], facts, depth + 1)
    if t in (('str', ''), ('bytes', b''), ('arr', ()), ('str', b'')) or k == 'bytes' and not t[1] or k == 'arr' and not t[1]:
        return ('cat',)
    return ('cat', t)


def cat(a, b):
    return ('cat',) + a[1:] + b[1:]


def empties(facts):
    """contents known to have length 0 on this path"""
    out = set()
    for k, v in facts.items():
        if v == 0 and isinstance(k, tuple) and k and k[0] == 'len':
            out.add(content(k[1], facts))
        if v == 1 and isinstance(k, tuple) and k[0] == 'app' and seg(k[1]) == 'is_empty':
            out.add(content(k[2][0], facts))
    return {x[1] for x in out if len(x) == 2}


def check_fragments(crate, rep):
    """text and byte buffers: pushing appends, owning changes nothing, reading shows everything"""
    for ty in ('TextBuf', 'BinaryBuf'):
        st = None
        for f in crate.roots:
            if not (f.get('impl_self') or '').split('::')[-1].startswith(ty):
                continue
            n = f['name']
            where = fn_where(f)
            if f.get('vis') is None and False:
                continue
            try:
                if n in ('push_fragment', 'push_fragment_computed', 'write_str') and f.get('nargs') == 2:
                    cnt = appended(crate, f)
                elif n == 'push_display':
                    cnt = displayed(crate, f)
                elif n == 'into_owned_in_place':
                    cnt = unchanged(crate, f)
                elif n in ('as_str', 'as_slice', 'as_ref', 'as_borrowed_str', 'as_borrowed_slice'):
                    cnt = shown(crate, f)
                elif n in ('new', 'default', 'clear'):
                    cnt = emptied(crate, f)
                elif n == 'from' and f.get('nargs') == 1:
                    cnt = built(crate, f)
                elif n == 'stream_ref' or n == 'stream' and 'Value' in (f.get('impl_trait') or ''):
                    cnt = replayed_text(crate, f, ty)
                else:
                    continue
                if cnt:
                    rep.ok('fragments', where)
                else:
                    rep.inconclusive('fragments', where, 'no successful path')
            except Bad as e:
                rep.viol('fragments:%s' % fkey(crate, f), 'fragments', where, str(e))
            except Unknown as e:
                rep.inconclusive('fragments', where, str(e))


def final_self(it, t):
    st = t['state']
    loc = ('D', SELF)
    if loc in st.mem:
        return noref(it.snap(st, st.mem[loc]))
    return SELF


def cow_of(v):
    """the stored text of a buffer value"""
    v = noref(v)
    for _ in range(2):
        v = subfield(v, 0, 0, False)
    return v


def oks(crate, f, it=None):
    it = it or Interp(crate)
    g = it.run(f, it.default_args(f))
    if g.incomplete:
        raise Unknown(g.incomplete)
    for t in g.term.values():
        if t['kind'] == 'ret' and res_kind(t) != 'err':
            yield it, g, t


def nf(facts):
    return {noref(k) if isinstance(k, tuple) else k: v for k, v in facts.items()}


def norm_cat(c, em):
    return ('cat',) + tuple(x for x in c[1:] if x not in em)


def displayed(crate, f):
    """everything the value displays is pushed, in order"""
    from rules_fmt import formatted
    it = Interp(crate, opaque_inst=lambda cf, c: (cf.get('name') or '').startswith('push_') and cf['id'] != f['id'])
    args = it.default_args(f)
    g = it.run(f, args)
    if g.incomplete:
        raise Unknown(g.incomplete)
    g.it, g.f = it, f
    formatted(g, noref(args[1]), 'new_display', ('push_fragment_computed', 'push_computed', 'push_fragment', 'push'), 'text', 'formatted', 'pushed')
    return 1


def appended(crate, f):
    n = 0
    for it, g, t in oks(crate, f):
        facts = nf(t['state'].facts)
        frag = noref(it.default_args(f)[1])
        em = empties(facts)
        new = norm_cat(content(cow_of(final_self(it, t)), facts), em)
        old = norm_cat(content(cow_of(SELF), facts), em)
        want = norm_cat(cat(old, content(frag, facts)), em)
        if new != want:
            raise Bad('after pushing %s onto %s the buffer holds %s' % (show(frag), cshow(old), cshow(new)))
        n += 1
    return n


def cshow(c):
    return ' ++ '.join(show(x)[:60] for x in c[1:]) or 'nothing'


def unchanged(crate, f):
    n = 0
    for it, g, t in oks(crate, f):
        facts = nf(t['state'].facts)
        new = content(cow_of(final_self(it, t)), facts)
        old = content(cow_of(SELF), facts)
        if new != old:
            raise Bad('the content %s becomes %s' % (cshow(old), cshow(new)))
        n += 1
    return n


def shown(crate, f):
    n = 0
    for it, g, t in oks(crate, f):
        facts = nf(t['state'].facts)
        r = noref(t['snap'])
        if r[0] == 'adt' and seg(r[1]) == 'Option':
            if r[2] == 0:
                n += 1
                continue
            r = r[3][0]
        c = content(r, facts)
        if c != content(cow_of(SELF), facts):
            raise Bad('shows %s, not the content' % cshow(c))
        n += 1
    return n


def emptied(crate, f):
    n = 0
    for it, g, t in oks(crate, f):
        r = final_self(it, t) if f['name'] == 'clear' else noref(t['snap'])
        c = content(cow_of(r), nf(t['state'].facts))
        if c != ('cat',):
            raise Bad('starts with %s' % cshow(c))
        n += 1
    return n


def built(crate, f):
    n = 0
    for it, g, t in oks(crate, f):
        a = noref(it.default_args(f)[0])
        c = content(cow_of(noref(t['snap'])), nf(t['state'].facts))
        if c != ('cat', a):
            raise Bad('holds %s instead of %s' % (cshow(c), show(a)))
        n += 1
    return n


def replayed_text(crate, f, ty):
    it = Interp(crate)
    args = it.default_args(f)
    g = it.run(f, args)
    if g.incomplete:
        raise Unknown(g.incomplete)
    n = 0
    for evs, t in ok_paths(g):
        if t['kind'] != 'ret':
            continue
        text_events(evs, nf(t['state'].facts), content(cow_of(SELF), nf(t['state'].facts)), ty == 'BinaryBuf')
        n += 1
    return n


def text_events(evs, facts, want, binary):
    evs = [e for e in evs if is_ev(e)]
    names = [e.method for e in evs]
    p = 'binary' if binary else 'text'
    if len(evs) == 1 and names[0] in ('value', 'value_computed', 'stream', 'stream_ref'):
        v = noref(evs[0].args[0]) if names[0].startswith('value') else noref(evs[0].recv)
        c = content(v, facts)
        tys = evs[0].tys or ()
    elif names[:1] == [p + '_begin'] and names[-1:] == [p + '_end'] and all(x in (p + '_fragment', p + '_fragment_computed') for x in names[1:-1]):
        c = ('cat',)
        for e in evs[1:-1]:
            c = cat(c, content(e.args[0], facts))
        h = noref(evs[0].args[0])
        if h[0] == 'adt' and h[2] == 1:
            n = h[3][0]
            if n[0] == 'len' and content(n[1], facts) != want:
                raise Bad('announces the length of %s' % show(n[1])[:60])
            if n[0] == 'lin':
                raise Bad('announces the length %s' % show(n)[:60])
    else:
        raise Bad('text is replayed as %s' % ', '.join(names) if names else 'text is not replayed at all')
    if c != want:
        raise Bad('replays %s instead of %s' % (cshow(c), cshow(want)))


# ---- values: equality up to ownership

def eq(a, b, facts, depth=0):
    """is the recorded term a the same value as the term b? None: cannot tell"""
    a, b = noref(a), noref(b)
    if a == b:
        return True
    if depth > 12:
        return None
    if a[0] != 'adt' and b[0] == 'adt':
        a, b = b, a
    if a[0] == 'adt' and seg(a[1]) == 'Label':
        return label_eq(a, b, facts)
    if a[0] == 'adt' and b[0] == 'adt':
        if a[2] != b[2] or len(a[3]) != len(b[3]):
            return False
        r = [eq(x, y, facts, depth + 1) for x, y in zip(a[3], b[3])]
        return False if False in r else None if None in r else True
    if a[0] == 'adt':
        d, ex = discr_of(facts, b)
        enum = d is not None or ex or seg(a[1]) in ('Option', 'Result')
        if enum:
            if d is None and len(ex) == 1 and seg(a[1]) == 'Option':
                d = 1 - list(ex)[0]
            if d is None:
                if b[0] == 'arg' and a[2] not in ex and not any(mentions(k, b) for k in facts if isinstance(k, tuple)):
                    return False    # nothing on this path says which variant the argument is: it can be the other one
                return None if a[2] not in ex else False
            if d != a[2]:
                return False
        r = []
        for i, x in enumerate(a[3]):
            if isinstance(x, tuple) and x and x[0] == 'adt' and seg(x[1]) == 'PhantomData':
                continue
            r.append(eq(x, ('vfld', b, a[2], i) if enum else ('fld', b, i), facts, depth + 1))
        return False if False in r else None if None in r else True
    if a[0] in ('app', 'cast', 'bin', 'lin') or b[0] in ('app', 'cast', 'bin', 'lin'):
        ca, cb = a, b
        while ca[0] == 'app' and seg(ca[1]) in COPY and len(ca[2]) == 1:
            ca = noref(ca[2][0])
        while cb[0] == 'app' and seg(cb[1]) in COPY and len(cb[2]) == 1:
            cb = noref(cb[2][0])
        if ca == cb:
            return True
        if ca[0] == 'app' or cb[0] == 'app':
            return None
        return False
    return False


def label_eq(a, b, facts):
    """labels: same text, same tag (which storage holds the text does not matter)"""
    fs = a[3]
    txt = content(fs[0], facts)
    if b[0] == 'adt':
        other = [content(b[3][0], facts)]
        tag = [x for x in fs if isinstance(x, tuple) and x[0] == 'adt' and seg(x[1]) == 'Option']
        ti = tag_index(a)
        r = eq(fs[ti], b[3][ti], facts) if ti is not None else True
        return txt in other and r
    # the class invariant of labels: when static text is present it is the text
    other = [('cat', ('fld', b, 0)), ('cat', ('fld', b, 1))]
    txt2 = ('cat',) + tuple(x[1] if x[0] == 'vfld' and x[2] == 1 else x for x in txt[1:])
    if txt2 not in other and txt not in other:
        return False
    ti = tag_index(a)
    return eq(fs[ti], ('fld', b, ti), facts) if ti is not None else True


LABEL_TAG = [3]


def tag_index(a):
    return LABEL_TAG[0] if LABEL_TAG[0] is not None and LABEL_TAG[0] < len(a[3]) else None


def subst(t, x, by):
    """replace x by `by` in t and simplify projections"""
    if t == x:
        return by
    if not isinstance(t, tuple) or not t:
        return t
    r = tuple(subst(y, x, by) if isinstance(y, tuple) else y for y in t)
    if r[0] == 'fld' and r[1][0] == 'adt' and isinstance(r[2], int) and r[2] < len(r[1][3]):
        return r[1][3][r[2]]
    if r[0] == 'vfld' and r[1][0] == 'adt' and len(r) == 4:
        return r[1][3][r[3]] if r[1][2] == r[2] and r[3] < len(r[1][3]) else ('undef',)
    if r[0] == 'discr' and r[1][0] == 'adt':
        return ('i', r[1][2])
    return r


def linear(t):
    """linear form {atom: coefficient, None: constant}"""
    t = noref(t)
    out = {}

    def add(t, k):
        if t[0] == 'i':
            out[None] = out.get(None, 0) + k * t[1]
        elif t[0] == 'lin':
            add(t[1], k)
            out[None] = out.get(None, 0) + k * t[2]
        elif t[0] == 'bin' and t[1] in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked'):
            add(t[2], k)
            add(t[3], k if t[1].startswith('Add') else -k)
        elif t[0] == 'len' and t[1][0] == 'post' and seg(t[1][1]) == 'push':
            add(('len', t[1][2]), k)
            out[None] = out.get(None, 0) + k
        elif t[0] == 'len' and t[1][0] == 'post' and seg(t[1][1]) in ('get_mut', 'last_mut', 'iter_mut'):
            add(('len', t[1][2]), k)
        else:
            out[t] = out.get(t, 0) + k
    add(t, 1)
    return {k: v for k, v in out.items() if v}


# ---- recording

def find_posts(v, name):
    acc = set()
    subterms(v, acc)
    return [x for x in acc if isinstance(x, tuple) and x and x[0] == 'post' and seg(x[1]) == name]


class Rec:
    """what one token leaves in the buffer on one path"""
    def __init__(self, part, parts, facts, opened, where):
        self.part, self.parts, self.facts, self.opened, self.where = part, parts, facts, opened, where


def layout(crate):
    """field numbers of the entries and of the stack of open containers"""
    for t in crate.tys:
        if t and t['k'] == 'adt' and t.get('path', '').split('::')[-1] == 'ValueBuf' and 'variants' in t:
            p = s = None
            for i, fl in enumerate(t['variants'][0]['fields']):
                n = crate.ty(fl[1])['s']
                if 'ValuePart' in n:
                    p = i
                elif 'usize' in n and ('Buf' in n or 'Vec' in n):
                    s = i
            if p is not None and s is not None:
                return p, s
    raise Unknown('the buffer keeps its entries in an unknown form')


def vec_of(v, i):
    """the vector in field i of the buffer"""
    v = subfield(noref(v), 0, i, False)
    return subfield(v, 0, 0, False)


def record(crate, f, lay):
    """paths: Rec for tokens that add an entry"""
    P, S = lay
    p0, s0 = vec_of(SELF, P), vec_of(SELF, S)
    out = []
    for it, g, t in oks(crate, f):
        facts = nf(t['state'].facts)
        post = final_self(it, t)
        p1, s1 = vec_of(post, P), vec_of(post, S)
        if not (p1[0] == 'post' and seg(p1[1]) == 'push' and p1[2] == p0):
            if p1 == p0:
                raise Bad('nothing is recorded')
            if p1[0] == 'post' and seg(p1[1]) == 'push' and p1[2][0] == 'post' and seg(p1[2][1]) == 'push':
                raise Bad('two entries are recorded')
            raise Unknown('entries become %s' % show(p1)[:80])
        part = p1[3][0]
        if part[0] != 'adt':
            raise Unknown('entry %s' % show(part)[:60])
        kind = part[3][0] if seg(part[1]) == 'ValuePart' else part
        if kind[0] != 'adt':
            raise Unknown('entry %s' % show(part)[:60])
        opened = None
        if s1 != s0:
            if not (s1[0] == 'post' and seg(s1[1]) == 'push' and s1[2] == s0):
                raise Unknown('the stack becomes %s' % show(s1)[:80])
            opened = linear(s1[3][0])
        out.append(Rec(kind, p0, facts, opened, t))
    return out


def closing(crate, f, lay):
    """per kind of the entry being closed: (field that gets the length, its linear form); kinds that fail"""
    P, S = lay
    it = Interp(crate)
    g = it.run(f, it.default_args(f))
    if g.incomplete:
        raise Unknown(g.incomplete)
    p0, s0 = vec_of(SELF, P), vec_of(SELF, S)
    done, fail = {}, set()
    for t in g.term.values():
        if t['kind'] == 'unreachable':
            continue
        facts = nf(t['state'].facts)
        kinds = [(k[1], v) for k, v in facts.items() if isinstance(k, tuple) and k[0] == 'discr' and isinstance(v, int) and
                 k[1][0] == 'fld' and (k[1][1][0] == 'elem' and k[1][1][1] == p0 or mentions_any(
                     k[1], lambda x: isinstance(x, tuple) and x and x[0] == 'app' and
                     seg(x[1]) in ('get_mut', 'index_mut', 'get_unchecked_mut', 'last_mut')))]
        if t['kind'] == 'panic':
            continue        # the stack holds positions of entries (checked where it is pushed)
        if t['kind'] != 'ret':
            continue
        if res_kind(t) == 'err':
            for x, v in kinds:
                fail.add(v)
            continue
        post = final_self(it, t)
        s1 = vec_of(post, S)
        if not (s1[0] == 'post' and seg(s1[1]) == 'pop' and s1[2] == s0):
            if s1 == s0:
                raise Bad('closing a container leaves it open')
            raise Unknown('the stack becomes %s' % show(s1)[:80])
        p1 = vec_of(post, P)
        if find_posts(p1, 'push') or find_posts(p1, 'pop') or find_posts(p1, 'truncate'):
            raise Bad('closing a container adds or removes entries')
        if not kinds and p1 == p0 and not any(loc[0] == 'D' and loc[1] != SELF for loc in t['state'].mem):
            raise Bad('a container is closed without recording its length')
        if len(kinds) != 1:
            raise Unknown('which entry is closed')
        x, v = kinds[0]
        # the updated entry
        upd = None
        for loc, val in t['state'].mem.items():
            if loc[0] == 'D' and loc[1] != SELF and mentions_any(noref(loc[1]), lambda y: isinstance(y, tuple) and y and y[0] == 'app' and seg(y[1]) in (
                    'get_mut', 'index_mut', 'last_mut', 'get_unchecked_mut')):
                upd = (noref(loc[1]), noref(it.snap(t['state'], val)))
        pos = None
        if upd is None and p1[0] == 'upd' and isinstance(p1[2], tuple) and p1[2][0] == 'ix' and p1[1] == p0:
            # written in place: the entries with one of them replaced
            pos, upd = p1[2][1], (p1, noref(p1[3]))
        if upd is None:
            raise Bad('the length of the container is never recorded')
        tgt, val = upd
        acc = set()
        subterms(tgt, acc)
        for y in acc:
            if pos is None and isinstance(y, tuple) and y and y[0] == 'app' and seg(y[1]) in ('get_mut', 'index_mut', 'get_unchecked_mut'):
                pos = y[2][1]
        popped = ('vfld', ('app', s1[1], (s0,)), 1, 0)
        if pos is None or linear(pos) != {popped: 1}:
            raise Bad('the entry closed is %s, not the one opened last' % show(pos)[:60] if pos else 'the entry closed is not the one opened last')
        # which field changed
        k2 = subfield(val, 0, 0, False)
        ch = []
        u = k2
        while u[0] == 'upd':
            if isinstance(u[2], tuple) and u[2][0] == 'd':
                ch.append((u[2][1], u[2][2] if len(u[2]) > 2 else None, noref(u[3])))
            u = noref(u[1])
        if u[0] == 'adt':
            ch += [(u[2], i, y) for i, y in enumerate(u[3]) if y != ('vfld', x, u[2], i)]
        if len(ch) != 1 or ch[0][0] != v:
            raise Unknown('closing changes %s' % show(val)[:80])
        lf = linear(ch[0][2])
        want = {('len', p0): 1, popped: -1, None: -1}
        if lf != want:
            raise Bad('the length recorded for a container is %s' % show(ch[0][2])[:100])
        done[v] = ch[0][1]
    return done, fail


# ---- replay

def replay(crate, f):
    """kind -> [(events, facts, kind term, position term, next position)] for one step of the replay loop"""
    it = Interp(crate)
    it.note_loops = True
    args = it.default_args(f)
    g = it.run(f, args)
    if g.incomplete:
        raise Unknown(g.incomplete)
    heads = []
    for n, es in enumerate(g.edges):
        for e, m in es:
            if isinstance(e, Note):
                for e2, h in g.edges[m]:
                    heads.append((e, h))
    ent = [e for e, h in heads if e.kind == 'enter']
    if len(ent) != 1:
        raise Unknown('the replay is not one loop')
    var = [k for k, v in ent[0].vals.items() if any(noref(n.vals.get(k, v)) != noref(v) for n, _ in heads)]
    if len(var) != 1:
        raise Unknown('the replay has no single position')
    var = var[0]
    if noref(ent[0].vals[var]) != ('i', 0):
        raise Bad('the replay starts at entry %s' % show(ent[0].vals[var])[:40])
    out = {}
    stops = []
    seen = set()
    for note, h in heads:
        if h in seen:
            continue
        seen.add(h)
        for evs, end in steps(g, h):
            isnote = isinstance(end, Note)
            facts = nf(end.facts if isnote else end['state'].facts)
            if not isnote:
                if end['kind'] == 'ret' and res_kind(end) != 'err':
                    stops.append((evs, facts))
                continue
            kt = kind_term(crate, facts)
            if kt is None:
                raise Unknown('the replay step does not look at one entry')
            x, v = kt
            cur = end.prev.get(var)
            if cur is None:
                continue
            out.setdefault(v, []).append((evs, facts, x, noref(cur), noref(end.vals[var]), evs))
    for evs, facts in stops:
        if [e for e in evs if is_ev(e)]:
            raise Bad('tokens are sent after the last entry')
    return out, it


def steps(g, h):
    """event sequences from a loop head to the next visit of a head or to a return"""
    out = []
    stack = [(h, ())]
    while stack:
        n, evs = stack.pop()
        if n in g.term:
            out.append((list(evs), g.term[n]))
            continue
        for e, m in g.edges[n]:
            if isinstance(e, Note):
                out.append((list(evs), e))
            elif is_res(e, 'err'):
                continue
            elif is_res(e) or e is None:
                stack.append((m, evs))
            else:
                if len(evs) > 30:
                    raise Unknown('long step')
                stack.append((m, evs + (e,)))
        if len(out) > 6000:
            raise Unknown('too many steps')
    return out


def kind_term(crate, facts):
    """(term of the entry's kind, variant) the step is about"""
    c = []
    for k, v in facts.items():
        if isinstance(k, tuple) and k[0] == 'discr' and isinstance(v, int):
            x = k[1]
            if x[0] == 'fld' and x[1][0] in ('vfld', 'elem') and not any(mentions(x, y[1]) for y in facts if False):
                c.append((x, v))
    if not c:
        return None
    c.sort(key=lambda p: len(show(p[0])))
    roots = [p for p in c if not any(q is not p and mentions(p[0], q[0]) for q in c)]
    return roots[0] if len(roots) == 1 else None


def position_of(x):
    """index of the entry whose kind is x"""
    acc = set()
    subterms(x, acc)
    for y in acc:
        if isinstance(y, tuple) and y and y[0] == 'app' and seg(y[1]) in ('get', 'index', 'get_unchecked') and len(y[2]) == 2:
            return y[2]
        if isinstance(y, tuple) and y and y[0] == 'elem':
            return (y[1], y[2])
    return None


def body_event(e):
    """(lo, hi) of the entries a nested replay covers"""
    for a in (e.recv,) + tuple(e.args):
        acc = set()
        subterms(noref(a), acc)
        for y in acc:
            if isinstance(y, tuple) and y and y[0] == 'slice':
                return y[2], y[3], y[1]
    return None


def step_tokens(s, sub, lens, v):
    """the tokens of one replay step with the recorded entry put in: [(method, args)] ; 'body' for the nested entries"""
    evs, facts, x, cur, nxt, _ = s
    out = []
    lo_hi = None
    for e in evs:
        if not is_ev(e):
            continue
        if seg(e.method) in ('stream_ref', 'stream') and noref(e.recv) != ('arg', 'stream'):
            b = body_event(e)
            if b is None:
                if lens is None:
                    out.append(('whole', (e.recv,)))
                    continue
                raise Unknown('nested replay of %s' % show(e.recv)[:60])
            out.append(('body', b))
            continue
        out.append((e.method, tuple(subst(noref(a), x, sub) for a in e.args)))
    return out


def consistent(facts, x, sub):
    """facts of a replay path restricted to the entry; None when the path cannot happen for this entry"""
    for k, v in facts.items():
        if not isinstance(k, tuple):
            continue
        if k[0] == 'discr' and mentions(k[1], x):
            r = subst(k, x, sub)
            if r[0] == 'i' and isinstance(v, int) and r[1] != v:
                return False
        if k[0] == 'excl' and mentions(k[1], x):
            r = subst(k[1], x, sub)
            if r[0] == 'i' and r[1] in v:
                return False
    return True


def check_values(crate, rep):
    ms = {f['name']: f for f in crate.roots if (f.get('impl_trait') or '').split('::')[-1].startswith('Stream') and
          (f.get('impl_self') or '').split('::')[-1].startswith('ValueBuf')}
    rf = [f for f in crate.roots if f['name'] == 'stream_ref' and 'ValueSlice' in (f.get('impl_self') or '')]
    if not ms or len(rf) != 1:
        rep.inconclusive('replay', 'buffer/src/value.rs', 'no buffer of values found')
        return
    try:
        lay = layout(crate)
    except Unknown as e:
        rep.inconclusive('record', 'buffer/src/value.rs', str(e))
        return
    try:
        rp, it = replay(crate, rf[0])
    except Bad as e:
        rep.viol('replay:loop', 'replay', fn_where(rf[0]), str(e))
        return
    except Unknown as e:
        rep.inconclusive('replay', fn_where(rf[0]), str(e))
        return
    closes = {}
    for b, e in sorted(ENDS.items()):
        f = ms.get(e)
        if f is None:
            rep.inconclusive('close', 'ValueBuf', 'no method %s' % e)
            continue
        try:
            closes[e] = closing(crate, f, lay)
            rep.ok('close', fn_where(f))
        except Bad as x:
            rep.viol('close:%s' % e, 'close', fn_where(f), str(x))
        except Unknown as x:
            rep.inconclusive('close', fn_where(f), str(x))
    used = {}
    for m in LEAVES + sorted(ENDS):
        f = ms.get(m)
        if f is None:
            rep.viol('record:%s' % m, 'record', 'buffer/src/value.rs', '`%s` is not recorded by the buffer: it is lowered to other tokens before' % m)
            continue
        where = fn_where(f)
        try:
            recs = record(crate, f, lay)
            if not recs:
                raise Bad('`%s` can never be recorded' % m)
            args = Interp(crate).default_args(f)[1:]
            for r in recs:
                v = r.part[2]
                if used.setdefault(v, m) != m:
                    raise Bad('`%s` is recorded as the same kind of entry as `%s`' % (m, used[v]))
                one(m, args, r, rp, closes, rf[0])
            rep.ok('record', where)
        except Bad as e:
            rep.viol('record:%s' % m, 'record', where, str(e))
        except Unknown as e:
            rep.inconclusive('record', where, str(e))
    for p in ('text', 'binary'):
        texts(crate, rep, p, ms, rp, lay)


def whole_min(hi):
    """the minimum of a bound and the length of everything is the bound: recorded lengths never reach past the end"""
    if isinstance(hi, tuple) and hi and hi[0] == 'app' and seg(hi[1]) in ('min', 'integer_min') and len(hi[2]) == 2:
        a, b = hi[2]
        for x, y in ((a, b), (b, a)):
            if isinstance(y, tuple) and y and y[0] == 'len' and not (isinstance(x, tuple) and x and x[0] == 'len'):
                return x
    return hi


def one(m, args, r, rp, closes, rf):
    v = r.part[2]
    lenf = None
    if m in ENDS:
        want = {('len', r.parts): 1}
        if r.opened is None:
            raise Bad('`%s` opens a container that is not noted as open' % m)
        if r.opened != want:
            raise Bad('`%s` notes the container at a position that is not where it is recorded' % m)
        c = closes.get(ENDS[m])
        if c is not None:
            if v not in c[0]:
                raise Bad('`%s` does not complete what `%s` opened' % (ENDS[m], m))
            if v in c[1]:
                raise Bad('`%s` can fail on what `%s` opened' % (ENDS[m], m))
            lenf = c[0][v]
        else:
            raise Unknown('how `%s` completes what `%s` opened' % (ENDS[m], m))
    elif r.opened is not None:
        raise Bad('`%s` is noted as an open container' % m)
    steps_ = rp.get(v)
    if not steps_:
        raise Bad('what `%s` records is never replayed' % m)
    n = 0
    for s in steps_:
        evs, facts, x, cur, nxt, _ = s
        if not consistent(facts, x, r.part):
            continue
        n += 1
        pos = position_of(x)
        if pos is None:
            raise Unknown('which entry is replayed')
        if linear(pos[1]) != linear(cur):
            raise Bad('the replay looks at entry %s at position %s' % (show(pos[1])[:40], show(cur)[:40]))
        part = r.part
        if lenf is not None:
            # by the time of the replay the length has been filled in
            part = part[:3] + (tuple(('arg', 'the recorded length') if i == lenf else f for i, f in enumerate(part[3])),)
        toks = step_tokens(s, part, lenf, v)
        both = dict(r.facts)
        both.update(facts)
        if m in ENDS:
            exp = [(m, args), ('body', None), (ENDS[m], args[:NEND.get(ENDS[m], 0)])]
        else:
            exp = [(m, args)]
        if [t[0] for t in toks] != [t[0] for t in exp]:
            raise Bad('`%s` is replayed as %s' % (m, ', '.join('`%s`' % t[0] for t in toks) or 'nothing'))
        for (tn, ta), (en, ea) in zip(toks, exp):
            if tn == 'body':
                lo, hi, base = ta
                if lenf is None:
                    continue
                ln = ('vfld', x, v, lenf)
                want_lo = dict(linear(cur))
                want_lo[None] = want_lo.get(None, 0) + 1
                want_hi = dict(want_lo)
                want_hi[ln] = want_hi.get(ln, 0) + 1
                hi = whole_min(hi)
                if linear(lo) != {k: c for k, c in want_lo.items() if c}:
                    raise Bad('the entries replayed inside `%s` start at %s' % (m, show(lo)[:60]))
                if hi is None or linear(hi) != {k: c for k, c in want_hi.items() if c}:
                    raise Bad('the entries replayed inside `%s` end at %s' % (m, show(hi)[:60] if hi else 'the end of the buffer'))
                continue
            if len(ta) != len(ea):
                raise Unknown('arguments of %s' % tn)
            for i, (a, b) in enumerate(zip(ta, ea)):
                q = eq(a, b, both)
                if q is False:
                    raise Bad('`%s` is replayed with %s as argument %d, recorded from %s' % (tn, show(a)[:80], i, show(b)[:60]))
                if q is None:
                    raise Unknown('argument %d of %s: %s vs %s' % (i, tn, show(a)[:60], show(b)[:40]))
        want = dict(linear(cur))
        want[None] = want.get(None, 0) + 1
        if m in ENDS and lenf is not None:
            ln = ('vfld', x, v, lenf)
            want[ln] = want.get(ln, 0) + 1
        if linear(nxt) != {k: c for k, c in want.items() if c}:
            raise Bad('after `%s` the replay continues at entry %s' % (m, show(nxt)[:80]))
    if not n:
        raise Bad('what `%s` records is never replayed' % m)


def texts(crate, rep, p, ms, rp, lay):
    P, S = lay
    f = ms.get(p + '_begin')
    try:
        recs = record(crate, f, lay)
        vs = set()
        for r in recs:
            vs.add(r.part[2])
            if r.opened is not None:
                raise Bad('text is noted as an open container')
            c = content(cow_of(r.part[3][0]), r.facts)
            if c != ('cat',):
                raise Bad('`%s_begin` starts with %s' % (p, cshow(c)))
        if len(vs) != 1:
            raise Unknown('several kinds of text entry')
        v = vs.pop()
        n = 0
        for s in rp.get(v, []):
            evs, facts, x, cur, nxt, _ = s
            text_events(evs, facts, content(cow_of(('vfld', x, v, 0)), facts), p == 'binary')
            if linear(nxt) != linear(('lin', cur, 1)):
                raise Bad('after %s the replay continues at entry %s' % (p, show(nxt)[:60]))
            n += 1
        if not n:
            raise Bad('%s is never replayed' % p)
        rep.ok('record', fn_where(f))
    except Bad as e:
        rep.viol('record:%s_begin' % p, 'record', fn_where(f), str(e))
        return
    except Unknown as e:
        rep.inconclusive('record', fn_where(f), str(e))
        return
    for m in (p + '_fragment', p + '_fragment_computed'):
        f = ms.get(m)
        if f is None:
            if m.endswith('computed'):
                rep.viol('record:' + m, 'record', 'ValueBuf', 'computed fragments are not recorded')
            continue
        try:
            n = 0
            for it, g, t in oks(crate, f):
                facts = nf(t['state'].facts)
                frag = noref(it.default_args(f)[1])
                em = empties(facts)
                tgt = None
                for loc, val in t['state'].mem.items():
                    if loc[0] == 'D' and loc[1] != SELF:
                        y = noref(loc[1])
                        if mentions_any(y, lambda q: isinstance(q, tuple) and q and q[0] == 'app' and seg(q[1]) in ('last_mut', 'get_mut', 'index_mut')):
                            tgt = (y, noref(it.snap(t['state'], val)))
                if tgt is None:
                    raise Bad('the fragment is not recorded')
                y, val = tgt
                if not mentions_any(y, lambda q: isinstance(q, tuple) and q and q[0] == 'app' and seg(q[1]) == 'last_mut'):
                    raise Unknown('which entry receives the fragment')
                kd, ex = discr_of(facts, ('fld', y, 0))
                if kd is not None and kd != v:
                    raise Bad('the fragment is added to another kind of entry')
                old = norm_cat(content(cow_of(('vfld', ('fld', y, 0), v, 0)), facts), em)
                new = norm_cat(content(cow_of(subfield(subfield(val, 0, 0, False), v, 0, True)), facts), em)
                want = norm_cat(cat(old, content(frag, facts)), em)
                if new != want:
                    raise Bad('after the fragment %s the entry holds %s' % (cshow(want), cshow(new)))
                post = final_self(it, t)
                if find_posts(vec_of(post, P), 'push') or vec_of(post, S) != vec_of(SELF, S):
                    raise Bad('a fragment changes the structure of the buffer')
                n += 1
            if not n:
                raise Bad('fragments can never be recorded')
            rep.ok('record', fn_where(f))
        except Bad as e:
            rep.viol('record:' + m, 'record', fn_where(f), str(e))
        except Unknown as e:
            rep.inconclusive('record', fn_where(f), str(e))
    f = ms.get(p + '_end')
    try:
        for it, g, t in oks(crate, f):
            post = final_self(it, t)
            if vec_of(post, P) != vec_of(SELF, P) or vec_of(post, S) != vec_of(SELF, S):
                raise Bad('the end of %s changes the structure of the buffer' % p)
        rep.ok('record', fn_where(f))
    except Bad as e:
        rep.viol('record:%s_end' % p, 'record', fn_where(f), str(e))
    except Unknown as e:
        rep.inconclusive('record', fn_where(f), str(e))


# ---- collecting only text or only bytes

def check_collectors(crate, rep):
    for f in crate.roots:
        own = (f.get('impl_self') or '').split('::')[-1]
        if 'Collector' not in own or not (f.get('impl_trait') or '').split('::')[-1].startswith('Stream'):
            continue
        n = f['name']
        binary = 'Binary' in own
        where = fn_where(f)
        p = 'binary' if binary else 'text'
        try:
            for it, g, t in oks(crate, f):
                facts = nf(t['state'].facts)
                em = empties(facts)
                args = [noref(a) for a in it.default_args(f)[1:]]
                old = norm_cat(content(cow_of(subfield(SELF, 0, 0, False)), facts), em)
                new = norm_cat(content(cow_of(subfield(final_self(it, t), 0, 0, False)), facts), em)
                if n in (p + '_fragment', p + '_fragment_computed'):
                    want = norm_cat(cat(old, content(args[0], facts)), em)
                elif n in SCALARS or n in ('text_fragment', 'text_fragment_computed', 'binary_fragment', 'binary_fragment_computed'):
                    want = None
                    if binary and n == 'u8':
                        want = norm_cat(cat(old, ('cat', ('arr', (args[0],)))), em)
                    if new == old:
                        raise Bad('`%s` is accepted but leaves nothing in the buffer' % n)
                else:
                    want = old
                if want is not None and new != want:
                    raise Bad('after `%s` the buffer holds %s' % (n, cshow(new)))
            rep.ok('collect', where)
        except Bad as e:
            rep.viol('collect:%s' % fkey(crate, f), 'collect', where, str(e))
        except Unknown as e:
            rep.inconclusive('collect', where, str(e))


# ---- the buffer as a whole

def check_whole(crate, rep):
    try:
        P, S = layout(crate)
    except Unknown as e:
        rep.inconclusive('whole', 'ValueBuf', str(e))
        return
    p0 = vec_of(SELF, P)
    for f in crate.roots:
        own = (f.get('impl_self') or '').split('::')[-1]
        n = f['name']
        if not (own.startswith('ValueBuf') or own.startswith('Value<')):
            continue
        where = fn_where(f)
        try:
            if own.startswith('ValueBuf') and n in ('to_value', 'into_value'):
                for it, g, t in oks(crate, f):
                    r = noref(t['snap'])
                    c = r
                    while c[0] == 'adt' and c[3]:
                        c = noref(c[3][0])
                    while c[0] == 'app' and seg(c[1]) in COPY and len(c[2]) == 1:
                        c = noref(c[2][0])
                    if c != p0:
                        raise Bad('the value holds %s, not all recorded entries' % show(c)[:80])
            elif own.startswith('ValueBuf') and n == 'clear':
                for it, g, t in oks(crate, f):
                    post = final_self(it, t)
                    for i in (P, S):
                        x = vec_of(post, i)
                        if x[0] == 'post' and seg(x[1]) in ('clear',) or x[0] == 'app' and seg(x[1]) in ('new', 'default'):
                            continue
                        if x == vec_of(SELF, i):
                            raise Bad('a cleared buffer keeps %s' % ('its entries' if i == P else 'containers open'))
                        raise Unknown('cleared to %s' % show(x)[:60])
                    for i, fl in enumerate(fields(crate)):
                        ty = crate.ty(fl[1])['s']
                        v = subfield(post, 0, i, False)
                        if ty == 'bool' and v != ('i', 0):
                            raise Bad('a cleared buffer still says %s' % fl[0])
            elif n == 'into_owned':
                kept(crate, f, P if own.startswith('ValueBuf') else 0)
            elif n == 'is_complete':
                complete(crate, f, P, S)
            elif n in ('stream', 'stream_ref') and own.startswith('Value'):
                whole_replay(crate, f, P if own.startswith('ValueBuf') else 0)
            else:
                continue
            rep.ok('whole', where)
        except Bad as e:
            rep.viol('whole:%s' % fkey(crate, f), 'whole', where, str(e))
        except Unknown as e:
            rep.inconclusive('whole', where, str(e))


def fields(crate):
    for t in crate.tys:
        if t and t['k'] == 'adt' and t.get('path', '').split('::')[-1] == 'ValueBuf' and 'variants' in t:
            return t['variants'][0]['fields']
    return []


def kept(crate, f, P):
    """every entry is still there afterwards"""
    it = Interp(crate, opaque_inst=lambda cf, c: 'owned' in (cf.get('name') or ''))
    g = it.run(f, it.default_args(f))
    if g.incomplete:
        raise Unknown(g.incomplete)
    for t in g.term.values():
        if t['kind'] != 'ret' or res_kind(t) != 'ok':
            continue
        r = noref(t['snap'])[3][0]
        v = vec_of(r, P)
        base = v
        for _ in range(20):
            if base[0] == 'post' and seg(base[1]) in ('iter_mut', 'deref_mut', 'as_mut_slice', 'get_mut', 'index_mut', 'next', 'into_iter'):
                base = noref(base[2])
            elif base[0] == 'transmute':
                base = noref(base[1])
            elif base[0] == 'app' and seg(base[1]) in COPY | {'into_iter', 'collect'}:
                base = noref(base[2][0])
            elif base[0] == 'fld' and base[1][0] == 'transmute':
                base = subfield(noref(base[1][1]), 0, base[2], False)
            else:
                break
        if base == vec_of(SELF, P):
            continue
        if base[0] == 'post' and seg(base[1]) in ('truncate', 'pop', 'remove', 'clear', 'retain', 'drain', 'swap_remove', 'dedup', 'push', 'insert', 'reverse'):
            raise Bad('the owned buffer holds other entries: %s' % seg(base[1]))
        raise Unknown('entries become %s' % show(v)[:80])


def complete(crate, f, P, S):
    p, s = ('len', vec_of(SELF, P)), ('len', vec_of(SELF, S))
    for it, g, t in oks(crate, f):
        r = noref(t['snap'])
        if r == ('i', 0):
            continue
        facts = nf(t['state'].facts)
        if facts.get(s) != 0 and facts.get(('bin', 'Eq', s, ('i', 0))) != 1:
            if not mentions(r, s):
                raise Bad('says complete while containers may be open')
        flag = [i for i, fl in enumerate(fields(crate)) if crate.ty(fl[1])['s'] == 'bool']
        for i in flag:
            b = ('fld', SELF, i)
            if facts.get(b) != 0 and not mentions(r, b):
                raise Bad('says complete in the middle of text')


def whole_replay(crate, f, P):
    it = Interp(crate, opaque_inst=lambda cf, c: cf.get('name') == 'stream_ref' and 'ValueSlice' in (cf.get('impl_self') or ''))
    g = it.run(f, it.default_args(f))
    if g.incomplete:
        raise Unknown(g.incomplete)
    n = 0
    for evs, t in ok_paths(g):
        if t['kind'] != 'ret':
            continue
        evs = [e for e in evs if is_ev(e)]
        facts = nf(t['state'].facts)
        if len(evs) != 1:
            raise Bad('replays %s' % (', '.join(e.method for e in evs) or 'nothing'))
        e = evs[0]
        zero = any(v == 0 and isinstance(k, tuple) and k[0] == 'len' for k, v in facts.items())
        if e.method == 'null':
            if not zero:
                raise Bad('null is streamed in place of recorded entries')
        elif seg(e.method) in ('stream_ref', 'stream'):
            b = body_event(e)
            if b is not None:
                raise Bad('only the entries from %s to %s are replayed' % (show(b[0])[:40], show(b[1])[:40] if b[1] else 'the end'))
        else:
            raise Unknown(e.method)
        n += 1
    if not n:
        raise Unknown('no path')


def p07(ctx, rep):
    ctx.prepare(['full', 'alloc', 'core'])
    for cfg in ctx.configs():
        rep.cfg = cfg
        c = ctx.crate('sval_buffer', cfg)
        if c is None:
            continue
        s = ctx.crate('sval', cfg)
        for t in s.tys:
            if t and t['k'] == 'adt' and t.get('path', '').split('::')[-1] == 'Label' and 'variants' in t:
                LABEL_TAG[0] = [i for i, fl in enumerate(t['variants'][0]['fields']) if 'Tag' in s.ty(fl[1])['s']][0]
        if cfg != 'core':
            check_values(c, rep)
            check_whole(c, rep)
            check_fragments(c, rep)
            check_collectors(c, rep)
