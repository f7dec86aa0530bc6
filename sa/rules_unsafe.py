"""P05: safe code never gets a dangling, uninitialised or mistyped reference out of the library."""
import os
import re
import shutil
import subprocess
import tempfile

import common
from common import fn_where, VERIF, REPO, CACHE
from interp import Interp, show
from lib import *
from typestate import Bad, Unknown

SELF = ('arg', 'self')
LIBS = ['sval', 'sval_ref', 'sval_dynamic', 'sval_json', 'sval_fmt', 'sval_buffer', 'sval_nested', 'sval_flatten', 'sval_serde', 'sval_test']


def casts(f):
    """(kind, operand, to, from, line) of every cast in a body"""
    out = []

    def walk(x, l):
        if isinstance(x, list):
            if len(x) >= 5 and x[0] == 'cast' and isinstance(x[3], int):
                out.append((x[1], x[2], x[3], x[4], l))
            for y in x:
                walk(y, l)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y, l)
    for b in f.get('blocks') or []:
        if b:
            walk(b.get('s'), b.get('l'))
            walk(b.get('t'), b.get('l'))
    return out


def calls(f):
    for b in f.get('blocks') or []:
        if b and b['t'] and b['t'][0] == 'call':
            yield b['t'], b.get('l')


def pointee(c, t):
    t = c.ty(t)
    if t['k'] in ('ref', 'ptr') and 'to' in t:
        return t['to']
    if t['k'] == 'adt' and t['path'].split('::')[-1] == 'Box' and t.get('args'):
        return t['args'][0]
    return None


def layers(c, outer, inner):
    """None: no chain of single-field structs; else the structs that are not declared to have their content's layout"""
    bad, cur = [], outer
    want = c.ty(inner)['s']
    for _ in range(8):
        t = c.ty(cur)
        if t['s'] == want:
            return bad
        if t['k'] != 'adt' or t.get('adt') != 'struct' or 'variants' not in t:
            return None
        if not t.get('transparent'):
            bad.append(t['s'])
        fs = [x for x in t['variants'][0]['fields'] if 'PhantomData' not in c.ty(x[1])['s']]
        if len(fs) != 1:
            return None
        cur = fs[0][1]
    return None


def elem_of(c, t):
    t = c.ty(t)
    return t.get('elem') if t['k'] in ('slice', 'array') else None


def check_casts(crate, f, rep):
    where = fn_where(f)
    for kind, op, to, frm, line in casts(f):
        if kind not in ('PtrToPtr', 'Transmute', 'PtrToAddr', 'PointerWithExposedProvenance'):
            continue
        a, b = pointee(crate, frm), pointee(crate, to)
        if a is None and b is None:
            # values: only lifetimes may change
            if crate.ty(frm)['s'] != crate.ty(to)['s']:
                tt, ft = crate.ty(to), crate.ty(frm)
                if 'usize' in (tt['s'], ft['s']):
                    continue
                l = layers(crate, to, frm)
                l = layers(crate, frm, to) if l is None else l
                if l is None or l:
                    rep.viol('cast:%s:%s' % (fkey(crate, f), tt['s']), 'reinterpret', '%s line %s' % (where, line),
                             'a value of type %s is reinterpreted as %s' % (ft['s'], tt['s']))
                    continue
            rep.ok('reinterpret', where)
            continue
        if a is None or b is None:
            continue      # pointer <-> integer: the compiler's own alignment checks
        sa, sb = crate.ty(a)['s'], crate.ty(b)['s']
        if sa == sb or sb == '()' or sa == '()':
            rep.ok('reinterpret', where)
            continue
        ea, eb = elem_of(crate, a), elem_of(crate, b)
        if ea is not None and eb is not None and ('MaybeUninit' in crate.ty(ea)['s']) != ('MaybeUninit' in crate.ty(eb)['s']):
            continue      # partially initialised storage: decided by the array rule
        l = layers(crate, b, a)
        l = layers(crate, a, b) if l is None else l
        key = 'cast:%s:%s' % (fkey(crate, f), sb)
        if l is None:
            rep.viol(key, 'reinterpret', '%s line %s' % (where, line), 'a reference to %s is reinterpreted as a reference to %s' % (sa, sb))
        elif l:
            rep.viol(key, 'reinterpret', '%s line %s' % (where, line),
                     'a reference to %s is reinterpreted as a reference to %s, but %s does not promise the layout of its content' % (sa, sb, l[0]))
        else:
            rep.ok('reinterpret', '%s: %s as %s' % (where, sa, sb))


# ---- changing a lifetime

def lifetime_casts(crate, f):
    return [(to, frm, line) for kind, op, to, frm, line in casts(f)
            if kind == 'Transmute' and crate.ty(to)['s'] == crate.ty(frm)['s'] and "'" in crate.ty(to)['s']]


def discr_of(facts, t):
    """(exact variant or None, excluded variants)"""
    ex = set()
    for k, v in facts.items():
        if noref(k) == ('discr', t):
            return v, ex
        if noref(k) == ('excl', ('discr', t)):
            ex |= set(v)
    return None, ex


def project(v, i, variant=None):
    """field i of an abstract value"""
    if v[0] == 'adt':
        return v[3][i]
    if v[0] == 'upd':
        k = v[2]
        if k == i:
            return v[3]
        if isinstance(k, tuple) and k[0] in ('d', 'v') and variant is not None and k[1] == variant:
            # a variant downcast: v[3] is the updated payload
            return ('vpay', v, i)
        return project(v[1], i, variant)
    if variant is not None:
        return ('vfld', v, variant, i)
    return ('fld', v, i)


def owned(crate, v, tid, facts, depth=0):
    """does nothing of type tid inside v borrow any more? raises Bad / Unknown"""
    t = crate.ty(tid)
    v = noref(v)
    if depth > 12:
        raise Unknown('deep type')
    if t['k'] != 'adt':
        if t['k'] in ('ref', 'ptr'):
            raise Bad('a reference is kept: %s' % show(v)[:60])
        if "'" in t['s']:
            raise Unknown('type %s' % t['s'])
        return
    if 'PhantomData' in t['path']:
        return
    if t['path'].split('::')[-1] == 'Cow':
        if v[0] == 'adt':
            if v[2] != 1:
                raise Bad('still borrowed: %s' % show(v)[:60])
            return
        d, ex = discr_of(facts, v)
        if d == 1 or 0 in ex:
            return
        if d == 0:
            raise Bad('still borrowed: %s' % show(v)[:60])
        raise Bad('nothing makes %s owned' % show(v)[:60])
    if 'variants' not in t:
        if "'" in t['s']:
            raise Unknown('type %s' % t['s'])
        return
    vs = list(range(len(t['variants'])))
    if t.get('adt') == 'enum':
        base = v
        while base[0] == 'upd':
            base = base[1]
        if v[0] == 'adt':
            vs = [v[2]]
        else:
            d, ex = discr_of(facts, base)
            if d is not None:
                vs = [i for i in vs if t['variants'][i]['discr'] == d]
            else:
                vs = [i for i in vs if t['variants'][i]['discr'] not in ex]
    for i in vs:
        for j, fl in enumerate(t['variants'][i]['fields']):
            if len(fl) > 2 and not fl[2]:
                continue
            if 'PhantomData' in crate.ty(fl[1])['s']:
                continue
            try:
                owned(crate, subfield(v, i, j, t.get('adt') == 'enum'), fl[1], facts, depth + 1)
            except Bad as e:
                raise Bad('%s%s.%s: %s' % (t['path'].split('::')[-1], '::' + t['variants'][i]['name'] if t.get('adt') == 'enum' else '', fl[0], e))


def subfield(v, variant, i, enum):
    if v[0] == 'adt':
        return noref(v[3][i])
    if v[0] == 'upd':
        k = v[2]
        if enum:
            if k == ('d', variant, i):
                return noref(v[3])
        elif k == i:
            return noref(v[3])
        return subfield(noref(v[1]), variant, i, enum)
    return ('vfld', v, variant, i) if enum else ('fld', v, i)


def is_owning_name(n):
    return 'owned' in n


def check_lifetime(crate, f, rep, owners):
    lc = lifetime_casts(crate, f)
    if not lc:
        return
    where = fn_where(f)
    key = 'lifetime:%s' % fkey(crate, f)
    try:
        for to, frm, line in lc:
            p = pointee(crate, to)
            if p is not None:
                by_ref(crate, f, p, owners)
            else:
                by_value(crate, f, to, owners)
        rep.ok('lifetime', where)
    except Bad as e:
        rep.viol(key, 'lifetime', where, 'the result claims to borrow nothing, but %s' % e)
    except Unknown as e:
        rep.inconclusive('lifetime', where, str(e))


def by_ref(crate, f, pt, owners):
    it = Interp(crate)
    args = it.default_args(f)
    g = it.run(f, args)
    if g.incomplete:
        raise Unknown(g.incomplete)
    n = 0
    for t in g.term.values():
        if t['kind'] != 'ret':
            continue
        r = t['ret']
        st = t['state']
        while r[0] == 'transmute':
            r = r[1]
        if r[0] == 'ref':
            v = it.snap(st, it.load(st, r[1], r[2])) if r[2] else it.snap(st, it.load(st, r[1]))
        else:
            loc = ('D', r)
            v = it.snap(st, st.mem[loc]) if loc in st.mem else ('deref', r)
        v = noref(v)
        # abstract callee of the same kind: decided where it is implemented
        try:
            owned(crate, v, pt, st.facts)
        except Bad as e:
            if generic_owner(crate, f, owners):
                continue
            raise
        n += 1
    return n


def generic_owner(crate, f, owners):
    """a generic function that hands its content to a trait method which is itself checked"""
    if not (f.get('targs') or []):
        return False
    for t, l in calls(f):
        c = t[1]
        if isinstance(c, dict) and c.get('abs') or isinstance(c, dict) and c.get('trait') and c.get('inst') is None:
            if is_owning_name(c.get('method') or ''):
                return True
    return False


def reaches_owner(crate, f, owners):
    """some function or closure f uses makes parts owned"""
    seen, work = set(), [f]
    while work:
        x = work.pop()
        if x['id'] in seen:
            continue
        seen.add(x['id'])
        for t, l in calls(x):
            c = t[1]
            if not isinstance(c, dict):
                continue
            if c.get('inst') in owners or is_owning_name(c.get('method') or ''):
                return True
            y = crate.fns.get(c.get('inst'))
            if y is not None:
                work.append(y)
        if any(crate.ty(l[0])['k'] == 'closure' for l in x.get('locals') or []) and x is f:
            return True     # through a closure handed to a library function: not followed
    return False


def by_value(crate, f, tid, owners):
    """a container of parts: every part must have gone through an owning function before"""
    def opaque(cf, c):
        return cf.get('id') in owners or is_owning_name(cf.get('name') or '') and bool(lifetime_casts(crate, cf))
    it = Interp(crate, opaque_inst=opaque)
    g = it.run(f, it.default_args(f))
    if g.incomplete:
        raise Unknown(g.incomplete)
    from typestate import ok_paths
    some = False
    paths = [(evs, t) for evs, t in ok_paths(g) if t['kind'] == 'ret']
    looped = any(isinstance(e, tuple) and e and e[0] == 'iter' for evs, t in paths for e in evs)
    if not looped and reaches_owner(crate, f, owners):
        raise Unknown('the parts are made owned some other way')
    for evs, t in paths:
        marks = [e for e in evs if isinstance(e, tuple) and e and e[0] == 'iter']
        ow = [e for e in evs if is_ev(e)]
        if not marks:
            raise Bad('no loop over the parts makes them owned')
        if marks[-1][1] != 'none':
            raise Bad('the loop over the parts may stop early')
        n = sum(1 for m in marks if m[1] == 'some')
        if len(ow) < n:
            raise Bad('a part is passed over without being made owned')
        for m in marks:
            acc = set()
            subterms(noref(m[2]), acc)
            for x in acc:
                if isinstance(x, tuple) and x and x[0] == 'app' and isinstance(x[1], str) and x[1].split('::')[-1] in (
                        'skip', 'take', 'filter', 'step_by', 'skip_while', 'take_while', 'split_at_mut', 'chunks_exact_mut', 'rev_take'):
                    raise Bad('the loop over the parts leaves some out (`%s`)' % x[1].split('::')[-1])
                if isinstance(x, tuple) and x and x[0] == 'slice':
                    lo, hi = x[2], x[3]
                    if lo != ('i', 0) or hi is not None and hi[0] == 'lin':
                        raise Bad('the loop over the parts covers only a slice of them')
        for e in ow:
            if not mentions_any(noref(e.recv) if e.recv else noref(e.args[0]), lambda x: isinstance(x, tuple) and x and x[0] == 'next'):
                raise Unknown('%s' % e.method)
        some = some or n > 0
    if not some:
        raise Bad('no part is ever made owned')


# ---- labels

def check_labels(crate, rep):
    lt = None
    for t in crate.tys:
        if t['k'] == 'adt' and t.get('path', '').split('::')[-1] == 'Label' and 'variants' in t:
            lt = t
    if lt is None:
        rep.inconclusive('label', 'src/data.rs', 'no label type')
        return
    fs = lt['variants'][0]['fields']
    ix = {}
    for i, fl in enumerate(fs):
        s = crate.ty(fl[1])['s']
        if s in ('*const str', '*mut str'):
            ix['v'] = i
        elif 'Option<&' in s and 'str' in s:
            ix['s'] = i
        elif 'Option<*' in s and 'str' in s or 'NonNull<str' in s:
            ix['o'] = i
    if 'v' not in ix:
        rep.inconclusive('label', 'src/data.rs', 'labels hold no raw pointer')
        return
    for f in crate.roots:
        ret = crate.ty(f['locals'][0][0]) if f.get('locals') else None
        if not ret or ret.get('path', '').split('::')[-1] != 'Label' or f.get('closure'):
            continue
        where = fn_where(f)
        try:
            g = run(crate, f)
            if g.incomplete:
                raise Unknown(g.incomplete)
            for t in g.term.values():
                if t['kind'] == 'ret':
                    one_label(noref(t['snap']), t['state'].facts, ix, f)
            rep.ok('label', where)
        except Bad as e:
            rep.viol('label:%s' % fkey(crate, f), 'label', where, str(e))
        except Unknown as e:
            rep.inconclusive('label', where, str(e))
    # release
    if 'o' in ix:
        label_release(crate, rep)
    # thread safety is promised by hand: nothing inside may be shared mutable state
    for fl in fs:
        s = crate.ty(fl[1])['s']
        if re.search(r'\b(Cell|RefCell|UnsafeCell|Rc)\b', s):
            rep.viol('label:send:%s' % fl[0], 'label', 'src/data.rs', 'labels are declared shareable between threads but hold %s' % s)
        else:
            rep.ok('label', 'shareable: %s' % fl[0])


def label_release(crate, rep):
    drops = [f for f in crate.fns.values() if f['name'] == 'drop' and 'Label' in (f.get('impl_self') or '')
             and (f.get('impl_trait') or '').split('::')[-1] == 'Drop']
    # what dropping a label runs
    inside, st = {f['id'] for f in drops}, list(drops)
    while st:
        for t, l in calls(st.pop()):
            g = crate.fns.get(t[1].get('inst')) if isinstance(t[1], dict) else None
            if g is not None and g['id'] not in inside:
                inside.add(g['id'])
                st.append(g)
    # ... and nothing else does
    shared = True
    while shared:
        shared = False
        for f in crate.fns.values():
            if f['id'] in inside or f.get('closure'):
                continue
            for t, l in calls(f):
                i = t[1].get('inst') if isinstance(t[1], dict) else None
                g = crate.fns.get(i)
                if g is not None and g['id'] in inside and g not in drops:
                    inside.discard(g['id'])
                    shared = True
    took, kept = [], []
    for f in crate.fns.values():
        here = 'Label' in (f.get('impl_self') or f.get('inh_self') or '')
        for t, l in calls(f):
            m = t[1].get('method') if isinstance(t[1], dict) else None
            if f['id'] in inside:
                if m in ('from_raw', 'drop_in_place', 'dealloc', 'from_non_null'):
                    took.append(f)
                elif m in ('forget', 'leak', 'into_raw'):
                    kept.append(f)
            elif m == 'from_raw' and here:
                rep.viol('label:release:%s' % fkey(crate, f), 'label', fn_where(f),
                         'takes the text of a label away while the label still releases it when dropped')
    if not took:
        rep.viol('label:release', 'label', fn_where(drops[0]) if drops else 'src/data.rs',
                 'labels hold their owned text by a raw pointer, and dropping a label never releases it')
    elif kept:
        rep.viol('label:release', 'label', fn_where(kept[0]), 'the text of an owned label is taken back on drop but kept from being released')
    elif len(took) > 1:
        seq = len({id(f) for f in took}) == 1 and straight(crate, took[0])
        if seq:
            rep.viol('label:release', 'label', fn_where(took[0]), 'the text of an owned label is released more than once')
        else:
            rep.inconclusive('label', fn_where(took[0]), 'several places release the text of a label')
    else:
        rep.ok('label', 'release')


def straight(crate, f):
    """two releases on one way through f"""
    at = [i for i, b in enumerate(f['blocks']) if b and b['t'] and b['t'][0] == 'call' and isinstance(b['t'][1], dict)
          and b['t'][1].get('method') in ('from_raw', 'drop_in_place', 'dealloc', 'from_non_null')]
    for a in at:
        st, vis = [a], set()
        while st:
            for y in crate.succ(f['blocks'][st.pop()]) or []:
                if y in at:
                    return True
                if y not in vis and f['blocks'][y]:
                    vis.add(y)
                    st.append(y)
    return False


def payload(v):
    if v[0] == 'adt' and v[1].endswith('Option'):
        return ('none', None) if v[2] == 0 else ('some', v[3][0])
    return ('?', v)


def root(v):
    while v[0] in ('fld', 'vfld', 'deref', '&', 'exact'):
        v = v[2] if v[0] == 'exact' else v[1]
    return v


def one_label(v, facts, ix, f):
    if v[0] != 'adt':
        if v == SELF or root(v) == SELF and v[0] == 'upd':
            return
        raise Unknown('returns %s' % show(v)[:60])
    txt = v[3][ix['v']]
    sk, sv = payload(v[3][ix['s']]) if 's' in ix else ('none', None)
    ok, ov = payload(v[3][ix['o']]) if 'o' in ix else ('none', None)
    moved = f['locals'][1][0] if f.get('nargs') else None
    by_val = f.get('nargs') and 'Label' in str(f.get('impl_self')) and _self_by_value(f)
    if by_val and ('o' not in ix or v[3][ix['o']] == ('fld', SELF, ix['o'])):
        # the label itself moves through
        if txt != ('fld', SELF, ix['v']):
            raise Bad('the text changes to %s while the storage stays' % show(txt)[:60])
        return
    if ok == 'some':
        if root(ov) == SELF and ov[0] != 'app' and not by_val:
            raise Bad('two labels share one allocation, and both release it')
        if ov != txt:
            raise Bad('the label shows %s but owns %s' % (show(txt)[:50], show(ov)[:50]))
        return
    if ok == '?':
        if root(ov) == SELF and not by_val:
            raise Bad('two labels share one allocation, and both release it')
        raise Unknown('storage %s' % show(ov)[:60])
    # not owned
    if mentions_any(txt, lambda x: isinstance(x, tuple) and x and x[0] == 'app' and str(x[1]).split('::')[-1] in (
            'into_boxed_str', 'into_raw', 'to_owned', 'to_string', 'into_string', 'leak', 'clone')):
        if sk == 'some':
            return      # leaked on purpose
        raise Bad('shows %s without owning it' % show(txt)[:60])
    if sk == 'some':
        if sv != txt:
            if not (root(sv) == root(txt) == SELF):
                raise Bad('the label shows %s but claims the static text %s' % (show(txt)[:50], show(sv)[:50]))
        return
    # neither owned nor static (or static copied from another label): borrowed
    if root(txt) == SELF and txt == ('fld', SELF, ix['v']):
        if f['name'] in ('to_owned', 'into_owned'):
            raise Bad('an owned label still points at text borrowed from elsewhere')
        if 'o' in ix:
            d, ex = discr_of(facts, ('fld', SELF, ix['o']))
            if not (d == 0 or 1 in ex):
                raise Bad('a copy of a label that owns its text would point at text it does not own')


def _self_by_value(f):
    return f['locals'][1][0] == f.get('impl_self_ty')


# ---- fixed-capacity storage without an allocator

def check_array(crate, rep):
    ms = {}
    for f in crate.roots:
        s = f.get('impl_self') or ''
        if 'ArrayVec' in s:
            ms[f['name']] = f
    if not ms:
        return
    ty = None
    for t in crate.tys:
        if t['k'] == 'adt' and t.get('path', '').split('::')[-1] == 'ArrayVec' and 'variants' in t:
            ty = t
    fl = ty['variants'][0]['fields']
    bi = [i for i, x in enumerate(fl) if 'MaybeUninit' in crate.ty(x[1])['s']]
    li = [i for i, x in enumerate(fl) if crate.ty(x[1])['s'] == 'usize']
    if len(bi) != 1 or len(li) != 1:
        rep.inconclusive('array', 'buffer/src/value.rs', 'unfamiliar layout')
        return
    B, L = bi[0], li[0]
    LEN = ('fld', SELF, L)
    for name in ('deref', 'deref_mut', 'push', 'pop', 'default', 'clear'):
        f = ms.get(name)
        if f is None:
            continue
        where = fn_where(f)
        try:
            it = Interp(crate)
            g = it.run(f, it.default_args(f))
            if g.incomplete:
                raise Unknown(g.incomplete)
            for t in g.term.values():
                if t['kind'] != 'ret':
                    continue
                st = t['state']
                loc = ('D', SELF)
                post = noref(it.snap(st, st.mem[loc])) if loc in st.mem else SELF
                array_one(name, noref(t['snap']), post, B, L, LEN, st.facts)
            rep.ok('array', where)
        except Bad as e:
            rep.viol('array:%s' % name, 'array', where, str(e))
        except Unknown as e:
            rep.inconclusive('array', where, str(e))


def array_one(name, ret, post, B, L, LEN, facts):
    plen = noref(subfield(post, 0, L, False)) if post != SELF else LEN

    def same_len(x):
        """x is the old length (through unrelated updates of the storage)"""
        if x == LEN:
            return True
        return x[0] == 'fld' and x[2] == L and x[1][0] == 'upd' and x[1][2] != L and same_len(('fld', x[1][1], L))
    if name in ('deref', 'deref_mut'):
        acc = set()
        subterms(ret, acc)
        rngs = [x for x in acc if isinstance(x, tuple) and x and (x[0] == 'slice' or x[0] == 'adt' and 'Range' in x[1])]
        if not rngs:
            if ret == ('fld', SELF, B):
                raise Bad('gives all of the storage, initialised or not')
            raise Unknown(show(ret)[:60])
        for x in rngs:
            if x[0] == 'slice':
                lo, hi = x[2], x[3]
            elif 'RangeTo' in x[1] and 'Inclusive' not in x[1]:
                lo, hi = ('i', 0), x[3][0]
            elif x[1].endswith('Range'):
                lo, hi = x[3]
            else:
                raise Bad('gives %s of the storage' % show(x)[:60])
            if hi is None or not same_len(noref(hi)):
                raise Bad('gives the storage up to %s, not up to the number of initialised elements' % (show(hi) if hi else 'its end'))
        return
    if name in ('default', 'clear'):
        v = post if name == 'clear' else ret
        if v[0] != 'adt':
            raise Unknown(show(v)[:60])
        if v[3][L] != ('i', 0):
            raise Bad('claims %s initialised elements in fresh storage' % show(v[3][L]))
        return
    if name == 'push':
        if same_len(plen):
            return
        if not (plen[0] == 'lin' and plen[2] == 1 and same_len(noref(plen[1]))):
            raise Bad('the number of elements becomes %s' % show(plen)[:60])
        buf = noref(subfield(post, 0, B, False))
        acc = set()
        subterms(buf, acc)
        ups = [x for x in acc if isinstance(x, tuple) and x and x[0] == 'upd' and isinstance(x[2], tuple) and x[2][0] == 'ix']
        if not ups:
            raise Bad('an element is counted that was never written')
        for x in ups:
            if not same_len(noref(x[2][1])):
                raise Bad('the element is written at %s' % show(x[2][1])[:60])
        return
    if name == 'pop':
        rk, rv = payload(ret)
        if rk == 'none':
            return
        if rk == '?':
            raise Unknown(show(ret)[:60])
        acc = set()
        subterms(rv, acc)
        ix = [noref(x[2]) for x in acc if isinstance(x, tuple) and x and x[0] == 'elem']
        if len(ix) != 1:
            raise Unknown(show(rv)[:60])
        dec = ix[0][0] == 'lin' and ix[0][2] == -1 and same_len(noref(ix[0][1])) or \
            ix[0][0] == 'vfld' and ix[0][1][0] == 'app' and 'checked_sub' in str(ix[0][1][1]) and ix[0][1][2][1] == ('i', 1)
        if plen != ix[0]:
            raise Bad('takes out element %s but leaves %s elements' % (show(ix[0])[:40], show(plen)[:40]))
        if not dec:
            raise Bad('takes out element %s' % show(ix[0])[:40])


# ---- compile-time witnesses

def witnesses(rep):
    """programs that must not be accepted by the compiler against the current tree, each with a twin that must be"""
    wdir = os.path.join(VERIF, 'witness')
    src = open(os.path.join(wdir, 'witness.rs')).read()
    ws = re.findall(r'^//# (\S+) (\S+) (E\d+(?:\|E\d+)*)\n(.*?)(?=^//# |\Z)', src, re.S | re.M)
    env = common.sh_env()
    env['CARGO_INCREMENTAL'] = '0'
    os.makedirs(CACHE, exist_ok=True)
    tgt = tempfile.mkdtemp(prefix='wit-', dir=CACHE)
    env['CARGO_TARGET_DIR'] = tgt
    env['RUSTFLAGS'] = '--cap-lints allow'
    try:
        corpus = tempfile.mkdtemp(prefix='c-', dir=tgt)
        toml = open(os.path.join(VERIF, 'corpus', 'Cargo.toml')).read().replace('sval_corpus', 'sval_witness')
        open(os.path.join(corpus, 'Cargo.toml'), 'w').write(toml)
        lock = os.path.join(VERIF, 'corpus', 'Cargo.lock')
        if os.path.exists(lock):
            open(os.path.join(corpus, 'Cargo.lock'), 'w').write(open(lock).read().replace('sval_corpus', 'sval_witness'))
        os.makedirs(os.path.join(corpus, 'src'))
        open(os.path.join(corpus, 'src', 'lib.rs'), 'w').write('')
        rc, o = common.run(['cargo', 'check', '--offline', '--features', 'full'], env, cwd=corpus)
        if rc != 0:
            raise common.BuildError('witness dependencies do not build:\n' + o[-2000:])
        metas = [os.path.join(d, x) for d, _, fs in os.walk(tgt) for x in fs if x.startswith('lib') and x.endswith(('.rmeta', '.so', '.rlib'))]
        lpath = []
        for d in sorted({os.path.dirname(x) for x in metas}):
            lpath += ['-L', 'dependency=' + d]
        ext = []
        for n in ('sval', 'sval_ref', 'sval_buffer', 'sval_json', 'sval_fmt', 'sval_serde', 'sval_dynamic', 'sval_nested', 'sval_flatten'):
            c = [x for x in metas if re.match(r'lib%s(-[0-9a-f]+)?\.rmeta$' % n, os.path.basename(x))]
            if c:
                ext += ['--extern', '%s=%s' % (n, c[0])]

        def compile_(name, code):
            p = os.path.join(corpus, name + '.rs')
            open(p, 'w').write('#![allow(warnings)]\n' + code)
            rc, o = common.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata',
                                '--out-dir', corpus, p] + lpath + ext, env)
            return rc, o
        from concurrent.futures import ThreadPoolExecutor
        pairs = {}
        for name, kind, code, body in ws:
            pairs.setdefault(name, {})[kind] = (code, body)

        def one(item):
            name, d = item
            good = compile_(name + '_ok', d['accept'][1])
            bad = compile_(name + '_no', d['reject'][1])
            return name, d, good, bad
        with ThreadPoolExecutor(8) as ex:
            for name, d, good, bad in ex.map(one, sorted(pairs.items())):
                if good[0] != 0:
                    rep.inconclusive('witness', name, 'the control program no longer builds: %s' % good[1][-300:].replace('\n', ' '))
                    continue
                if bad[0] == 0:
                    rep.viol('witness:' + name, 'witness', 'witness/witness.rs (%s)' % name,
                             'the compiler accepts a program that keeps a reference longer than its data lives')
                    continue
                codes = set(re.findall(r'error\[(E\d+)\]', bad[1]))
                if 'error: lifetime may not live long enough' in bad[1]:
                    codes |= {'E0621', 'E0515'}
                if not codes & set(d['reject'][0].split('|')):
                    rep.inconclusive('witness', name, 'rejected for another reason: %s' % sorted(codes))
                    continue
                rep.ok('witness', name)
    finally:
        shutil.rmtree(tgt, ignore_errors=True)


def p05(ctx, rep):
    ctx.prepare()
    for cfg in ctx.configs():
        rep.cfg = cfg
        for cn in LIBS:
            c = ctx.crate(cn, cfg)
            if c is None:
                continue
            owners = {f['id'] for f in c.roots if lifetime_casts(c, f)}
            for f in c.roots:
                check_casts(c, f, rep)
                check_lifetime(c, f, rep, owners)
        check_labels(ctx.crate('sval', cfg), rep)
        check_array(ctx.crate('sval_buffer', cfg), rep)
    rep.cfg = 'full'
    witnesses(rep)
