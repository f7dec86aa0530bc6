"""P02: built-in values stream exactly one well-formed value holding all of their content."""
import re
from common import fn_where, pmap
from interp import Incomplete, show
from lib import *
from typestate import *

SELF = ('arg', 'self')
DROPPING = ('skip', 'take', 'filter', 'step_by', 'rev', 'skip_while', 'take_while', 'filter_map', 'chain', 'nth',
            'last', 'cycle', 'split_at', 'windows', 'chunks', 'split_first', 'split_last', 'map_while')
BENIGN = ('iter', 'into_iter', 'as_slice', 'deref', 'as_ref', 'by_ref', 'next', 'enumerate', 'copied', 'cloned', 'as_str',
          'as_bytes', 'borrow', 'zip', 'index', 'peekable', 'fuse', 'as_mut', 'to_owned', 'len')


def apps(v):
    acc = set()
    subterms(v, acc)
    return {x[1].split('::')[-1] for x in acc if isinstance(x, tuple) and x and x[0] == 'app' and isinstance(x[1], str)}


def elem(v, base=SELF):
    """'ok' the term is the loop element of an iteration over all of base, in order; 'bad'; or 'unknown'"""
    v = noref(v)
    if not mentions(v, base):
        return 'bad', 'does not come from the value itself'
    a = apps(v)
    d = a & set(DROPPING)
    if d:
        return 'bad', 'elements go through `%s`' % sorted(d)[0]
    acc = set()
    subterms(v, acc)
    nx = {x[2] for x in acc if isinstance(x, tuple) and x and x[0] == 'next'}
    if nx:
        if nx != {'next'}:
            return 'bad', 'elements are taken from the back'
        return ('ok', '') if a <= set(BENIGN) else ('unknown', '')
    if any(x and x[0] in ('phi', 'idx', 'elem') for x in acc if isinstance(x, tuple)):
        return 'unknown', ''
    return 'unknown', ''


def some(v):
    return v[3][0] if v[0] == 'adt' and v[1].endswith('Option') and v[2] == 1 else None


def is_none(v):
    return v[0] == 'adt' and v[1].endswith('Option') and v[2] == 0


def str_of(v):
    """tag / label text of a constant"""
    acc = set()
    subterms(v, acc)
    return {x[1] for x in acc if isinstance(x, tuple) and len(x) == 2 and x[0] == 'str'}


def tagname(v):
    v = noref(v)
    s = some(v)
    if s is None:
        return None
    n = str_of(s)
    return sorted(n)[0] if len(n) == 1 else None


def int_of(v):
    v = noref(v)
    if v[0] == 'i':
        return v[1]
    if v[0] == 'adt' and v[1].endswith('Index') and v[3] and v[3][0][0] == 'i':
        return v[3][0][1]
    return None


class Shape:
    """checks one success path against what the type must emit"""
    def __init__(self, evs):
        self.evs = evs
        self.i = 0

    def peek(self):
        return self.evs[self.i] if self.i < len(self.evs) else (None, (), None)

    def next(self, *names):
        m, a, e = self.peek()
        if m not in names:
            raise Bad('streams `%s` where `%s` belongs' % (m or 'nothing more', '` or `'.join(names)))
        self.i += 1
        return [noref(x) for x in a]

    def end(self):
        if self.i != len(self.evs):
            raise Bad('streams an additional `%s`' % self.evs[self.i][0])


VIEWS = ('as_slice', 'as_str', 'as_ref', 'deref', 'borrow', 'as_bytes')


def same(a, b):
    return noref(a) == noref(b)


def whole(v):
    """a view of all of something is that something"""
    v = noref(v)
    while v[0] == 'app' and isinstance(v[1], str) and v[1].split('::')[-1] in VIEWS and len(v[2]) == 1:
        v = noref(v[2][0])
    return v


def handed_on(sh, *tys):
    """the content streamed as a value of one of these types in its own right"""
    m, a, e = sh.peek()
    if m != 'value':
        return None
    got = [x.split('::')[-1] for x in e.tys]
    v = whole(sh.next('value')[0])
    if any(any(g == y or g.startswith(y + '<') for y in tys) for g in got):
        return v
    raise Unknown('streamed as %s' % ', '.join(got))


def hint_is_len(h, x):
    """None, or exactly the length of x"""
    h = noref(h)
    if is_none(h):
        return True
    s = some(h)
    if s is None:
        raise Unknown('hint')
    while s[0] == 'exact':
        s = noref(s[2])
    if s[0] == 'i' or s[0] == 'len' or s[0] in ('app', 'bin', 'cast', 'binop'):
        of = s[1] if s[0] == 'len' else s[2][0] if s[0] == 'app' and s[1].split('::')[-1] == 'len' else None
        if of is not None and whole(of) == whole(x):
            return True
        if s[0] == 'len' or s[0] == 'app' and s[1].split('::')[-1] == 'len':
            raise Bad('the size hint is the length of %s, not of %s' % (show(s), show(x)))
        if s[0] in ('i',):
            raise Bad('the size hint is the constant %s' % show(s))
        if mentions_any(s, lambda t: isinstance(t, tuple) and t and (t[0] == 'len' or t[0] == 'app' and str(t[1]).endswith('len'))):
            raise Bad('the size hint %s is not the length' % show(s))
    raise Unknown('hint %s' % show(s))


def need_elem(v, field=None):
    v = noref(v)
    if field is not None:
        if v[0] == 'fld' and v[2] in (0, 1) and v[2] != field:
            raise Bad('the %s streamed is the entry\'s %s' % (('key', 'value')[field], ('key', 'value')[v[2]]))
        if v[0] == 'fld' and v[2] == field:
            v = v[1]
    r, why = elem(v)
    if r == 'bad':
        raise Bad('not every element is streamed in order: %s' % why)
    if r == 'unknown':
        raise Unknown('element %s' % show(v))


def seq_items(sh):
    n = 0
    while sh.peek()[0] == 'seq_value_begin':
        sh.next('seq_value_begin')
        need_elem(sh.next('value')[0])
        sh.next('seq_value_end')
        n += 1
    return n


def expect(ty, sh, ref):
    """ty: source spelling of the impl's self type"""
    t = ty.split('::')[-1]
    if ty in SCALARS:
        a = sh.next(ty)
        if ty != 'null' and a[0] != SELF:
            raise Bad('streams %s instead of the value' % show(a[0]))
        return
    if ty in ('str',) or t == 'String':
        if t == 'String' and sh.peek()[0] == 'value':
            f = handed_on(sh, 'str')
        else:
            h = sh.next('text_begin')[0]
            hint_is_len(h, SELF)
            f = whole(sh.next('text_fragment')[0])
            sh.next('text_end')
        if f != SELF:
            raise Bad('the text streamed is %s' % show(f))
        return
    if t == 'char':
        h = sh.next('text_begin')[0]
        f = sh.next('text_fragment_computed')[0]
        hint_is_len(h, f)
        if not (mentions(f, SELF) and 'encode_utf8' in apps(f)):
            raise Unknown('char')
        sh.next('text_end')
        return
    if t in ('BinarySlice',) or t.startswith('BinaryArray'):
        arr = t.startswith('BinaryArray')
        if arr:
            a = sh.next('tagged_begin')
            if tagname(a[0]) != 'CONSTANT_SIZE':
                raise Bad('fixed-size data is tagged %s' % show(a[0]))
        if arr and sh.peek()[0] == 'value':
            if any(x.split('::')[-1].startswith('[') for x in sh.peek()[2].tys):
                raise Bad('the bytes are streamed as a sequence')
            f = handed_on(sh, 'BinarySlice')
        else:
            h = sh.next('binary_begin')[0]
            f = whole(sh.next('binary_fragment')[0])
            hint_is_len(h, f)
            sh.next('binary_end')
        if f != ('fld', SELF, 0) and f != SELF:
            raise Bad('the bytes streamed are %s' % show(f))
        if arr:
            sh.next('tagged_end')
        return
    if t == 'Null':
        sh.next('null')
        return
    if ty == '()':
        a = sh.next('tag')
        if tagname(a[0]) != 'RUST_UNIT':
            raise Bad('unit is tagged %s' % show(a[0]))
        return
    if t.startswith('Option<'):
        m = sh.peek()[0]
        if m == 'tag':
            a = sh.next('tag')
            names = ('RUST_OPTION_NONE', 'None', 0)
        else:
            a = sh.next('tagged_begin')
            v = sh.next('value')[0]
            sh.next('tagged_end')
            if not (v[0] == 'vfld' and v[1] == SELF and v[2] == 1):
                raise Bad('streams %s instead of the contained value' % show(v))
            names = ('RUST_OPTION_SOME', 'Some', 1)
        if tagname(a[0]) != names[0]:
            raise Bad('tagged %s instead of %s' % (show(a[0]), names[0]))
        if names[1] not in str_of(a[1]):
            raise Bad('labelled %s instead of %s' % (show(a[1]), names[1]))
        ix = some(a[2])
        if ix is None or int_of(ix) != names[2]:
            raise Bad('indexed %s instead of %d' % (show(a[2]), names[2]))
        return
    if t == 'Vec<T>' and sh.peek()[0] == 'value':
        v = handed_on(sh, '[T]')
        if v != SELF:
            raise Bad('streams %s instead of the elements' % show(v))
        return
    if ty == '[T]' or t == 'Vec<T>':
        h = sh.next('seq_begin')[0]
        hint_is_len(h, SELF)
        seq_items(sh)
        sh.next('seq_end')
        return
    if ty == '[T; N]':
        a = sh.next('tagged_begin')
        if tagname(a[0]) != 'CONSTANT_SIZE':
            raise Bad('a fixed-size array is tagged %s' % show(a[0]))
        if sh.peek()[0] == 'value':
            v = whole(sh.next('value')[0])
            if v != SELF:
                raise Bad('streams %s instead of the elements' % show(v))
        else:
            h = sh.next('seq_begin')[0]
            s = some(h)
            if not (s is not None and s[0] in ('cparam', 'constp', 'param')):
                hint_is_len(h, SELF)
            seq_items(sh)
            sh.next('seq_end')
        sh.next('tagged_end')
        return
    if 'Map' in t:
        h = sh.next('map_begin')[0]
        base = ('fld', SELF, 0) if 'MapSlice' in t else SELF
        hint_is_len(h, base)
        while sh.peek()[0] == 'map_key_begin':
            sh.next('map_key_begin')
            need_elem(sh.next('value')[0], 0)
            sh.next('map_key_end')
            sh.next('map_value_begin')
            need_elem(sh.next('value')[0], 1)
            sh.next('map_value_end')
        sh.next('map_end')
        return
    m = re.match(r'^\((T\d+,? ?)+\)$', ty)
    if m:
        n = len(re.findall(r'T\d+', ty))
        a = sh.next('tuple_begin')
        h = a[3]
        if not is_none(h):
            s = some(h)
            if s is None:
                raise Unknown('hint')
            if s[0] == 'i' and s[1] != n:
                raise Bad('the size hint of a %d-tuple is %s' % (n, show(s)))
        for i in range(n):
            b = sh.next('tuple_value_begin')
            if int_of(b[1]) is not None and int_of(b[1]) != i:
                raise Bad('field %d is indexed %s' % (i, show(b[1])))
            v = sh.next('value')[0]
            if v != ('fld', SELF, i):
                raise Bad('field %d streams %s' % (i, show(v)))
            sh.next('tuple_value_end')
        sh.next('tuple_end')
        return
    if t.startswith('Display<') or t.startswith('DebugToValue<') or t.startswith('DisplayToValue<'):
        h = sh.next('text_begin')[0]
        if not is_none(h):
            raise Unknown('hint')
        while sh.peek()[0] in ('text_fragment_computed',):
            f = sh.next('text_fragment_computed')[0]
            if not mentions(f, SELF):
                raise Bad('the text streamed is not the formatted value')
            want = 'new_debug' if 'Debug' in t else 'new_display'
            if ('new_debug' in apps(f) or 'new_display' in apps(f)) and want not in apps(f):
                raise Bad('formatted with the wrong trait')
        sh.next('text_end')
        return
    if t == 'JsonStr':
        a = sh.next('tagged_begin')
        if tagname(a[0]) != 'JSON_VALUE':
            raise Bad('raw JSON is tagged %s' % show(a[0]))
        m = sh.peek()[0]
        if m == 'value':
            v = whole(sh.next('value')[0])
        else:
            sh.next('text_begin')
            v = whole(sh.next('text_fragment')[0])
            sh.next('text_end')
        if v != ('fld', SELF, 0):
            raise Bad('streams %s instead of the document' % show(v))
        sh.next('tagged_end')
        return
    return 'none'


def selfty(f):
    return f.get('impl_self') or ''


def check_stream(crate, f, rep, rule='well-formed', content=True):
    where = fn_where(f)
    key = '%s:%s' % (rule, fkey(crate, f))
    g = run(crate, f)
    if g.incomplete:
        rep.inconclusive(rule, where, g.incomplete)
        return None
    stream = noref(argnames(crate, f)[1])
    try:
        balance(g, stream)
    except Bad as e:
        rep.viol(key, rule, where, str(e))
        return None
    except Unknown as e:
        rep.inconclusive(rule, where, str(e))
        return None
    rep.ok(rule, where)
    # failing or panicking without any call having failed
    ty = selfty(f)
    fmtd = any(x in ty for x in ('Display', 'Debug'))
    for evs, t in spont(g):
        if t['kind'] == 'panic':
            rep.viol(key + ':panic', 'no-spontaneous-failure', where, 'may panic: %s' % t['why'])
            return g
        if t['kind'] == 'ret' and res_kind(t) == 'err' and not fmtd:
            rep.viol(key + ':fail', 'no-spontaneous-failure', where, 'fails although nothing it called failed: %s' % show(t['snap'])[:90])
            return g
    rep.ok('no-spontaneous-failure', where)
    if content:
        r2 = 'content'
        try:
            n = 0
            for evs, t in ok_paths(g):
                if t['kind'] != 'ret' or res_kind(t) != 'ok':
                    continue
                seq = []
                for e in evs:
                    if is_ev(e):
                        se = stream_event(e, stream)
                        if se is not None:
                            seq.append((se[0], se[1], e))
                marks = [e[1] for e in evs if isinstance(e, tuple) and e and e[0] == 'iter']
                sh = Shape(seq)
                if expect(ty, sh, False) == 'none':
                    return g
                sh.end()
                if marks:
                    kids = sum(1 for x in seq if x[0] in ('seq_value_begin', 'map_key_begin'))
                    if marks[-1] != 'none':
                        raise Bad('iteration may stop before the last element')
                    if marks.count('some') != kids:
                        raise Bad('an iteration step streams no element, or more than one')
                n += 1
            if n:
                rep.ok(r2, where)
        except Bad as e:
            rep.viol(key + ':content', r2, where, '%s: %s' % (ty, e))
        except Unknown as e:
            rep.inconclusive(r2, where, str(e))
    return g


def spont(g):
    """terminals reachable along success edges only"""
    st, vis, out = [g.start], {g.start}, []
    while st:
        n = st.pop()
        if n in g.term:
            out.append((None, g.term[n]))
            continue
        for e, m in g.edges[n]:
            if is_res(e, 'err') or m in vis:
                continue
            vis.add(m)
            st.append(m)
    return out


def value_impls(crate):
    for f in crate.roots:
        tr = (f.get('impl_trait') or '').split('::')[-1]
        if tr in ('Value', 'ValueRef') and f['name'] in ('stream', 'stream_ref'):
            yield f


SKIP = ('value::Value', 'ValueBuf', 'dyn ', 'to_value::ToValue')


def check_display(crate, rep):
    from rules_fmt import check_adapters, formatted
    check_adapters(crate, rep, ('Display',))
    for f in crate.roots:
        if f['path'].split('::')[-1] != 'stream_display_fragments' or not f.get('blocks'):
            continue
        try:
            g = run(crate, f)
            if g.incomplete:
                raise Unknown(g.incomplete)
            g.f = f
            formatted(g, noref(argnames(crate, f)[1]), 'new_display', start='text', stop='formatted')
            rep.ok('adapter', fn_where(f))
        except Bad as e:
            rep.viol('adapter:%s' % fkey(crate, f), 'adapter', fn_where(f), str(e))
        except Unknown as e:
            rep.inconclusive('adapter', fn_where(f), str(e))


def p02(ctx, rep):
    def go(task, r):
        crate, cfg, fns = task
        r.cfg = cfg
        if fns is None:
            check_display(crate, r)
            return
        for f in fns:
            tr = (f.get('impl_trait') or '').split('::')[-1]
            if tr in ('Value', 'ValueRef') and f['name'] in ('stream', 'stream_ref') and not any(s in selfty(f) for s in SKIP):
                check_stream(crate, f, r)
    tasks = list(ctx.each(['sval', 'sval_ref', 'sval_json', 'sval_fmt', 'sval_buffer', 'sval_nested']))
    one = {}
    for c, cfg, fns in tasks:
        if c.name == 'sval':
            one[cfg] = (c, cfg, None)
    pmap(rep, tasks + list(one.values()), go)
    rep.floor('well-formed', 60)
    rep.floor('content', 40)
