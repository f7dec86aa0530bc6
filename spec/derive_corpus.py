"""Writes ../derive_corpus/src/lib.rs: types deriving `Value`, one or two attributes at a time in every position, each with the
stream calls its documentation promises written out by hand-made rules (`ref_*`). The check compares the code the macro generates
with these; the rules below are the oracle and share nothing with the macro."""
import itertools
import os
import re

IDENT = '.with_tag(&sval::tags::VALUE_IDENT)'
OFFSET = '.with_tag(&sval::tags::VALUE_OFFSET)'
OUT = []
N = [0]


def lab(text):
    return '&sval::Label::new("%s")' % text


def opt(x):
    return 'None' if x is None else 'Some(%s)' % x


class Items:
    """default indexes: the offset among the items that are streamed; after an explicit one, the number after it"""

    def __init__(self):
        self.n, self.explicit = 0, False

    def next(self, given):
        if given is not None:
            self.explicit = True
            if isinstance(given, int):
                self.n = given + 1
                return '&sval::Index::from(%disize)' % given
            self.n += 1
            return '&sval::Index::from(%s)' % given
        i = self.n
        self.n += 1
        return ('&sval::Index::from(%disize)' % i) + ('' if self.explicit else OFFSET)


def label_of(given, ident):
    if given is None:
        return None if ident is None else '&sval::Label::new("%s")%s' % (ident.replace('r#', ''), IDENT)
    return '&' + given[1:] if given.startswith('$') else lab(given)


def tag_of(t):
    return None if t is None else '&' + t


def attrs(a, order=None):
    out = []
    for k in order or a:
        v = a[k]
        if v is True:
            out.append(k)
        elif isinstance(v, int):
            out.append('%s = %d' % (k, v))
        elif k in ('tag', 'data_tag'):
            out.append('%s = "%s"' % (k, v) if len(v) % 2 else '%s = %s' % (k, v))
        elif v.startswith('$') or k == 'index':
            out.append('%s = %s' % (k, v.lstrip('$')))
        else:
            out.append('%s = "%s"' % (k, v))
    return '#[sval(%s)] ' % ', '.join(out) if out else ''


def body(kind, fields, c, tag, label, index, bind):
    """stream calls for the fields of a struct or variant"""
    if kind == 'unit':
        return ['stream.tag(%s, %s, %s)?;' % (opt(tag), opt(label), opt(index))]
    if kind == 'newtype':
        if c.get('transparent'):
            return ['stream.value(%s)?;' % bind(0)]
        a = '%s, %s, %s' % (opt(tag), opt(label), opt(index))
        return ['stream.tagged_begin(%s)?;' % a, 'stream.value(%s)?;' % bind(0), 'stream.tagged_end(%s)?;' % a]
    flat = any(f[2].get('flatten') for f in fields if not f[2].get('skip'))
    labelled = not c.get('unlabeled_fields') and (kind == 'named' or any('label' in f[2] for f in fields))
    indexed = not c.get('unindexed_fields')
    shape = {(True, True): 'record_tuple', (True, False): 'record', (False, True): 'tuple', (False, False): 'seq'}[labelled, indexed]
    live = [(i, f) for i, f in enumerate(fields) if not f[2].get('skip')]
    size = 'None' if flat else 'Some(%d)' % len(live)
    a = '%s, %s, %s' % (opt(tag), opt(label), opt(index))
    out = []
    if shape == 'seq':
        out += ['stream.tagged_begin(%s)?;' % a, 'stream.seq_begin(%s)?;' % size]
    else:
        out += ['stream.%s_begin(%s, %s)?;' % (shape, a, size)]
    if flat and shape != 'seq':
        out += ['let mut at: isize = 0;']
    items = Items()
    for i, (name, ty, fa) in live:
        if fa.get('flatten'):
            if shape == 'seq':
                out.append('sval_flatten::flatten_to_seq(&mut *stream, %s)?;' % bind(i))
            else:
                out.append('at = sval_flatten::flatten_to_%s(&mut *stream, %s, at)?;' % (shape, bind(i)))
            continue
        l = label_of(fa.get('label'), name)
        ix = '&sval::Index::from(at)' + OFFSET if flat else items.next(fa.get('index')) if indexed else None
        b = {'record_tuple': [l, ix], 'record': [l], 'tuple': [ix], 'seq': []}[shape]
        args = ', '.join(([opt(tag_of(fa.get('tag')))] if shape != 'seq' else []) + b)
        out.append('stream.%s_value_begin(%s)?;' % (shape, args))
        if 'data_tag' in fa:
            out.append('stream.tagged_begin(Some(&%s), None, None)?;' % fa['data_tag'])
        out.append('stream.value(%s)?;' % bind(i))
        if 'data_tag' in fa:
            out.append('stream.tagged_end(Some(&%s), None, None)?;' % fa['data_tag'])
        out.append('stream.%s_value_end(%s)?;' % (shape, args))
        if flat and shape in ('record_tuple', 'tuple'):
            out.append('at += 1;')
    if shape == 'seq':
        out += ['stream.seq_end()?;', 'stream.tagged_end(%s)?;' % a]
    else:
        out += ['stream.%s_end(%s)?;' % (shape, a)]
    return out


def decl_fields(kind, fields, pub=''):
    if kind == 'unit':
        return ''
    xs = ', '.join('%s%s%s%s' % (attrs(a), pub, n + ': ' if n and kind == 'named' else '', t) for n, t, a in fields)
    return ' { %s }' % xs if kind == 'named' else '(%s)' % xs


def emit(decl, name, gen, use, ref, tag, where=''):
    """gen: generics declared, use: generics used"""
    g = gen and gen + ', '
    OUT.append('#[derive(Value)]\n%s' % decl)
    OUT.append("pub fn ref_%s<'sval, %sSt: sval::Stream<'sval> + ?Sized>(this: &'sval %s%s, stream: &mut St) -> sval::Result%s {\n    %s\n    Ok(())\n}" % (
        name, g, name, use, where, '\n    '.join(ref)))
    if tag is not False:
        OUT.append('pub fn tag_%s%s(_: &%s%s) -> Option<sval::Tag>%s { %s }' % (name, '<%s>' % gen if gen else '', name, use, where, opt(tag)))


def lifetimes_first(gen):
    return gen


def struct(kind, fields, c=None, gen='', use='', where='', name=None):
    c = c or {}
    N[0] += 1
    name = name or 'S%d' % N[0]
    semi = ';' if kind != 'named' else ''
    w = (' ' + where) if where else ''
    bare = re.sub(r': sval::Value\b', '', gen)     # the macro adds the bound
    decl = '%spub struct %s%s%s%s' % (attrs(c), name, '<%s>' % bare if gen else '', (w + decl_fields(kind, fields)) if kind == 'named' else decl_fields(kind, fields) + w, semi)
    bind = (lambda i: '&this.%s' % fields[i][0]) if kind == 'named' else (lambda i: '&this.%d' % i)
    label = label_of(c.get('label'), name)
    index = None if 'index' not in c else '&sval::Index::from(%s)' % (('%disize' % c['index']) if isinstance(c['index'], int) else c['index'])
    ref = body(kind, fields, c, tag_of(c.get('tag')), label, index, bind)
    emit(decl, name, gen, use, ref, False if c.get('transparent') else c.get('tag'), w)


def enum(variants, c=None, gen='', use='', repr_=''):
    """variants: (name, kind, fields, attrs, discriminant)"""
    c = c or {}
    N[0] += 1
    name = 'E%d' % N[0]
    vs = ['%s%s%s%s' % (attrs(a), n, decl_fields(k, f), ' = %d' % d if d is not None else '') for n, k, f, a, d in variants]
    bare = re.sub(r': sval::Value\b', '', gen)
    decl = '%s%spub enum %s%s { %s }' % (repr_, attrs(c), name, '<%s>' % bare if gen else '', ', '.join(vs))
    dyn = c.get('dynamic')
    items = Items()
    arms = []
    for n, k, f, a, d in variants:
        if dyn or c.get('unindexed_variants'):
            ix = None if 'index' not in a else '&sval::Index::from(%s)' % (('%disize' % a['index']) if isinstance(a['index'], int) else a['index'])
        else:
            ix = items.next(a.get('index', d))
        l = None if c.get('unlabeled_variants') or dyn and k != 'unit' else label_of(a.get('label'), n)
        cc = dict(a)
        if dyn and k == 'newtype':
            cc['transparent'] = True
        ref = body(k, f, cc, tag_of(a.get('tag')), l, ix, lambda i: 'f%d' % i)
        pat = {'unit': lambda: '', 'named': lambda: ' { %s }' % ', '.join('%s: %sf%d' % (x[0], '_' if x[2].get('skip') else '', i) for i, x in enumerate(f))}.get(
            k, lambda: '(%s)' % ', '.join('%sf%d' % ('_' if x[2].get('skip') else '', i) for i, x in enumerate(f)))()
        arms.append('%s::%s%s => { %s }' % (name, n, pat, ' '.join(ref)))
    m = 'match this { %s }' % ' '.join(arms)
    if dyn:
        ref = [m]
    else:
        a = '%s, %s, %s' % (opt(tag_of(c.get('tag'))), opt(label_of(c.get('label'), name)), opt(None if 'index' not in c else '&sval::Index::from(%s)' % (
            ('%disize' % c['index']) if isinstance(c['index'], int) else c['index'])))
        ref = ['stream.enum_begin(%s)?;' % a, m, 'stream.enum_end(%s)?;' % a]
    emit(decl, name, gen, use, ref, False if dyn else c.get('tag'))


T = ['i32', '&\'static str', 'Vec<u8>', 'bool']
CONT = [{}, {'tag': 'CONTAINER'}, {'label': 'a label'}, {'label': '$A_LABEL'}, {'index': 7}, {'index': -3}, {'index': 'AN_INDEX'},
        {'tag': 'tags_of::CONTAINER2', 'label': 'both', 'index': 2}]
FIELD = [{}, {'tag': 'FIELD'}, {'data_tag': 'DATA'}, {'tag': 'FIELD2', 'data_tag': 'DATA'}, {'skip': True}, {'flatten': True}]
LABELS = [{'label': 'other name'}, {'label': '$A_LABEL'}, {'label': ''}]
INDEXES = [{'index': 5}, {'index': -1}, {'index': 'AN_INDEX'}]


def ok(kind, fs, c):
    live = [f for f in fs if not f.get('skip')]
    if c.get('unlabeled_fields') and (any('label' in f for f in fs) or not live):
        return False
    if c.get('unindexed_fields') and (any('index' in f for f in fs) or not live):
        return False
    # what an explicit index means for the items flattened around it is not documented
    if any(f.get('flatten') for f in live) and any('index' in f for f in live):
        return False
    if kind == 'tuple' and any('label' in f for f in live) and not all('label' in f for f in live):
        return False
    return True


def fields(kind, fs):
    names = ['first', 'r#type', 'stream', 'index']
    return [(names[i] if kind == 'named' else None, ('Vec<i32>' if f.get('flatten') else T[i % len(T)]), f) for i, f in enumerate(fs)]


def gen():
    one = FIELD + LABELS + INDEXES
    flags = [{}, {'unlabeled_fields': True}, {'unindexed_fields': True}, {'unlabeled_fields': True, 'unindexed_fields': True}]
    for c in CONT:
        struct('unit', [], c)
        struct('newtype', [(None, 'i32', {})], c)
        struct('tuple', fields('tuple', [{}, {}]), c)
        struct('named', fields('named', [{}, {}]), c)
        for fl in flags[1:]:
            struct('named', fields('named', [{}, {}]), dict(c, **fl))
            struct('tuple', fields('tuple', [{}, {}]), dict(c, **fl))
    struct('newtype', [(None, 'i32', {})], {'transparent': True})
    struct('newtype', [(None, 'T', {})], {'transparent': True}, 'T: sval::Value', '<T>')
    struct('named', [])
    struct('tuple', [])
    for kind in ('named', 'tuple'):
        for fl in flags:
            for a in one:
                for k in range(3):
                    fs = [{}, {}, {}]
                    fs[k] = a
                    if ok(kind, fs, fl) and (a or k == 0):
                        struct(kind, fields(kind, fs), fl)
            for a, b in itertools.product(one, one):
                if a and b and ok(kind, [a, b], fl):
                    struct(kind, fields(kind, [a, b, {}] if ok(kind, [a, b, {}], fl) else [a, b]), fl)
    # tuples whose fields are all labelled are records
    struct('tuple', [(None, 'i32', {'label': 'a'}), (None, 'bool', {'label': 'b'})])
    struct('tuple', [(None, 'i32', {'label': 'a'}), (None, 'bool', {'label': 'b', 'index': 9}), (None, 'bool', {'label': '$A_LABEL'})])
    struct('tuple', [(None, 'i32', {'label': 'a'}), (None, 'bool', {'label': 'b'})], {'unindexed_fields': True})
    # flattening between fields
    for kind, fl in itertools.product(('named', 'tuple'), flags):
        struct(kind, fields(kind, [{'flatten': True}, {}, {'flatten': True}, {}]), fl)
        struct(kind, fields(kind, [{}, {'flatten': True}, {'skip': True}, {'tag': 'FIELD', 'data_tag': 'DATA'}]), fl)
    # generics
    struct('named', [('a', 'T', {}), ('b', 'U', {'skip': True})], {}, 'T: sval::Value, U: sval::Value', '<T, U>')
    struct('named', [('a', 'T', {}), ('b', "&'a str", {})], {'tag': 'CONTAINER'}, "'a, T: sval::Value", "<'a, T>")
    struct('tuple', [(None, 'T', {}), (None, '[u8; M]', {})], {}, 'T: sval::Value, const M: usize', '<T, M>')
    struct('tuple', [(None, 'T', {}), (None, 'Option<T>', {})], {}, 'T: sval::Value', '<T>', 'where T: Clone')
    struct('newtype', [(None, 'Vec<T>', {})], {}, 'T: sval::Value', '<T>', 'where T: Clone')
    # enums
    V = lambda n, k, a=None, d=None, fs=None: (n, k, {'unit': [], 'newtype': [(None, 'i32', {})], 'tuple': fields('tuple', fs or [{}, {}]), 'named': fields('named', fs or [{}, {}])}[k], a or {}, d)
    four = lambda: [V('A', 'unit'), V('B', 'newtype'), V('C', 'tuple'), V('D', 'named')]
    vflags = [{}, {'unlabeled_variants': True}, {'unindexed_variants': True}, {'unlabeled_variants': True, 'unindexed_variants': True}]
    for c in CONT:
        enum(four(), c)
    for c in vflags[1:] + [{'dynamic': True}]:
        enum(four(), c)
    kinds = ('unit', 'newtype', 'tuple', 'named')
    for a in [{'tag': 'VARIANT'}, {'label': 'other'}, {'label': '$A_LABEL'}, {'index': 4}, {'index': -2}, {'index': 'AN_INDEX'}, {'tag': 'VARIANT', 'label': 'all', 'index': 1}]:
        for k in kinds:
            for c in vflags + [{'dynamic': True}]:
                if 'label' in a and (c.get('unlabeled_variants') or c.get('dynamic') and k != 'unit'):
                    continue
                if c.get('dynamic') and k == 'newtype':
                    continue
                if c.get('dynamic') and 'index' in a and k != 'unit':
                    continue
                enum([V('A', 'unit'), V('B', k, a), V('r#C', 'newtype'), V('D', 'unit')], c)
        enum([V('A', 'unit', a), V('B', 'unit'), V('C', 'named')])
    enum([V('A', 'unit', d=3), V('B', 'unit'), V('C', 'unit', d=-5), V('D', 'unit')])
    enum([V('A', 'unit'), V('B', 'unit', d=6), V('C', 'unit', {'index': 2}, 9), V('D', 'unit')])
    enum([V('A', 'unit', d=1), V('B', 'newtype'), V('C', 'named', d=8), V('D', 'tuple')], repr_='#[repr(isize)]\n')
    for k in ('tuple', 'named'):
        for a in one:
            for fl in flags:
                if a and ok(k, [{}, a, {}], fl):
                    enum([V('A', k, fl, None, [{}, a, {}]), V('B', 'unit')])
        for a, b in itertools.combinations([x for x in FIELD if x], 2):
            enum([V('A', k, {}, None, [a, b]), V('B', 'newtype')], {'dynamic': True})
    enum([('A', 'newtype', [(None, 'T', {})], {}, None), ('B', 'named', [('x', 'U', {}), ('y', "&'a str", {'tag': 'FIELD'})], {}, None)], {}, "'a, T: sval::Value, U: sval::Value", "<'a, T, U>")


HEAD = '''// Generated by spec/derive_corpus.py
#![allow(dead_code, unused)]
use sval_derive::Value;

const CONTAINER: sval::Tag = sval::Tag::new("container");
const FIELD: sval::Tag = sval::Tag::new("field");
const FIELD2: sval::Tag = sval::Tag::new("field2");
const DATA: sval::Tag = sval::Tag::new("data");
const VARIANT: sval::Tag = sval::Tag::new("variant");
mod tags_of { pub const CONTAINER2: sval::Tag = sval::Tag::new("container2"); }
const A_LABEL: sval::Label = sval::Label::new("a const label").with_tag(&CONTAINER);
const AN_INDEX: sval::Index = sval::Index::new(11).with_tag(&CONTAINER);
'''

if __name__ == '__main__':
    gen()
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'derive_corpus', 'src', 'lib.rs')
    open(p, 'w').write(HEAD + '\n' + '\n'.join(OUT) + '\n')
    print(N[0], 'types')
