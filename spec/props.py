ABS = ('abstract interpretation of the MIR the compiler produced for the current tree: path-partitioned, '
       'context-sensitive, provenance-term domain, widening at loop heads; ')


def P(id, title, statement, over, text, why, files, mech, technique, note):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
            'technique': technique, 'level_note': note}


PROPS = [
    P('P01', 'Wrapping a stream or a value changes nothing',
      'Streaming through a mutable reference, a box, a trait object, a reference wrapper or any other adapter that exists only '
      'to pass calls on delivers exactly the token the caller sent, with the same arguments, to the wrapped stream, once, and '
      'hands back its result; the functions that stream a value hand that very value over, once. Asking a wrapped value to stream or convert itself gives exactly what the wrapped value gives. '
      'No token, hint, tag, label or index is dropped, replaced by a lossier one, duplicated or reordered on the way.',
      ['inputs', 'programs', 'configurations'],
      'for every method of the stream and value interfaces, every transparent adapter, every argument, every wrapped type and every feature set',
      'The tests stream a few values through a few adapters; a method forwarded to its neighbour, or left to its lossy default, '
      'only shows for a wrapped type that overrides that method and that no test uses.',
      ['src/stream.rs', 'src/value.rs', 'dynamic/src/stream.rs', 'dynamic/src/value.rs', 'ref/src/lib.rs', 'fmt/src/writer.rs', 'flatten/src/map.rs'],
      [('macro-generated forwarding of every stream method', 'src/stream.rs'), ('object-safe dispatch traits', 'dynamic/src/stream.rs')],
      ABS + 'each path of each adapter method must be exactly one same-named call on the wrapped object with the method\'s own '
      'parameters; methods left to defaults are reported', 'Sound for the analysed adapters over all inputs and wrapped types; '
      'adapters are recognised by impl header (references, boxes, trait objects, reference wrappers, pass-through streams).'),
    P('P02', 'Built-in values stream one complete value that is their content',
      'Each value type the library implements streaming for (numbers, booleans, text, bytes, options, results, tuples, arrays, '
      'slices, maps, sets, boxes, shared pointers, JSON text and the like) emits exactly one complete, well-nested value: every '
      'begin has its matching end with the same tag, label and index, keys alternate with values, each element is visited once and '
      'in order. What is emitted is the content of the value itself, and it never fails or panics by itself.',
      ['inputs', 'programs', 'configurations'],
      'for every built-in value type, every content of it, every stream it is streamed into and every feature set',
      'Tests stream a handful of small values; an end with another label or an element visited twice needs the particular type, '
      'variant and length to show.',
      ['src/value.rs', 'src/data/map.rs', 'src/data/seq.rs', 'src/data/option.rs', 'src/data/text.rs', 'src/data/binary.rs', 'src/data/number.rs', 'ref/src/map.rs', 'ref/src/seq.rs', 'json/src/value.rs'],
      [('Value implementations for std types', 'src/data')],
      ABS + 'a pushdown typestate of the token protocol is propagated over the event graph of each implementation, and the streamed '
      'terms are compared with the parts of `self` they must come from',
      'All paths and all loop iterations of each implementation; values that replay a buffer are decided by the buffer property instead.'),
    P('P03', 'The first failure stops streaming and reaches the caller',
      'When a call on a stream, a nested value, a writer or a serializer fails, no further token is sent to it, the enclosing '
      'operation reports failure, and nothing panics. A failure is never turned into success or silently dropped.',
      ['inputs', 'programs', 'fault_sequences', 'configurations'],
      'for every function that streams, buffers, formats or serializes, every position at which a call it makes can fail, in every feature set',
      'The tests hardly ever use a stream that fails; the number of failure positions is the number of calls in the workspace.',
      ['src/stream.rs', 'json/src/to_fmt.rs', 'json/src/to_io.rs', 'buffer/src/value.rs', 'buffer/src/fragments.rs', 'nested/src/flat.rs', 'serde/src/to_value.rs'],
      [('early return on every fallible call', 'every streaming method')],
      ABS + 'error edges of every fallible event are followed: no later event, no panic, and the returned value must carry the error',
      'Every error edge of every function returning a result in the analysed crates; values formatted through the std Debug/Display '
      'placeholder are out of the domain and listed as inconclusive.'),
    P('P04', 'Default lowerings keep the structure and the value',
      'A stream that implements only the required methods still receives every value faithfully: numbers arrive at a wider type with '
      'exactly the same value (or as decimal text tagged as a number when no narrower token fits), bytes arrive as a sequence of all the bytes in order, maps as '
      'key-value pairs, records as maps from the field labels, tuples as sequences, and absent options as null. Every lowered container is one complete, '
      'balanced value with true size hints, its tag, label and index are the ones given, and lowering ends.',
      ['inputs', 'programs', 'configurations'],
      'for every optional stream method, every argument, any number of elements and any nesting, for every stream that leaves it to its default',
      'Streams in the tests override most methods; which lowering is used, and whether the begins and ends of several methods fit together, depends on '
      'the combination of methods a downstream stream leaves out.',
      ['src/stream.rs', 'src/data/number.rs'], [('default_stream', 'src/stream.rs')],
      ABS + 'the events of the default methods of each container are composed in the order a value makes the calls (0, 1, 2 elements) and run '
      'through the pushdown typestate of the token protocol; scalar casts are classified lossless or lossy from the types',
      'All arguments; the typestate is the same after any number of elements, so two rounds decide all lengths.'),
    P('P05', 'Safe code never sees a dangling, uninitialised or mistyped reference',
      'Nothing a user can write in safe code gets a reference out of the library that outlives its data, points at storage that was '
      'never written or was already released, or is read at a type it does not have. A value that says it owns its content really '
      'borrows nothing, owned text is released exactly once, and a wrapper viewed in place has the layout of what it wraps.',
      ['programs', 'inputs', 'configurations'],
      'for every safe program using the public interface, every value streamed and every feature set, with or without an allocator',
      'A test sees memory that happens to still hold the right bytes; a dangling or double-released pointer passes until the allocator reuses it.',
      ['src/data.rs', 'src/data/map.rs', 'src/data/binary.rs', 'src/data/text.rs', 'buffer/src/value.rs', 'buffer/src/fragments.rs', 'json/src/value.rs', 'ref/src/lib.rs'],
      [('label storage', 'src/data.rs'), ('in-place conversion to owned', 'buffer/src/value.rs'), ('fixed-capacity storage', 'buffer/src/value.rs'),
       ('transparent wrappers', 'src/data/map.rs')],
      ABS + 'ownership obligations at every transmute, raw-pointer cast and raw-pointer field (layout promise of the target type, every part made owned '
      'on every path before the lifetime is dropped, label storage invariants, element count against written elements); plus compile-fail '
      'witnesses (programs that must be rejected by the borrow checker against the current tree, each with an accepted twin)',
      'Sound for the listed unsafe constructs, each of which is found in the tree on every run; the witnesses cover the public borrowing interface by example.'),
    P('P06', 'Conversions give exactly the value that streaming would',
      'Asking a value for a boolean, a number of some width, text or bytes gives either nothing or exactly what the value streams: '
      'never a truncated, rounded or wrapped number, never a part of a text that came in several fragments, never an element of a '
      'container, and nothing when streaming fails. An integer that fits, a boolean, a float of that width and text or bytes in one borrowed fragment are '
      'always given; asking for the tag gives the outermost tag.',
      ['inputs', 'programs', 'configurations'],
      'for every value, including user-defined ones, every target type and every token sequence a value can stream',
      'Tests convert a few literals to their own type; wrong answers need a value of another width, another fragmentation or nesting.',
      ['src/value.rs', 'src/data/number.rs', 'src/data/option.rs', 'src/data/text.rs', 'src/data/binary.rs'],
      [('default_value extractors', 'src/value.rs')],
      ABS + 'the extractors behind the conversions are driven abstractly through the token sequences of the value grammar (contents symbolic); '
      'what is extracted must be the content term, casts are classified lossless from types and path conditions',
      'All contents; sequences up to three fragments, two elements and two tag layers (the extractors keep at most two flags, so longer sequences repeat their states).'),
    P('P07', 'A buffered value replays exactly what was buffered',
      'Buffering a value and streaming the buffer delivers the same tokens in the same order, with the same tags, labels, indexes, sizes and '
      'content, whether the buffer borrowed or owns its content, and also after it is cleared and reused, cloned or made owned. Text and byte '
      'buffers hold exactly the concatenation of their fragments. Anything that cannot be recorded is reported as an error, never dropped, and a buffer '
      'calls itself complete only when every container and text in it is closed.',
      ['inputs', 'histories', 'configurations'],
      'for every well-formed sequence of tokens, every nesting depth, every fragmentation and every mix of borrowed and computed content',
      'Entries carry lengths computed when their container closes, so a wrong one only shows for particular nestings; tests buffer a few small values.',
      ['buffer/src/value.rs', 'buffer/src/fragments.rs'],
      [('flat parts with lengths back-patched on end', 'buffer/src/value.rs'), ('borrowed-until-second-fragment buffers', 'buffer/src/fragments.rs')],
      ABS + 'the effect of each recorded token and of each replayed entry is summarised from an arbitrary state and composed: the replay of the entry a '
      'token leaves must be that token; the positions and lengths are related by linear arithmetic over the entries of a container',
      'Inductive, so over sequences of any length and depth; standard containers (vectors, strings, copy-on-write) are trusted.'),
    P('P08', 'JSON output is well formed',
      'Whatever complete value is streamed into the JSON formatter, if writing succeeds the output is one well-formed JSON document: '
      'brackets, quotes, commas and colons balance, map keys are quoted strings, and enums, tags, records and options nested in any '
      'way inside each other still form objects and arrays. No valid value is refused except values that cannot be a map key.',
      ['inputs', 'programs', 'configurations'],
      'for every well-formed sequence of tokens, however deeply nested, and every combination of tags, labels and indexes',
      'The formatter keeps a few flags instead of a stack; whether they are right depends on the sequence of containers entered and '
      'left before, of which the tests try a few.',
      ['json/src/to_fmt.rs'],
      [('flags tracking position in the document', 'json/src/to_fmt.rs'), ('internally tagged objects', 'json/src/to_fmt.rs')],
      ABS + 'the formatter is extracted as a finite transition system over its flags; its product with a pushdown automaton of the JSON '
      'grammar is closed under nesting by summaries (one fixpoint over all values in all positions)',
      'Every token sequence of the value grammar over representative tags (none, each special tag, another), labels (none, plain, '
      'identifier, other) and indexes; JSON_VALUE/JSON_TEXT/JSON_NUMBER content is the caller\'s promise.'),
    P('P09', 'JSON strings are escaped exactly',
      'Text written as a JSON string or key reads back as exactly the same text: every quote, backslash and control character is '
      'escaped with an escape that denotes it, every other byte is copied, nothing is dropped, repeated or reordered. Text is only '
      'written without escaping where it was declared to be JSON already.',
      ['inputs', 'configurations'],
      'for every string, of any length and content, wherever text is written',
      'There are 256 byte values at every position and fragment boundary; tests sample a few short strings.',
      ['json/src/to_fmt.rs'], [('escape_str and the escape table', 'json/src/to_fmt.rs')],
      ABS + 'the loop body is analysed once per byte value for an arbitrary iteration; what it writes and how it moves the start of the '
      'pending text must preserve the invariant "output so far + pending text = escaped input so far"',
      'Inductive over the text, for all 256 byte values; a rewritten loop that this induction does not recognise is inconclusive.'),
    P('P10', 'JSON scalars and number text keep their value',
      'Integers of every width, booleans, null and finite floats are written as themselves and non-finite floats as null. Text tagged as a number, split into '
      'fragments anywhere, becomes a valid JSON number with the same sign, digits, fraction and exponent (no leading zeroes or plus sign), '
      'and nan or infinity becomes null.',
      ['inputs', 'configurations'],
      'for every integer and float, every number text in the documented grammar and every way of splitting it into fragments',
      'Number text is normalised byte by byte by a small state machine that carries state across fragments; the sequences of states are unbounded.',
      ['json/src/to_fmt.rs', 'src/data/tags.rs'], [('NumberTextHandler', 'json/src/to_fmt.rs'), ('grammar of tags::NUMBER', 'src/data/tags.rs')],
      ABS + 'the number handler is extracted as a transducer (per state and byte, for any position in a fragment) and its product with the '
      'documented grammar and the normalised output is explored exhaustively; scalar methods must write the formatting of their own argument',
      'Exhaustive over the finite product automaton, so over all number texts and splits. itoa and ryu are trusted.'),
    P('P11', 'Writing JSON delivers every byte or reports failure',
      'Writing JSON to an io writer hands the writer every byte of the document, in order and once, across short writes and '
      'interruptions, and reports success only then. Any other error, or a writer that accepts no more bytes, is reported to the caller; '
      'the convenience entry points stream the value exactly once and report exactly whether that succeeded.',
      ['inputs', 'fault_sequences', 'configurations'],
      'for every document and every sequence of short writes, interruptions and errors the writer produces',
      'Tests write into vectors, which never write short and never fail.',
      ['json/src/to_io.rs', 'json/src/to_fmt.rs', 'json/src/to_string.rs', 'json/src/to_vec.rs'], [('IoToFmt adapter', 'json/src/to_io.rs')],
      ABS + 'loop invariant over the remaining slice: each iteration offers all of it, keeps exactly what the returned count leaves, and '
      'leaves the loop successfully only when it is empty',
      'All iterations and all writer behaviours of the adapter; writers themselves are assumed to honour the io contract.'),
    P('P12', 'Debug-style output has the structure and content of the value',
      'Formatting a value in the debug style writes balanced, correctly separated output for it however it is nested: maps, sequences, records, tuples and '
      'enums in their brackets, each label, number and text written once as itself, and first or empty containers reported as such to the token writer. '
      'Text is quoted and every character is written as itself or as its Rust debug escape, with nothing lost, repeated or left unescaped. '
      'Debug or Display values adapted into values stream exactly what formatting them gives.',
      ['inputs', 'programs', 'configurations'],
      'for every well-formed sequence of tokens, however nested, every text and every token writer',
      'The writer keeps two flags instead of a stack, so whether the output is right depends on what was entered and left before; escaping depends on every '
      'character and its neighbours. Tests format a few shallow values.',
      ['fmt/src/writer.rs', 'fmt/src/token_write.rs', 'fmt/src/to_value.rs', 'fmt/src/to_fmt.rs', 'fmt/src/to_write.rs'],
      [('flags tracking the depth', 'fmt/src/writer.rs'), ('write_escape_debug', 'fmt/src/token_write.rs'), ('default TokenWrite methods', 'fmt/src/token_write.rs')],
      ABS + 'the writer is extracted as a finite transition system over its flags and its product with a grammar of token-writer calls is closed under nesting; '
      'default token methods are expanded to the symbols they write; the escaping loop is shown to keep an invariant over the text',
      'Every token sequence of the value grammar over representative tags, labels and indexes; all texts by induction. Whitespace and the arguments of custom '
      'token writers beyond position, content and first/empty flags are not constrained; char::escape_debug, itoa and ryu are trusted.'),
    P('P13', 'Values serialize through serde as themselves',
      'Adapting a value to serde serializes it as itself: every scalar through the method of its own type, sequences, maps, tuples, records and enum '
      'variants with their own names, indexes, lengths and contents in order, null and absent options as unit or none. Nothing is dropped, repeated or '
      'renamed, and an error from either side becomes an error of the serializer.',
      ['inputs', 'programs', 'configurations'],
      'for every value, every combination of tags, labels and indexes and every serializer',
      'The mapping branches on tag, label and index of each container and enum layer; tests serialize a few derived types.',
      ['serde/src/to_serialize.rs'],
      [('nested stream into a serializer', 'serde/src/to_serialize.rs')],
      ABS + 'every method of the adapter is interpreted against an abstract serializer for each representative tag, label and index; each path must make '
      'exactly the expected serializer calls with the arguments it was given and carry their errors',
      'All paths of the adapter over representative tags, labels and indexes. Enums whose layers have no name are refused by design.'),
    P('P14', 'Serde values stream into sval as themselves',
      'Adapting a serde value into a value streams it as itself: each serde data model call becomes the complete, balanced sequence of stream calls for the '
      'same shape, with the same names, variant indexes, lengths, keys and contents in order. Any stream error stops it and is reported.',
      ['inputs', 'programs', 'configurations'],
      'for every type with a serde implementation, every stream and every point the stream fails at',
      'Serde has 29 data model calls with compound follow-ups; tests stream a few derived types into streams that never fail.',
      ['serde/src/to_value.rs'],
      [('serializer into a stream', 'serde/src/to_value.rs')],
      ABS + 'every serializer method is interpreted against an abstract stream; every path must emit exactly the token sequence of the data model call with its '
      'own arguments, or stop after the call that failed',
      'All paths of the adapter; serde implementations of user types are assumed to follow the serde contract.'),
    P('P15', 'Nested streams receive the same value as flat streams',
      'A value streamed through the nested interface becomes exactly the calls its tokens describe: each scalar, text, bitstring, container and enum variant '
      'one call at its own position with its own tag, label, index, length and content, in order, and borrowed content stays borrowed. '
      'Nested enums and containers of any depth arrive whole inside their parents. A failure of the value or of any call is the result, and nothing panics.',
      ['inputs', 'programs', 'configurations'],
      'for every value, however deep, every combination of present and absent tags, labels and indexes, and every nested stream',
      'Values below the first level are buffered and replayed, and enums queue their parents, so what arrives depends on depth, position and which parts of '
      'an identity are present. Tests stream a few derived types.',
      ['nested/src/flat.rs', 'nested/src/flat_enum.rs', 'nested/src/lib.rs'],
      [('FlatStream states', 'nested/src/flat.rs'), ('queue of nested enums', 'nested/src/flat_enum.rs'), ('default_stream', 'nested/src/lib.rs')],
      ABS + 'the state of the flat stream at every position a value can be in is obtained by interpreting the methods that lead there; from each, every kind of '
      'value is delivered symbolically and must become one nested call with the same content; the position must be re-entered in the same state, which makes '
      'the argument inductive over elements, and every token inside a buffered container must reach the buffer as itself',
      'All positions, all value kinds, all lengths by induction; nested enums two deep with the rest of the queue handled alike. Buffers are opaque here (P07).'),
    P('P16', 'Flattening moves the items of a value onto its parent unchanged',
      'Flattening a map, sequence, record, tuple or enum onto a parent map, sequence, record or tuple delivers each of its items once, in order, as one item of the '
      'parent, with its own label or key, an index continuing from the parent, and its content exactly as it was, however deep. Keys are '
      'passed on, turned into text or left out as documented for the parent; anything that cannot be flattened is left out. The offset returned is one past the last item.',
      ['inputs', 'programs', 'configurations'],
      'for every value that is flattened, every parent kind, every offset, any number of items and any nesting of the content and the keys',
      'The flattening stream tells the container it dissolves from those below by a depth counter and a few flags, so what it does with a token depends on all '
      'tokens before it. Tests flatten a few shallow values.',
      ['flatten/src/flattener.rs', 'flatten/src/map.rs', 'flatten/src/record.rs', 'flatten/src/record_tuple.rs', 'flatten/src/seq.rs', 'flatten/src/tuple.rs', 'flatten/src/label.rs', 'flatten/src/index.rs'],
      [('depth and key flags', 'flatten/src/flattener.rs'), ('keys turned into labels', 'flatten/src/label.rs'), ('running offset', 'flatten/src/index.rs')],
      ABS + 'the state the entry points create is followed through the methods unknown code may call on it; at each position (root, enum, key, value, nested '
      'container at a symbolic depth) every token is delivered symbolically and must reach the parent as documented; an item must restore the state it started '
      'from with the running offset advanced, which makes the argument inductive',
      'All positions and parents, any number of items and any depth by induction; keys turned into labels are checked for every scalar kind and for sequences up to depth '
      'three. Offsets are assumed not to overflow a machine word; indexes that are not offsets only have to arrive as given.'),
    P('P17', 'Derived values stream the type as its attributes say',
      'A struct, tuple, newtype, unit struct or enum with a derived implementation streams the documented record, tuple, tag or enum: every field that is not skipped '
      'once, in order, with its own label, index and tag, ended as it was begun, in the shape its attributes select. Indexes count on from the last explicit one, and an '
      'enum streams the variant it holds. The tag the value reports is the one its attributes give it.',
      ['inputs', 'programs', 'configurations'],
      'for every combination of the documented attributes, alone and in pairs, in every position, on every kind of type, and for every content of the fields',
      'The macro has a separate code path for each kind of type and each attribute; the tests derive a few types and compare a few token streams.',
      ['derive_macros/src/derive.rs', 'derive_macros/src/stream/stream_record_tuple.rs', 'derive_macros/src/stream/stream_newtype.rs', 'derive_macros/src/stream/stream_tag.rs', 'derive_macros/src/stream/stream_enum.rs', 'derive_macros/src/index.rs', 'derive_macros/src/label.rs', 'derive_macros/src/tag.rs', 'derive_macros/src/attr.rs'],
      [('code generation for records and tuples', 'derive_macros/src/stream/stream_record_tuple.rs'), ('running index', 'derive_macros/src/index.rs'), ('attributes', 'derive_macros/src/attr.rs')],
      ABS + 'a generated family of types (every attribute alone and in pairs, in every position) is compiled with the macro of the current tree, never run, and every path of the '
      'generated methods is compared with the paths of the calls the documentation promises, written out by rules that share nothing with the macro',
      'All contents of each type; the attribute combinations are those of the family (about 940 types), so a change that only shows with three attributes together can be missed.'),
    P('P18', 'Labels, indexes, tags and wrappers keep what they hold',
      'A label, index or tag reports exactly the text, number and hint it was made from, however it was cloned, owned, tagged or converted, and a conversion that cannot '
      'keep the value gives nothing. Labels and indexes compare, order and hash by their text or number alone, consistently, and tags are equal only if they have the same name. '
      'Putting a value into a wrapper or a fragment into a buffer and taking it out, cloning or comparing it gives that value.',
      ['inputs', 'configurations'],
      'for every text, number, tag and wrapped value, every constructor followed by every accessor, conversion or comparison, and every feature set',
      'The number space is 128 bits wide and labels have three representations times two hints; tests look at a few small values and mostly at untagged ones.',
      ['src/data.rs', 'src/data/tags.rs', 'src/data/text.rs', 'src/data/binary.rs', 'src/data/map.rs', 'json/src/value.rs', 'ref/src/lib.rs', 'buffer/src/fragments.rs'],
      [('labels with borrowed, static or owned text', 'src/data.rs'), ('index conversions', 'src/data.rs'), ('tag identity', 'src/data.rs')],
      ABS + 'every constructor is interpreted from symbolic content and its result handed to every accessor, conversion, comparison and hash; the term that comes out must be the content '
      'that went in, and the path conditions of conversions are compared as intervals with the range of the target type',
      'All texts, numbers and tags. Boxes and strings of the standard library are trusted to keep their content.'),
    P('P19', 'Test tokens record every call and the assertions decide by them',
      'The token buffer for tests records each call a value makes on it as exactly one token of that kind with the arguments of the call, in order. Two tokens are equal only if they are of the same '
      'kind and all their parts are equal. Asserting tokens passes only when the value streamed successfully and all its tokens equal the expected ones; asserting '
      'validity or invalidity passes only when streaming succeeded or failed.',
      ['inputs', 'programs'],
      'for every method of the stream interface, every argument of it, every value under test and every list of expected tokens',
      'It is what the tests are written with: a call it does not record, or records as another, is invisible to every test that uses it.',
      ['test/src/lib.rs'], [('token buffer', 'test/src/lib.rs'), ('assertions', 'test/src/lib.rs')],
      ABS + 'each method of the buffer must push the one token named after it with its own arguments; the paths on which an assertion returns normally must have seen the success and the comparison they claim; '
      'each pair of tokens is compared part by part',
      'All methods, all arguments. How the failure message is rendered is not covered.'),
    P('P20', 'Streaming is linear in the size of the value and bounded in depth',
      'Streaming a value through any adapter or formatter takes time and memory proportional to the tokens it produces, and the stack grows at most with the nesting of the value.',
      ['inputs', 'programs'],
      'for every value and every stream',
      'Tests run on small values and do not measure.',
      ['src/value.rs', 'buffer/src/value.rs', 'nested/src/flat.rs', 'json/src/to_fmt.rs'], [('streaming', 'src/stream.rs')], '', ''),
]
NOT_APPLICABLE = [('P20', 'Time, memory and stack depth depend on how often unknown user code calls back and how deep it recurses, and on the growth policy of allocations in the standard library; '
                   'no static bound in reach relates them to the tokens produced. Measuring it would be a runtime test.')]

# further sections of DESIGN.md, one paragraph per property
DESIGN_MORE = [
    '**P17 derive** (`rules_derive.py`, `spec/derive_corpus.py`, `derive_corpus/`, 15-40 s). A procedural macro is code that writes code, so the check looks at what it writes: '
    '940 generated types are compiled (not run) with the macro of the current tree and the MIR of each generated `stream` and `tag` is compared, path by path, with a reference written out '
    'next to the type by rules that follow the documentation. The same calls on the stream with the same arguments, the same variant tests and the same failures are required. '
    'If the family no longer compiles while the tree does, that is a violation too. Why not less: reading the macro itself would judge how it is written.',
    '**P18 plain data** (`rules_data.py`, 0.5 s). Constructor-then-accessor laws over symbolic content for labels (three representations, with and without tag, cloned, owned), indexes '
    '(all constructors, conversions as intervals over the 128 bit range, equality, order, hash), tags (equality decided by the name, the constants all different), wrappers and fragment buffers.',
    '**P19 test tokens** (`rules_test.py`, 0.5 s). Every method of `TokenBuf` with symbolic arguments, present and absent; the paths of the assertions; token equality for every variant and part.',
    '**P20 cost** is not applicable: see section 6.',
]
