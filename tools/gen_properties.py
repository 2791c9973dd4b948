#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles and statements)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'structured/serializers/'
H = 'structured/hint_types/'
CORE = 'structured/structured.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))


API = ['Structured.pack', 'Structured.pack_into', 'Structured.pack_write', 'Structured.create_unpack',
       'Structured.create_unpack_from', 'Structured.create_unpack_read', 'Structured.unpack*']

prop('C01', 'Packing then unpacking returns the same object',
     'For every class made of supported field types, in any combination and nesting and with any byte order, and every instance '
     'with representable values, unpacking the bytes the instance packs to yields an instance of the same class that compares equal '
     'and whose every field has the documented Python type (int, float, bool, bytes, str, list, tuple, the nested class). '
     'The only permitted differences are the documented normalisations: fixed-width strings are padded or cut to their width, '
     'a terminated string loses its terminator, and text loses trailing NULs.',
     ['inputs', 'programs'], 'all class definitions over the supported hint alphabet (fields, order, nesting, byte order) x all field values',
     'The tests round-trip about 30 hand-picked classes with one value each; they never combine most field kinds, so an error that '
     'needs a particular neighbour, an empty or boundary-length value, or a nesting level is not reached.',
     [CORE, S + 'api.py', S + 'structs.py', S + 'strings.py', S + 'arrays.py', S + 'tuples.py', S + 'structured.py', S + 'unions.py', S + 'conditional.py'],
     [('chaining of per-field codecs and value slicing', S + 'api.py:CompoundSerializer'),
      ('assignment of unpacked values to attributes', CORE + ':Structured.create_unpack')],
     [('per-codec size', 'bytes used by the last operation; drives the offset of the next field', S + 'api.py:Serializer.size')], API)

prop('C02', 'Packed bytes follow the documented wire layout',
     'The bytes produced for an instance are exactly the documented layout: each run of consecutive basic fields is one struct format in declaration '
     'order under the class byte order (with the alignment padding that format implies), and every complex field is laid out on its own with no '
     'padding around it - count or length prefix, optional data-size word, items back to back, string bytes, terminator, or nested record. '
     'Conversely any byte string that a decoder of this layout accepts is decoded to the values it denotes, and one it does not accept is refused.',
     ['inputs', 'programs'], 'all class definitions over the hint alphabet x all values (encoding) and all byte strings up to a length (decoding)',
     'The tests compare against hand-written struct.pack calls for a few classes; layout errors that are symmetric between pack and unpack, or that '
     'depend on which fields are adjacent, cannot be seen by example or by round-tripping.',
     [CORE, S + 'structs.py', S + 'arrays.py', S + 'strings.py', S + 'tuples.py', H + 'arrays.py', H + 'strings.py', H + 'basic_types.py'],
     [('merging of adjacent struct formats', S + 'structs.py:fold_overlaps, StructSerializer.__add__/__mul__/__matmul__'),
      ('array and string framing', S + 'arrays.py, ' + S + 'strings.py')], (), API)

prop('C03', 'All pack methods write the same bytes, only where asked',
     'For any instance, packing to a bytes result, into a buffer at any offset, and to a stream all yield the same byte sequence. '
     'Packing into a buffer changes only the bytes of the packed region and never the length of the buffer, and is refused when the region does not fit; '
     'packing to a stream writes exactly those bytes at the current position.',
     ['inputs', 'programs', 'fault_sequences'], 'all class definitions x values x buffer sizes (including every too-small one) x offsets x stream positions',
     'Tests pack into exactly-sized buffers at offset 0 and into an empty stream; offsets, guard bytes and too-small buffers are never tried.',
     [CORE, S + 'api.py', S + 'strings.py', S + 'arrays.py', S + 'unions.py', S + 'conditional.py', S + 'tuples.py', S + 'structured.py'],
     [('offset arithmetic when packing into a buffer', S + 'api.py:CompoundSerializer.pack_into, ' + S + 'arrays.py:ArraySerializer.pack_into')],
     (), ['pack', 'pack_into', 'pack_write'])

prop('C04', 'All unpack methods agree and consume exactly the record',
     'Unpacking the same bytes from a bytes-like object (bytes, bytearray or memoryview), from a buffer at any offset, or from a stream at any position - whether creating a new '
     'instance or filling an existing one - yields the same field values, independent of whatever bytes precede or follow the record. '
     'A stream is left positioned exactly after the record, the input is never modified, and the result stays valid if the input buffer is later changed.',
     ['inputs', 'programs'], 'all class definitions x packed records x buffer types x offsets x trailing data x stream positions',
     'Tests unpack at offset 0 from bytes/bytearray with no surrounding data for nearly all types; in-place unpacking is tried on two struct-only classes.',
     [CORE, S + 'api.py', S + 'strings.py', S + 'arrays.py', S + 'unions.py', S + 'self.py', S + 'structured.py'],
     [('three parallel implementations of decoding per codec', S + '*.py:unpack/unpack_from/unpack_read'),
      ('terminated strings over-read and seek back', S + 'strings.py:TerminatedCharSerializer.unpack_read'),
      ('look-ahead unions rewind', S + 'unions.py:LookaheadDecider.unpack_read')], (),
     ['create_unpack', 'create_unpack_from', 'create_unpack_read', 'unpack', 'unpack_from', 'unpack_read', 'stream.tell()'])

prop('C05', 'The reported size equals the bytes used',
     'Immediately after any completed pack or unpack, through any of the methods, the size reported by the class\'s serializer (or by a serializer used directly) equals '
     'the number of bytes that operation produced or consumed. This holds for every field type and nesting, whatever operations were performed before.',
     ['inputs', 'programs', 'histories'], 'all class definitions x values x operations, in sequence',
     'standard_tests checks size for about 20 classes at offset 0, each once; sizes that are wrong only at non-zero offsets, for a single-field class, after a shorter or longer value, or when nested are not seen.',
     [S + 'api.py', S + 'strings.py', S + 'arrays.py', S + 'unions.py', S + 'tuples.py', S + 'conditional.py', S + 'structured.py'],
     [('size written at the end of each operation and propagated from specialised to originating codec', S + 'api.py:_SpecializedCompoundSerializer')],
     [('size', 'bytes used by the most recent operation', S + '*.py')], ['cls.serializer.size'])

prop('C06', 'The class byte order governs every multi-byte quantity',
     'The byte order given to a class applies to every multi-byte quantity of its layout: fields, length prefixes, array counts and data-size words, look-ahead values, and the '
     'contents of arrays, tuples, unions, conditionals and text, for all six byte-order options. A nested record keeps the byte order of its own class, and an instance re-targeted to '
     'another byte order packs and unpacks in that order while the original instance and the class are unchanged.',
     ['inputs', 'programs', 'configurations'], 'all hint kinds and nestings x six byte orders x instance-level byte order changes',
     'Byte order is tested on single int8/uint16 fields; no test has a byte order together with a prefix, tuple, union, array or text field.',
     [CORE, 'structured/base_types.py', S + 'structs.py', S + 'arrays.py', S + 'strings.py', S + 'tuples.py', S + 'unions.py', S + 'conditional.py', S + 'api.py'],
     [('each codec re-creates itself and its parts for a byte order', S + '*.py:with_byte_order'), ('instance override', CORE + ':Structured.with_byte_order')],
     (), ['pack', 'create_unpack', 'Structured.with_byte_order', 'cls.byte_order'])

prop('C07', 'Truncated input is always refused',
     'If the input ends before the record it should contain is complete - cut at any byte, in a buffer or in a stream - every unpack method raises an exception rather than '
     'returning an object with missing, shortened or invented data. The only exception is a trailing read-to-end field, which by definition accepts fewer bytes.',
     ['inputs', 'programs', 'fault_sequences'], 'all class definitions x packed records x every cut point x all unpack methods',
     'Only three truncation examples (unterminated strings) are tested; for length-prefixed data slicing silently yields short results, which no example exercises.',
     [S + 'strings.py', S + 'arrays.py', S + 'structs.py', S + 'api.py', CORE],
     [('struct refuses short buffers', S + 'structs.py'), ('terminator search failure', S + 'strings.py:TerminatedCharSerializer'),
      ('strict pairing of attributes and values', CORE + ':zips(strict=True)')], (), ['create_unpack*', 'unpack*'])

prop('C08', 'Array length and data-size headers are exact and enforced',
     'A fixed-length array packs and unpacks exactly its number of items with no stored count, and refuses to pack a list of any other length with ValueError; a counted array stores the number of items '
     'in its header, and an array declared with a data-size word stores the exact byte length of its items. On unpack exactly the counted items are read, and any '
     'data-size word that differs from the bytes actually used is refused with ValueError; counts or sizes that do not fit the header are refused, never wrapped. A tuple value of another length than its hint is refused as well. This holds for every item type, including basic ones.',
     ['inputs', 'programs'], 'all header forms x item kinds x list lengths (including 0 and header limits) x stored size values',
     'Tests cover three list lengths with one item type and one wrong size word; boundary counts, empty arrays, other item kinds and nested arrays are not covered.',
     [H + 'arrays.py', S + 'arrays.py'],
     [('header selection', H + 'arrays.py:array.__class_getitem__'), ('size check', S + 'arrays.py:ArraySerializer._check_data_size')], (), ['pack*', 'unpack*'])

prop('C09', 'Variable-length strings are framed exactly at every length',
     'Length-prefixed, terminated, .NET-style, fixed-width and read-to-end byte strings and their text variants carry exactly the bytes of the value for every length the framing can express, including '
     'zero and the values around each internal boundary, wherever they sit in a buffer or stream. A terminated string is written with exactly one terminator (none is added to a value that already ends with it) and '
     'read up to the first one; a value too long for its prefix is refused rather than cut; text uses exactly the encoding named in its hint.',
     ['inputs'], 'all string framings x all lengths 0..bound around 127/128, 255/256, 32767/32768, 65535/65536 x byte content x buffer/stream position',
     'Tests use one or two short strings per framing; nothing is near a length boundary except one .NET overflow, and no string ever spans the internal read chunk.',
     [S + 'strings.py', H + 'strings.py', S + 'structs.py'],
     [('prefix encoding and decoding', S + 'strings.py:NETCharSerializer, DynamicCharSerializer'), ('chunked terminator search', S + 'strings.py:TerminatedCharSerializer.unpack_read')],
     (), ['pack*', 'unpack*'])

prop('C10', 'Unions use exactly the type their decider selects',
     'A union field is packed and unpacked with exactly the type the decision map gives for the decider\'s result, or the default type if the result is not in the map; with no default such a result raises ValueError. '
     'A look-back decider sees the object with all earlier fields; a look-ahead value of any size is only peeked at and the data is then decoded from where it began. '
     'This holds wherever the union appears, in arrays, tuples, conditionals, nested and self-containing records included.',
     ['inputs', 'programs', 'histories'], 'all decision maps over a tag alphabet x placement of the union x tags x values x methods',
     'Three single-level unions with one value per branch are tested; unions inside containers, variable-size look-ahead values and mixed recursion are not.',
     [S + 'unions.py', S + 'api.py', S + 'arrays.py'],
     [('branch selection', S + 'unions.py:AUnion.get_serializer'), ('rewind after look-ahead', S + 'unions.py:LookaheadDecider')],
     [('object being processed', 'what the decider is shown; must be the enclosing object', S + 'unions.py:AUnion._partial_object')], ['pack*', 'unpack*', 'decider argument'])

prop('C11', 'Conditional fields are present exactly when their condition holds',
     'A conditional field of any type, padding included, is packed and unpacked as if unconditional when its condition is truthy for the object; otherwise it contributes no bytes, consumes no input and on unpacking takes its default. '
     'While unpacking, the condition (or a union decider) sees exactly the values already decoded from this record and none of the later fields of a new object. Conditions of different fields and objects do not affect one another.',
     ['inputs', 'programs'], 'all placements of conditions over field kinds x all truth assignments x methods',
     'One class with two conditional scalar fields is tested; conditions on arrays, tuples, unions, nested records, padding, or returning truthy non-bools never are.',
     [S + 'conditional.py', H + 'condition.py', S + 'api.py', CORE],
     [('choice of real or skipping codec', S + 'conditional.py:ConditionalSerializer.prepack'), ('partial object', CORE + ':_Proxy')], (), ['pack*', 'unpack*', 'condition argument'])

prop('C12', 'Subclassing keeps field order and applies overrides',
     'For every chain of subclasses, the serialized fields are those of the bases in base order followed by newly declared ones in declaration order; redeclaring a field changes its type in place, and redeclaring it as None (or another '
     'non-serializable type) removes it from the layout, the constructor, comparison and printing. Base classes are never affected by defining a subclass; a byte-order change without an explicit override, or inheriting from two record classes, is refused.',
     ['programs', 'histories'], 'all subclass chains up to a depth over {add, retype, remove, re-add, pad, nothing} x byte-order/mode choices',
     'Single-step examples of adding, retyping and removing are tested, never combined over several levels nor with complex types or padding.',
     [CORE, 'structured/type_checking.py'], [('recomputation from the merged hints', CORE + ':Structured.__init_subclass__'), ('unique names for padding', CORE + ':MetaDict')],
     (), ['cls.attrs', 'cls.serializer', '__init__', 'pack', 'unpack'])

prop('C13', 'Specialised generic classes equal their hand-written form',
     'A generic class specialised with concrete types - by subclassing, through partially specialised intermediates in any order, or by being used as a field type of another class (generic or not) - serializes exactly like the '
     'same class written out with the concrete types, including its byte order and any fields a subclass redeclares. Different specialisations of one class never influence each other, and the generic class itself is unchanged.',
     ['programs'], 'all generic templates x type arguments x specialisation routes',
     'Tests specialise a handful of templates and mostly check attribute names; values, byte orders, repeated or permuted type variables and several specialisations side by side are not covered.',
     [CORE, 'structured/utils.py', S + 'structured.py', H + 'arrays.py', H + 'strings.py', H + 'tuples.py', 'structured/type_checking.py'],
     [('substitution of type variables', CORE + ':_get_specialization_hints, structured/utils.py:StructuredAlias.resolve'), ('automatic subclassing and its cache', S + 'structured.py:StructuredSerializer._transform')],
     [('_specializations', 'cache of automatically created subclasses', S + 'structured.py')], ['cls.attrs', 'pack', 'unpack'])

prop('C14', 'Self-containing records work for every nesting shape',
     'A class that contains itself (directly under a condition or union, in arrays or in tuples) packs and unpacks every finite tree of instances to the documented layout and back, through every method and with the correct reported size. '
     'Each nested record is an instance of the class being unpacked, the subclass when a subclass is unpacked, whatever the fields are named.',
     ['inputs', 'programs'], 'all tree shapes up to a number of nodes x ways of self-containment',
     'Two hand-built trees, no more than three levels deep and unpacked through class methods only, are tested; sharing of state between nesting levels shows only on specific shapes.',
     [S + 'self.py', S + 'structured.py', S + 'arrays.py', S + 'api.py', S + 'unions.py', CORE],
     [('late binding of the class', S + 'self.py:SelfSerializer'), ('state written only at the end of an operation', S + 'api.py')],
     [('codec state shared by all nesting levels', 'must survive the nested operation', S + 'arrays.py:ArraySerializer._partial_object')], API)

prop('C15', 'Operations do not influence one another',
     'The outcome of any pack or unpack depends only on its class, its input and the instance, not on which other operations (on the same or other classes, instances, specialisations or byte orders, successful or failed part-way) came before it, nor on '
     'which other classes were defined earlier or in what order. Failed operations leave every class, every codec and every other instance fully usable.',
     ['histories', 'fault_sequences'], 'all operation sequences up to a depth over a pool of classes sharing field types, including failing operations',
     'Each test defines fresh classes and performs a fixed short sequence; field codecs and hint caches are shared process-wide, and no test checks an operation after a failed one.',
     [S + '*.py'.replace('*', 'api'), S + 'strings.py', S + 'arrays.py', S + 'unions.py', S + 'structured.py', H + 'arrays.py', H + 'strings.py', S + 'structs.py'],
     [('codec instances cached per hint and shared', H + 'strings.py:_create, ' + H + 'arrays.py'), ('format size cache', S + 'structs.py:compute_num_values')],
     [('mutable state of shared codecs', 'must be re-established by each operation', S + '*.py')], API)

prop('C16', 'A read-to-end field must be last',
     'A class definition is refused with TypeError if and only if some field that can read to the end of the input - directly, as text, or inside a tuple, a conditional, any branch or the default of a union, or a nested record - is followed by another serialized field; '
     'an array of such items is refused too. This is enforced for fields added in subclasses and for tuple members as well, and every accepted class still works.',
     ['programs'], 'all placements of read-to-end types (nesting depth <= 3) among other fields, including via subclassing',
     'Tests use a dummy final serializer in single positions for a few containers; the decision is made by code that must consider every container and position.',
     [S + 'api.py', S + 'strings.py', S + 'tuples.py', S + 'conditional.py', S + 'unions.py', S + 'structured.py', H + 'arrays.py'],
     [('finality query on each codec', S + '*.py:get_final'), ('refusal when chaining', S + 'api.py:Serializer.__add__, CompoundSerializer._add_impl')], (), ['class definition'])

prop('C17', 'Class definition: detection, constructor, equality, printing',
     'Exactly the annotated attributes with serializable hints are serialized, in declaration order; class variables, plain-typed attributes, variadic tuples, methods and all padding (any number of fields named `_`) are not attributes, yet padding counts in the layout. '
     'The generated constructor takes exactly those attributes positionally or by keyword, assigns each unchanged and then calls the post-init hook once; init=False suppresses it. '
     'Two instances are equal iff they have the same class and all serialized attributes are equal; the printed form lists every serialized attribute and its value in order.',
     ['programs', 'inputs'], 'all sequences of attribute declarations from serializable, non-serializable and padding kinds x constructor call forms x pairs of instances',
     'A few classes and call forms are tested; detection depends on declaration order, on nesting of annotations and on name collisions.',
     [CORE, 'structured/type_checking.py', 'structured/base_types.py', H + 'basic_types.py', H + 'tuples.py'],
     [('hint filtering', CORE + ':filter_typehints, structured/type_checking.py:_annotated.transform'), ('constructor generation', CORE + ':gen_init')], (), ['cls.attrs', '__init__', '__eq__', '__str__', '__post_init__'])

prop('C18', 'Custom-type conversions hit the right value exactly once',
     'A field declared through a custom-type adapter is packed as its basic type and unpacked by calling the type (or its factory) exactly once per value with exactly the decoded basic value. Neighbouring values are never converted, and the result lands in that field or item - '
     'whichever fields it is adjacent to, whether in arrays, tuples, unions or conditionals, with any byte order and any unpack method.',
     ['inputs', 'programs'], 'all interleavings of custom-type and basic fields up to a length x containers x byte orders x methods',
     'Tests have at most two adjacent custom fields and one array; conversions are matched to values by position in a merged format, so errors depend on the exact field sequence.',
     [S + 'structs.py', H + 'serialize_as.py', S + 'arrays.py', S + 'tuples.py'],
     [('list of conversions parallel to the merged format', S + 'structs.py:StructActionSerializer')], [('actions', 'conversion per value', S + 'structs.py')], ['unpack*', 'calls to the factory'])

prop('C19', 'Combining serializers is concatenation',
     'For serializers used directly: joining with + (or sum) in any grouping accepts and produces the values of the parts in order and the bytes of the parts in order (basic formats merging into one struct format), the null serializer being neutral; repeating a basic serializer n times handles n values; '
     'and re-targeting the byte order distributes over joining. Joining basic serializers of different byte orders is refused, operands are never modified, and all pack/unpack methods of the result accept the documented arguments and agree.',
     ['programs', 'inputs'], 'all expressions up to a size over +, *, byte-order change and a serializer alphabet',
     'A handful of pairs are tested, mostly for the result type or format string; merging rules depend on the pair at the seam and on grouping.',
     [S + 'api.py', S + 'structs.py'], [('format folding', S + 'structs.py:fold_overlaps'), ('compound flattening', S + 'api.py:CompoundSerializer._add_impl')], (), ['Serializer.__add__', '__mul__', 'with_byte_order', 'num_values', 'pack*', 'unpack*'])

prop('C20', 'Record streams and buffers can be written and read back to back',
     'Any sequence of records of any classes written one after another to a stream (or into one buffer at the running offset given by the reported sizes) can be read back one after another to the same records, starting at any position and interleaved in any order with seeks and with reading other records. '
     'Each read starts where the previous one ended, and reading or failing to read one record never disturbs the data or the other records.',
     ['histories', 'inputs'], 'all sequences of records up to a length x start positions x interleavings of read, re-read and write',
     'No test writes or reads more than one record per stream.',
     [CORE, S + 'api.py', S + 'strings.py', S + 'unions.py', S + 'arrays.py'], [('stream positioning', S + 'strings.py, ' + S + 'unions.py')], (), ['pack_write', 'create_unpack_read', 'pack_into', 'create_unpack_from', 'stream.tell()'])

prop('C21', 'Short reads never yield a wrong object',
     'When a stream returns fewer bytes than requested from some reads (as raw, unbuffered streams may) or raises an error from some read, each unpack-from-stream either produces exactly the right object, leaving the stream right after the record, or raises. '
     'It never returns an object with other contents and never loops forever, and a following read of the same data from a well-behaved stream succeeds.',
     ['fault_sequences', 'inputs'], 'all placements of up to k short or failing reads (each possible short length) during the unpacking of each record',
     'All tests use io.BytesIO, which never returns short.',
     [S + 'strings.py', S + 'structs.py', S + 'unions.py', S + 'arrays.py'], [('reads of exact size checked by struct', S + 'structs.py:StructSerializer.unpack_read'), ('chunked reading', S + 'strings.py:TerminatedCharSerializer.unpack_read')], (), ['create_unpack_read', 'unpack_read'])

prop('C22', 'User callbacks may use the library re-entrantly',
     'A condition, union decider, custom-type factory or text encoder/decoder may itself pack or unpack other records - including records of classes that share field types with the one being processed - without changing the result, the reported size or the '
     'stream position of the outer operation. An exception raised by a callback propagates to the caller and leaves all classes usable.',
     ['histories', 'programs'], 'all combinations of callback kind x inner operation x outer record x method, and exceptions at each callback invocation',
     'No test has a callback that uses the library or raises.',
     [S + 'strings.py', S + 'unions.py', S + 'conditional.py', S + 'structs.py', S + 'api.py'], [('state re-read after the callback', S + 'strings.py:UnicodeSerializer, ' + S + 'unions.py')],
     [('size of shared codecs', 'overwritten by the inner operation', S + 'strings.py')], API)

prop('C23', 'Fixed-layout classes are safe to use from several threads',
     'Classes whose layout is fixed (basic fields, fixed-width strings and text, fixed arrays of basic items, custom types over basic types) can be packed and unpacked by several threads at once, on any instances, and classes can be defined concurrently from the same hints: '
     'under every interleaving each operation gives the result it gives alone.',
     ['schedules'], 'all interleavings (preemption-bounded) of two threads performing pack/unpack/class-definition operations',
     'No test uses threads.',
     [CORE, S + 'structs.py', S + 'arrays.py', S + 'strings.py', H + 'strings.py', H + 'arrays.py', S + 'structured.py'], [('stateless fixed-format codecs', S + 'structs.py'), ('hint caches', H + 'strings.py, ' + H + 'arrays.py')],
     [('process-wide caches', 'hint caches, format size cache, specialisation cache, pad name counter', S + 'structs.py, ' + CORE)], API)

prop('C24', 'User-written serializers work wherever a hint is allowed',
     'A serializer class a user writes against the documented Serializer API and attaches to a hint with Annotated is packed and unpacked exactly as it says, with the right size and stream position, in every place a hint is allowed: fields, array items, tuple members, conditions, union members and look-ahead values, nested, generic and inherited fields, with every method and byte order. '
     'The library uses it only as documented: prepack or preunpack (with the record as packed, or as decoded so far) before each operation and the serializer they return instead; num_values values; any iterable result, however lazily produced, and the size only once it is exhausted; with_byte_order without changing the original; and + to join neighbours.',
     ['programs', 'inputs'], 'all compositions up to a depth over a family of serializers, one per freedom of the API, x byte orders x methods; all sequences of up to three such fields',
     'No test defines a Serializer. Which freedoms work depends on the container around it and on the serializer used before it.',
     [S + 'api.py', S + 'unions.py', S + 'arrays.py', S + 'tuples.py', S + 'conditional.py', CORE, 'structured/type_checking.py'],
     [('preparing parts before use', S + 'api.py:_SpecializedCompoundSerializer'), ('finding the serializer of a hint', 'structured/type_checking.py:_annotated.transform')],
     [('size', 'read from a part after it has finished', S + 'api.py, ' + S + 'unions.py')], API)

prop('C25', 'Invalid declarations are refused, valid ones are not',
     'Declaring a field with an argument its hint does not document - a count or header that is no non-negative integer or unsigned sized type, a terminator that is not one byte, a data-size or item type that is not serializable, a hint that must be indexed, an encoding that is no codec, an adapter over something other than one basic value, '
     'a decider on a non-union or with a result, default or look-ahead type that is not one serializable value, a condition over something unserialized or with the wrong number of defaults - raises TypeError or ValueError when the class is defined, specialised or the hint written, directly, postponed or through a type variable. Every documented declaration is accepted and works. '
     'Neither verdict depends on what was declared, or refused, before.',
     ['programs', 'histories'], 'all arguments of a pool in every slot of every hint, in every form of declaration; all pairs of declarations of a kind and long histories of all, from a fresh state',
     'Tests refuse a handful of arguments, each in whatever state the earlier tests left; hints are cached process-wide.',
     [H + 'arrays.py', H + 'strings.py', H + 'basic_types.py', H + 'condition.py', H + 'serialize_as.py', S + 'unions.py', S + 'structs.py', 'structured/base_types.py'],
     [('argument checks', H + 'arrays.py, ' + H + 'strings.py, ' + S + 'unions.py'), ('unindexed hints', 'structured/base_types.py:requires_indexing')],
     [('hint caches', 'keyed by the arguments', H + 'arrays.py, ' + H + 'strings.py')], ['class definitions', 'hint subscripts'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
