"""Writes properties.jsonl (kept as code so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in (state or [])],
                          'observe_at': observe or [], 'hook_needed': None}})

ST = 'capnpy/struct_.py'; LI = 'capnpy/list.py'; CS = 'capnpy/compiler/structor.py'; CF = 'capnpy/compiler/field.py'
CST = 'capnpy/compiler/struct_.py'; BPY = 'capnpy/segment/builder.py'; BPX = 'capnpy/segment/builder.pyx'
SB = 'capnpy/segment/base.pyx'; SBP = 'capnpy/segment/base.py'; CP = 'capnpy/segment/_copy_pointer.py'; CL = 'capnpy/segment/_copy_list.py'
MSG = 'capnpy/message.py'; SEG = 'capnpy/segment/segment.py'; EO = 'capnpy/segment/endof.py'

p('C01', 'Values given to a constructor are the values read back',
  "For every schema made of supported types and every assignment of in-range values, the object returned by the constructor shows through its attributes exactly the values that were passed, and so does the object obtained by serializing it with dumps/dump and loading it back. Fields which are not passed show their schema default (None for pointers). This holds for schemas compiled in py mode and in pyx mode, on the compiled and on the pure Python runtime.",
  ['inputs', 'programs', 'configurations'],
  'all schemas over the supported field types (scalars with and without defaults, Text as bytes/unicode, Data, structs, lists and nested lists, enums, groups, nullable groups, unions, also nested) x all values x {positional, keyword, group constructor} x {py, pyx} x {compiled, pure}',
  'The tests build a few dozen fixed structs with a few values each; field offsets, default masks, nesting of groups/unions and list shapes are sampled at single points.',
  [CS, CF, 'capnpy/compiler/fieldtree.py', BPX, BPY, CL, ST, LI],
  [('generated constructor writes each field at its schema offset, XOR-ing defaults', CS), ('generated properties read the same offsets', CF), ('segment builder', BPX)])
p('C02', 'Messages written conform to the Cap\'n Proto encoding',
  "Every message capnpy writes is a well-formed single-segment Cap'n Proto stream message: an independent Cap'n Proto implementation reading it with the same schema gets the same values, all pointers stay inside the segment, no two objects overlap, padding and unused bytes are zero, and Text is NUL-terminated. All modes and runtimes write the same bytes for the same values.",
  ['inputs', 'programs', 'configurations'],
  'all supported schemas and values; every backend; compared with the capnp tool and with a strict schema-driven reader',
  'Tests compare a handful of hand-written byte strings; nothing checks arbitrary messages against another implementation or the backends against each other.',
  [CS, BPX, BPY, CP, CL, MSG, SB],
  [('SegmentBuilder allocation and pointer writing', BPX), ('message header', MSG), ('dump_message fast path', SB)])
p('C03', 'Any valid encoding of a message reads as the same values',
  "Whatever legal way another encoder lays out a message (object order, gaps, several segments, single and double far pointers, landing pads anywhere, shorter or longer struct sections), capnpy reads the field values the message encodes. The layout never shows through the public read API.",
  ['inputs', 'programs', 'configurations'],
  'all schemas x values x layouts (order, gaps, segment assignment, far pointer kinds) x backends',
  'Tests contain a few hand-made multi-segment buffers; most far pointer positions (list items, text, nested lists, group members, hash paths) are never combined.',
  [SEG, ST, LI, CF, 'capnpy/ptr.py', 'capnpy/ptr.pyx', 'capnpy/anypointer.py'],
  [('far pointer resolution', SEG), ('pointer arithmetic', 'capnpy/ptr.py'), ('per-field FAR handling in generated code', CF)])
p('C04', 'Re-serializing an object loses nothing, and compact() compacts',
  "dumps/dump (with and without the fast path) and compact() on any object - the root, a field, a list item, loaded from any layout or built by a constructor - yield a message which reads as the same value, including data unknown to the schema. The result is a single compact segment holding only the object, and messages created by constructors are always compact.",
  ['inputs', 'programs', 'configurations'],
  'all objects reachable in messages of any legal layout, all schemas, fastpath on/off, all backends',
  'Whether the fast path (memcpy of a compact object) may be taken depends on the exact layout; the tests hit a few layouts only.',
  [MSG, EO, CP, ST, SB, SBP],
  [('compactness test', EO), ('deep copy', CP), ('memcpy fast path', SB)])
p('C05', 'Stream framing consumes exactly one message per load',
  "load() consumes exactly the bytes of one message, so that a concatenation of messages is read back in order by repeated load() or by load_all(), whatever the number of segments of each. loads() accepts exactly one message and raises ValueError for extra or missing bytes; a stream that ends inside a message raises ValueError, and EOFError is raised only when no byte of a message could be read.",
  ['inputs', 'histories', 'fault_sequences'],
  'all sequences of messages (any segment counts and sizes), every truncation point, any trailing bytes, any conforming file-like object',
  'Tests truncate a couple of fixed messages at a couple of offsets.',
  [MSG, 'capnpy/filelike.py', 'capnpy/buffered.py'],
  [('header parsing, padding, size checks', MSG)])
p('C06', 'Buffered readers behave like reading the concatenated stream',
  "Any sequence of read(n), read(-1) and readline() on a BufferedStream, BufferedSocket or StringBuffer returns what the same calls return on an in-memory binary file holding the concatenation of the chunks, independently of how the transport splits the data into chunks. write()/flush() on a BufferedSocket deliver exactly the bytes written, once and in order.",
  ['inputs', 'histories', 'schedules'],
  'all byte streams, all chunkings, all call sequences',
  'Correctness depends on the interplay of chunk boundaries and call sequence; tests use a few fixed chunkings.',
  ['capnpy/buffered.py', 'capnpy/filelike.py'],
  [('refill logic', 'capnpy/buffered.py')],
  [('buf, i', 'data read from the transport but not yet returned, and the read position in it', 'capnpy/buffered.py')])
p('C07', 'Malformed messages never crash or read out of bounds',
  "Loading, reading, comparing, printing or re-serializing a message whose bytes are arbitrary or corrupted either returns a value or raises a Python exception. It never crashes the interpreter, reads or writes outside the buffers involved, or returns bytes which are not part of the message.",
  ['inputs', 'fault_sequences'],
  'all byte strings, in particular valid messages with corrupted pointers, sizes, counts, tags, segment tables and truncated bodies; all read operations; compiled and pure runtime',
  'Tests check a few out-of-bounds offsets; memory safety of the compiled code must hold for all inputs.',
  [SB, SEG, EO, CP, 'capnpy/segment/_copy_pointer.h', LI, ST, '%s' % MSG, 'capnpy/_hash.pyx'],
  [('bounds checks on every primitive read', SB), ('bounds checks in the deep copy', 'capnpy/segment/_copy_pointer.h')])
p('C08', 'The compiled and the pure Python primitives agree',
  "The compiled implementations of the pointer codec, the packing helpers, the segment reader, the segment builder, the compactness test and the hash helpers return the same results as the pure Python ones and as the Cap'n Proto encoding specification, for all arguments in their documented domain, and reject the same out-of-bounds offsets.",
  ['inputs', 'configurations', 'histories'],
  'all pointers (kind, signed offset, sizes, counts, segment ids), all primitive values and offsets, all sequences of builder operations, all byte slices and integers to hash',
  'Two implementations must agree everywhere; tests check single points of each.',
  ['capnpy/ptr.py', 'capnpy/ptr.pyx', 'capnpy/ptr.h', 'capnpy/packing.py', 'capnpy/packing.pyx', SB, SBP, BPX, BPY, 'capnpy/_hash.pyx', 'capnpy/_hash.py', 'capnpy/_hash_cpython.c', EO],
  [('twin modules', 'capnpy/ptr.pyx')])
p('C09', 'Schemas can evolve in both directions',
  "If a schema is a legal evolution of another one (fields, union members, groups, enumerants or list item fields added), data written with either reads correctly with the other: common fields keep their values, fields missing from the data show their defaults (None for pointers). Objects read with the older schema keep the unknown data when they are re-serialized or stored, alone or in a list, inside a new object.",
  ['inputs', 'programs', 'histories'],
  'all pairs (old, new) of schemas related by legal evolution steps, all values, written by constructors or by other encoders, re-serialized any number of times across versions',
  'test_evolution.py has a couple of fixed pairs; sections of other sizes than the static ones inside lists or constructors are not sampled.',
  [ST, LI, CL, CP, CF],
  [('reads beyond the section return zero', ST), ('copy of structs with their dynamic size', CP), ('copy of struct items into lists', CL)])
p('C10', '$Py.key structs hash and compare like the tuple of their keys',
  "For a struct annotated with $Py.key, equality between objects, equality with tuples and hash() are those of the tuple of the key fields' values, whatever the message the object comes from; != is the negation of == and ordering comparisons raise TypeError. Structs without the annotation raise TypeError when compared or hashed.",
  ['inputs', 'programs', 'configurations'],
  'all key field types (all integers widths and extreme values, text bytes/unicode, data, bool, enum, nullable and key-annotated groups, null pointers), all layouts, compiled and pure',
  'The compiled code re-implements the hash of tuple, int, bytes per field; tests sample a few values per type.',
  [CST, 'capnpy/_hash.pyx', 'capnpy/_hash_cpython.c', 'capnpy/blob.py', ST, SEG],
  [('generated _key/__hash__', CST), ('fast hashes', 'capnpy/_hash.pyx')])
p('C11', 'Exactly one union member is active and only it can be read',
  "For anonymous unions, named unions and unions inside groups, which(), __which__() and the is_*() methods agree with each other and with the tag stored in the message; reading an inactive member raises ValueError and reading the active one gives its value. Constructors and new_*() set exactly the requested member, the first one with zero/null value when none is given, and raise TypeError when several are given.",
  ['inputs', 'programs', 'configurations'],
  'all union shapes (anonymous, named, nested in groups, with void, pointer, group and defaulted members), every active member, every pair of conflicting members',
  'Offsets of the tag and of overlapping members depend on the whole struct layout; tests cover a few unions.',
  [CST, CF, CS, ST, 'capnpy/compiler/fieldtree.py'],
  [('generated tag checks', CF), ('generated which/is_*', CST), ('curtag check', CS)])
p('C12', 'Groups, nullable groups and virtual groups are views of their fields',
  "A group attribute shows exactly the fields stored in the enclosing struct, the group constructor called with keywords returns the tuple the struct constructor expects with defaults filled in, a nullable group reads as None exactly when it was built from None (or its null flag is set) and as its value otherwise, and a virtual group shows the values of the fields it names.",
  ['inputs', 'programs', 'configurations'],
  'all group shapes (nested, inside unions, with unions, with defaults, nullable with any value type and default), all subsets of group constructor arguments',
  'Tests cover fixed groups with few values.',
  [CF, CS, 'capnpy/compiler/fieldtree.py', 'capnpy/schema_extended.py', 'capnpy/annotate_extended.py', 'capnpy/compiler/module.py'],
  [('group unpacking in the constructor', CS), ('group properties and constructor', CF)])
p('C13', 'Null pointers, has_*/get_* and defaults follow the documented rules',
  "For every pointer field, x is None exactly when has_x() is false, which is exactly when the pointer is absent or null in the message; otherwise get_x() equals x. For a null field get_x() is the empty value of its type (b'', u'', an empty list, a struct showing all its defaults recursively), and non-pointer fields which are absent or zero show their schema default.",
  ['inputs', 'programs', 'configurations'],
  'all pointer types incl. inside groups and unions, null / empty / non-empty / missing section, near and far pointers, all default values of scalars',
  'Each of these distinctions is a different branch of generated code per type; the tests check one layout of each.',
  [CF, ST, SEG, LI],
  [('generated get_/has_ methods', CF)])
p('C14', 'shortrepr() is faithful capnp text',
  "shortrepr() of any object is valid Cap'n Proto text for its type: feeding it to `capnp encode` with the same schema yields a message with the same values, and repr() contains it. It never raises on a valid object.",
  ['inputs', 'programs', 'configurations'],
  'all schemas and values the text format can express: escapes, quotes, control and non-ASCII characters in Text, arbitrary bytes in Data, float extremes, enums, unions, groups, nested lists; all backends',
  'Escaping and float printing must be right for every string and number; tests sample a few.',
  [CST, LI, 'capnpy/util.py', 'capnpy/floatrepr/__init__.py', 'capnpy/enum.py'],
  [('generated shortrepr', CST), ('text/data/float repr helpers', 'capnpy/util.py')])
p('C15', 'Lists are immutable Python sequences of their items',
  "A capnpy list has the length, items (by positive and negative index and slice), iteration order and errors of the Python list of its items, for every element type and every legal encoding. Comparing it with a Python list equals comparing the lists of items, two lists with the same element type and equal items are equal wherever they are stored, and lists of structs raise TypeError when compared.",
  ['inputs', 'programs', 'configurations'],
  'all element types (incl. bool, void, enum, text, data, nested lists), all lengths, indices, slices, pairs of lists with equal or different items stored in compact and non-compact messages',
  'Tests use a few short lists; equality is decided on raw memory, which depends on the layout.',
  [LI, EO],
  [('item types', LI), ('raw memory comparison', LI)])
p('C16', 'Pickling and raw dumps restore an equivalent object',
  "Pickling an object (any protocol, any sub-object, single or multi segment) and unpickling it, or _raw_dumps()/_raw_loads(), gives an object of the same class which reads as the same value and serializes to the same bytes.",
  ['inputs', 'programs', 'configurations'],
  'all objects reachable in any legal message, all pickle protocols, copy/deepcopy, single and multi segment',
  'Tests pickle one or two objects.',
  [ST, SEG],
  [('__reduce__', ST), ('_raw_dumps', ST)])
p('C17', 'Python names and per-node options follow the documented rules',
  "Every struct, enum, enumerant, constant, annotation, group and field of a schema is reachable under the documented Python name: fields, groups and enumerants converted to underscores unless convert_case is off for that node (types, constants and annotations keep their names), every name suffixed with _ when it is a Python keyword, nested types and constants as attributes of their parent. Options given to load_schema or by $Py.options on a file, struct or field apply to all descendants unless overridden, also across imported schemas.",
  ['programs', 'configurations'],
  'all identifiers, all nestings, all combinations of file/struct/field options and defaults, import graphs, py and pyx mode',
  'Combinations of options on nested scopes are sampled by a handful of schemas.',
  ['capnpy/convert_case.py', 'capnpy/compiler/module.py', 'capnpy/compiler/node.py', 'capnpy/compiler/request.py', 'capnpy/annotate_extended.py', 'capnpy/compiler/compiler.py', 'capnpy/compiler/misc.py'],
  [('option propagation', 'capnpy/compiler/module.py'), ('name mangling', 'capnpy/compiler/module.py'), ('imports', 'capnpy/compiler/request.py')])
p('C18', 'Schema constants have the declared values',
  "Every constant declared in a schema, at file level or nested in a struct, of scalar, text, data, enum, struct or list type, is available in the compiled module with the declared value, with and without reflection data (constants of list type need the reflection data).",
  ['programs', 'configurations'],
  'all constant types and values, nested scopes, references to other constants, include_reflection_data on/off (lists need it on), large schemas compiled to several segments',
  'Tests declare a dozen constants.',
  ['capnpy/compiler/node.py', 'capnpy/compiler/module.py', 'capnpy/compiler/misc.py'],
  [('declare_const', 'capnpy/compiler/module.py')])
p('C19', 'Reflection data describes the schema',
  "For every module compiled with reflection data, get_node() of any generated entity returns the node with its id, kind, fields/enumerants in schema order and nesting; field_name() is the Python attribute name, has_annotation()/get_annotation() report exactly the annotations present with their values. Modules compiled without it raise ValueError.",
  ['programs', 'configurations'],
  'all schemas (small and large), all annotation targets and scalar/text annotation values, py and pyx mode',
  'Tests inspect a few entities of two schemas.',
  ['capnpy/reflection.py', 'capnpy/compiler/module.py', 'capnpy/schema_extended.py', 'capnpy/schema.py'],
  [('ModuleGenerator re-created from the embedded request', 'capnpy/reflection.py')])
p('C20', 'Objects never change, whatever is done with them',
  "No history of operations - reading, dumping, hashing, comparing, pickling, compacting, embedding objects into new ones, changing or deleting the inputs given to constructors, dropping references to parents - changes the value or the bytes of any existing object. Fields and list items cannot be assigned.",
  ['histories', 'inputs', 'configurations'],
  'all sequences of public operations over a pool of live objects that share buffers',
  'The objects are views over shared buffers handled in C; only histories mixing several objects can show aliasing or lifetime errors.',
  [ST, LI, BPX, MSG, SEG],
  [('objects own a reference to an immutable segment', ST)])
p('C21', 'Constructors reject what they cannot represent',
  "A constructor called with an integer out of the range of the field, a value of a wrong type, a struct or list item of a wrong class, an unknown keyword or more than one member of a union raises an exception. It never stores a truncated or different value, and a rejected call has no effect on its arguments.",
  ['inputs', 'programs', 'configurations'],
  'every field type, also inside groups, lists, nullable groups and unions, with values just inside and just outside of the range and of every wrong Python type; py and pyx mode, compiled and pure',
  'Range checks come from C conversions chosen per field; tests check very few.',
  [CS, BPX, BPY, CL, LI],
  [('typed write_* conversions', BPX), ('isinstance checks', LI)])
p('C22', 'Enum values are ints that survive unknown enumerants',
  "An enum attribute or list item is an int equal to the value in the message, with the name of its enumerant, str() and repr() as documented; class attributes and __members__ list the enumerants in order. A value outside of the known enumerants (from a newer schema) keeps its number when read, re-serialized and printed, and never shows the name of another enumerant.",
  ['inputs', 'programs', 'configurations'],
  'all enum sizes and all 16-bit values, with and without field defaults, in fields, lists, groups and union tags',
  'Tests read known enumerants and one unknown value.',
  ['capnpy/enum.py', CF, LI, 'capnpy/compiler/enum.py', 'capnpy/compiler/module.py'],
  [('BaseEnum', 'capnpy/enum.py')])
p('C23', 'All ways of compiling a schema give the same module',
  "A schema compiled dynamically (by module name, import name or file name), by the command line or by the setuptools integration gives modules with the same classes, reading and writing the same bytes; loading the same schema twice with one compiler gives the same module. A compiled file refuses to load under another capnpy version unless the check was disabled, and `capnpy decode` prints exactly one line per message of a stream of any length.",
  ['programs', 'configurations'],
  'all schemas incl. import graphs and search paths, all option combinations, stream lengths from zero, py and pyx mode',
  'Tests compile one trivial schema each way.',
  ['capnpy/compiler/compiler.py', 'capnpy/compiler/distutils.py', 'capnpy/__main__.py', 'capnpy/compiler/request.py', 'capnpy/util.py'],
  [('compilers', 'capnpy/compiler/compiler.py'), ('version check', 'capnpy/util.py')])
p('C24', 'AnyPointer fields classify and cast correctly',
  "An AnyPointer field reads as None exactly when null; otherwise is_struct/is_list/is_text/is_data tell the kind of the target and as_struct/as_list/as_text_*/as_data return the value it was encoded from, for near and far pointers, and dumps() of a struct target is a message with that value.",
  ['inputs', 'programs', 'configurations'],
  'all target types (struct, text, data, lists of every element type), all layouts, inside unions and groups, compiled and pure',
  'Tests use three single-segment buffers.',
  ['capnpy/anypointer.py', CF, ST],
  [('AnyPointer', 'capnpy/anypointer.py')])
p('C25', 'Attributes added with __extend__ belong to the generated class',
  "The attributes of a class body given to __extend__ of a generated class (methods, properties, static and class methods, plain values), before or after the class was used, once or several times, or by a file <schema>_extended.py, which runs in the namespace of the module of its schema (also when the schema is imported by another one), become attributes of the class itself: every object of that class, old or new, constructed, loaded, nested, list item, group or unpickled, has the last version of them, and its name, its other attributes and the data do not change. Special methods which a compiled class cannot be given are refused with TypeError.",
  ['histories', 'programs', 'configurations'],
  'all generated classes (structs, groups, virtual groups), all histories of lookups and extensions, py and pyx mode',
  'Two tests add a method to a class which was never used before.',
  ['capnpy/util.py', 'capnpy/_util.pyx', 'capnpy/blob.py', 'capnpy/compiler/request.py'],
  [('attributes set on static types', 'capnpy/_util.pyx'), ('extension files', 'capnpy/util.py')])
p('C26', 'capnpy decode and print_buffer show what is in the data',
  "`capnpy decode FILE SCHEMA CLASS` prints one line for each message of the stream, in their order: capnp text of the same values (the shortrepr() of the object), whatever the options (text type, case conversion, py or pyx mode, reflection data, version check), the layout of the messages and the place of the schema. It stops without error at the end of the stream, and with ValueError, after the lines of the complete messages, when the stream is cut inside of a message. print_buffer / BufferPrinter print one line for each word of the requested range, on the given stream only, with its offset, bytes, ASCII text, 64-bit integer and float, and the sizes, kind and target of a struct or list pointer.",
  ['inputs', 'configurations'],
  'all schemas, streams, cuts and options; all buffers and ranges',
  'There is one test of the argument parser, none of decode or of the printer.',
  ['capnpy/__main__.py', 'capnpy/printer.py'],
  [('decode', 'capnpy/__main__.py'), ('BufferPrinter', 'capnpy/printer.py')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
