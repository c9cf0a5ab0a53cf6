#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': [observe]}
    if state: a['state'] = [{'name': s, 'meaning': s, 'where': files[0]} for s in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

CREATE = ['python/pointless_create.c', 'src/pointless_create.c', 'src/pointless_create_cache.c', 'src/pointless_value.c']
READ = ['src/pointless_reader.c', 'include/pointless/pointless_reader_utils.h', 'python/pointless_instance_dispatch.c']

p('C01', 'Serialized values read back equal',
  'Every supported Python value that is serialized (to a file, a buffer or a bytearray) and opened again reads back as an equal value of the corresponding kind: integers, strings, booleans and None exactly, floats rounded once to single precision, lists and tuples element by element in order, dicts and sets with the same entries, bit vectors bit by bit, typed vectors with the same element type. Nothing is lost, added, reordered inside a sequence or turned into a neighbouring type.',
  ['inputs'], 'every finite acyclic value built from int (-2^31..2^32-1), float, bool, None, str without NUL (any Unicode plane), list, tuple, dict, set, frozenset, bit vectors and typed vectors, nested to any depth below the limit',
  'The tests serialize a few fixed or ASCII-only random values and compare some of them; widths, boundary integers, Unicode planes, hash-table sizes and their combinations are unbounded.',
  CREATE + READ + ['src/pointless_bitvector.c', 'src/pointless_unicode_utils.c'],
  [('value construction from Python objects', 'python/pointless_create.c:pointless_export_py_rec'), ('vector type inference and compression', 'src/pointless_create.c:pointless_create_vector_compression'), ('heap layout and offsets', 'src/pointless_create.c:pointless_create_output_and_end_'), ('value dispatch on reading', 'python/pointless_instance_dispatch.c:pypointless_value')],
  'the Python object obtained from GetRoot(), walked element by element, and the bytes of the image read by an independent decoder')
p('C02', 'Shared and cyclic structure survives',
  'A value in which the same list, dict or set occurs at several places, or inside itself, keeps exactly that structure: the opened value has a cycle or a shared container (same container id) wherever the original had one, walking it by any path gives what the original gives, and distinct mutable containers that are non-empty stay distinct. Printing and reading such values terminates.',
  ['inputs'], 'every finite object graph over lists, dicts (as values) and sets within the depth limit, with arbitrary back edges and sharing',
  'The tests have a handful of hand-made cycles; which graph shapes confuse cycle detection or identity tracking depends on the traversal order.',
  CREATE + ['src/pointless_cycle_marker.c', 'src/pointless_cycle_marker_wrappers.c', 'python/pointless_print.c'],
  [('object identity map', 'python/pointless_create.c'), ('cycle marker', 'src/pointless_cycle_marker.c'), ('container ids', 'include/pointless/pointless_reader_utils.h')],
  'container_id and element walks of the opened value, compared with a bisimulation against the original graph')
p('C03', 'Unsupported input is refused cleanly',
  'Serializing a value that cannot be represented (integers outside -2^31..2^32-1, strings with NUL, unsupported types, too deep nesting, unhashable or equal-after-rounding keys) raises a Python exception, leaves any existing destination file as it was with no temporary file behind, and does not affect later serializations. A value that can be represented is never refused.',
  ['inputs', 'histories'], 'every value with at least one unsupported part at any position inside an otherwise supported value, followed by further use',
  'Tests try a couple of bad values at top level; the position of the bad part decides which partially built state has to be torn down.',
  CREATE + ['python/pointless_prim_vector.c'],
  [('error handling while exporting', 'python/pointless_create.c:pointless_export_py_rec'), ('depth limit', 'src/pointless_create.c'), ('duplicate key detection', 'src/pointless_hash_table.c:pointless_hash_table_populate')],
  'exception raised or not, directory listing and destination bytes, later serializations in the same process')
p('C04', 'All writers agree and output is deterministic',
  'Serializing the same value to a file, to a buffer and to a bytearray gives byte-identical images, and doing it again gives the same bytes again. The string and bit-vector encoding options change the encoding only: the values read back are equal whatever their setting.',
  ['inputs', 'configurations'], 'every supported value, each of the three writers, both settings of unwiden_strings and normalize_bitvector, repeated in one process',
  'Tests use one writer and default options per value; uninitialised padding or option-dependent branches show only for some values.',
  CREATE, [('file and buffer writers', 'src/pointless_create.c:pointless_create_output_and_end_f/_b'), ('options', 'python/pointless_create.c')],
  'bytes produced by each writer, values read back')
p('C05', 'Copying from an opened image preserves the value',
  'Serializing a value obtained from an opened image (the root, any nested container, any vector slice, alone or inside new Python containers), or copying the whole image with the C copy function, gives an image that reads back equal to the source. Copying a copy changes nothing more.',
  ['inputs'], 'every opened image and every sub-value or slice of it, including typed vectors of all element types and shared or cyclic structure',
  'Tests copy one or two fixed images; each element type, compression and slice offset takes a path of its own.',
  CREATE + ['src/pointless_recreate.c'],
  [('re-export of opened containers', 'python/pointless_create.c'), ('recursive copy', 'src/pointless_recreate.c:pointless_recreate_value')],
  'the copy read back through Python and through an independent decoder')
p('C06', 'Writing a file is atomic',
  'Whenever writing an image to a file fails or the process dies at any point, the destination still holds its complete previous content (or, if the failure is after publication, the complete new content), never a partial file; data is flushed to disk before it is published. A reported failure leaves no temporary file behind, and a process that had the old file open keeps reading the old content unchanged.',
  ['crash_points', 'fault_sequences', 'histories'], 'every I/O step of a write failing or being the last one executed, write size limits at every byte region, and every interleaving of writers and open readers',
  'No test injects a failure; each step has its own cleanup code.',
  ['src/pointless_create.c', 'python/pointless_create.c', 'src/pointless_reader.c'],
  [('temporary file, sync and rename', 'src/pointless_create.c:pointless_create_output_and_end_f'), ('mapping of the opened file', 'src/pointless_reader.c')],
  'destination bytes and directory listing after each injected fault; values seen by readers opened earlier')
p('C07', 'Untrusted images are refused or safe to use',
  'For every byte string, opening it with validation either raises an error or gives a value on which every read operation (indexing, slicing, iteration, lookup, comparison, hashing, printing, path expressions, copying) stays inside the image, terminates, and reports no internal error. Opening itself never crashes or hangs and does not change the input.',
  ['inputs'], 'arbitrary bytes: random, truncated and extended images, images with any fields changed, and images built with hostile structure',
  'The space of files is unbounded and the tests open only files the library wrote.',
  ['src/pointless_validate.c', 'src/pointless_validate_heap.c', 'src/pointless_validate_heap_ref.c', 'src/pointless_validate_hash_table.c', 'src/pointless_cycle_marker.c', 'src/pointless_reader.c', 'src/pointless_walk.c'],
  [('header and offset checks', 'src/pointless_reader.c:pointless_init'), ('heap reference checks', 'src/pointless_validate_heap_ref.c'), ('per type heap checks', 'src/pointless_validate_heap.c'), ('hash table checks', 'src/pointless_validate_hash_table.c')],
  'exit status under AddressSanitizer, time, exceptions raised by read operations')
p('C08', 'Validation accepts exactly the well-formed images',
  'Opening with validation accepts every image that satisfies the documented format and refuses every image that breaks one of its rules (sizes and offsets within the file, correct types for every reference, terminated strings, minimal-size hash tables with correct hashes and probe positions, item counts, code points up to 0x10FFFF, hashable keys, no cycle through a hashable vector, depth limit). In particular in every accepted image each stored key is found by looking it up.',
  ['inputs'], 'every image derived from a well-formed one by changing, moving or truncating any of its parts, judged by an independent decoder of the format',
  'The tests open only files the library itself wrote, so no rejection rule is exercised at all.',
  ['src/pointless_validate.c', 'src/pointless_validate_heap.c', 'src/pointless_validate_heap_ref.c', 'src/pointless_validate_hash_table.c', 'src/pointless_reader.c', 'src/pointless_hash.c'],
  [('validation rules', 'src/pointless_validate*.c'), ('probe positions', 'src/pointless_hash_table.c')],
  'accept or refuse, against the verdict of an independent decoder')
p('C09', 'Views are position independent and outlive their source',
  'An image gives the same values wherever its bytes are: opened from a file, a bytearray or a byte vector, or from a copy of those. Containers, iterators and slices obtained from it stay valid and unchanged after the objects they came from are released, the input buffer is changed or the file is replaced or deleted; the base object reports how many are alive, and everything is released once the last one goes.',
  ['histories', 'inputs'], 'every order of creating, dropping and using base objects, views, slices, iterators and exported buffers',
  'Tests keep the base object alive; which object is released last is a matter of history.',
  ['python/pointless_object.c', 'python/pointless_vector.c', 'python/pointless_map.c', 'python/pointless_set.c', 'python/pointless_bitvector.c', 'src/pointless_reader.c'],
  [('reference from view to base', 'python/pointless_object.c'), ('instance counters', 'python/pointless_object.c:PyPointless_GetRefs')],
  'values read through the surviving views, GetRefs(), open descriptors, AddressSanitizer')
p('C10', 'Maps and sets answer like dict and set',
  'In an opened map or set, membership, item access, get with default, len and iteration give the same answers as the dict or set that was serialized, for every key present and for every absent key, whatever the key types, sizes, hash collisions and numeric kinds (an integer, a boolean and a float that are equal are the same key). A lookup of a supported key never raises anything except KeyError on item access.',
  ['inputs'], 'all dicts and sets over supported keys (numbers, strings, None, booleans, tuples, bit vectors), including adversarial equal hashes, queried with present, absent, equal-but-different-type and same-hash keys',
  'Tests look up the keys they stored; absent keys colliding with stored ones, and mixed types, need search.',
  ['src/pointless_hash_table.c', 'src/pointless_hash.c', 'src/pointless_cmp.c', 'python/pointless_map.c', 'python/pointless_set.c', 'python/pointless_pyobject_hash.c', 'python/pointless_pyobject_cmp.c'],
  [('probing', 'src/pointless_hash_table.c:pointless_hash_table_probe_priv'), ('population', 'src/pointless_hash_table.c:pointless_hash_table_populate'), ('key equality', 'python/pointless_pyobject_cmp.c:pypointless_cmp_eq')],
  'results of in, [], get, len, keys, values, items and iteration')
p('C11', 'The C lookup helpers agree with the map contents',
  'Each C helper that looks up a string, length-delimited string, wide string or integer key (with a value, number, container or typed-vector result) succeeds exactly when the map or set has such a key and the value has the requested kind, and then returns the stored value. The key-set comparison helpers answer whether both containers have the same keys, and iteration by hash visits every entry with that hash (possibly one more than once) and no other.',
  ['inputs'], 'all maps and sets over string, wide-string, integer and other keys, and all present and absent queries',
  'The C tests use one or two fixed maps.',
  ['src/pointless_reader_helpers.c', 'include/pointless/pointless_reader_utils.h', 'src/pointless_reader.c', 'src/pointless_hash.c', 'src/pointless_cmp.c'],
  [('string lookup', 'src/pointless_reader_helpers.c'), ('hash iteration', 'src/pointless_reader.c:pointless_reader_map_iter_hash')],
  'return values of the helpers, against the reference map')
p('C12', 'Path expressions resolve to the addressed element',
  'Evaluating a path expression made of integer and string subscripts, written out or passed as arguments, returns exactly the element reached by applying those subscripts one after another to the root, and fails if and only if a subscript does not exist, has the wrong kind or the expression is malformed. The typed variants succeed exactly if the result has the requested kind.',
  ['inputs'], 'all values, all paths into them (valid, dangling, wrong kind) and arbitrary malformed expression strings',
  'The C tests evaluate a few fixed expressions.',
  ['src/pointless_eval.c', 'src/pointless_reader_helpers.c'],
  [('expression parser', 'src/pointless_eval.c:pointless_eval_get_'), ('typed variants', 'src/pointless_eval.c')],
  'return value and element of the C function')
p('C13', 'Equal values hash equally everywhere',
  'Values that compare equal have the same hash, and the hash of a value is the same number whether computed from a Python object, from an opened image, or at creation (as stored in hash tables); it does not depend on the string width, vector compression or bit-vector encoding, and never changes. Unhashable values raise an error.',
  ['inputs'], 'all pairs of equal supported values in different representations (int, bool, float; narrow and wide strings; tuple, opened vector; every bit-vector encoding)',
  'Tests compare a few hashes; equal values in different representations are many.',
  ['src/pointless_hash.c', 'python/pointless_pyobject_hash.c', 'src/pointless_bitvector.c', 'python/pointless_bitvector.c'],
  [('hash of opened values', 'src/pointless_hash.c:pointless_hash_reader_32'), ('hash of values being created', 'src/pointless_hash.c:pointless_hash_create_32'), ('hash of Python objects', 'python/pointless_pyobject_hash.c')],
  'pyobject_hash_32, hash(), and the hash vectors stored in images')
p('C14', 'Comparison is a consistent total order',
  'Comparing values of one family (numbers and booleans; strings; sequences of comparable values; bit vectors) gives a total order: exactly one of less, equal, greater, antisymmetric, transitive, lexicographic on sequences, by code point on strings and by numeric value on numbers. The answer is the same for Python objects, opened values, and any mix of both, and equality agrees with it. Values of different families are either refused or, in C, ordered by their kinds, never equal, so that there all of them are in one order.',
  ['inputs'], 'all pairs and triples of values of a family, in every representation; numbers exactly representable in single precision where floats are involved',
  'Tests compare sampled pairs of small integers and strings; mixed-sign and mixed-width pairs, nesting and representations multiply.',
  ['src/pointless_cmp.c', 'python/pointless_pyobject_cmp.c', 'src/pointless_bitvector.c', 'python/pointless_vector.c'],
  [('comparison of opened values', 'src/pointless_cmp.c:pointless_cmp_reader'), ('comparison at creation', 'src/pointless_cmp.c:pointless_cmp_create'), ('comparison with Python objects', 'python/pointless_pyobject_cmp.c')],
  'pointless_cmp, pointless_is_eq, rich comparison, C comparison functions')
p('C15', 'Opened vectors behave like sequences',
  'An opened vector, and every slice of it, gives the same answers as the Python list it holds: len, positive and negative indexing with IndexError outside, slicing, iteration forwards and backwards, membership, comparison, minimum, maximum, range, bisection and its exported buffer. The reported element type is the narrowest one that holds the numbers, and hashability is reported correctly.',
  ['inputs', 'histories'], 'all vectors of every element type and length (also empty) and all chains of slices with every start and stop',
  'Tests cover fixed vectors; offsets of nested slices interact with every operation.',
  ['python/pointless_vector.c', 'include/pointless/pointless_reader_utils.h', 'src/pointless_create.c'],
  [('slices', 'python/pointless_vector.c'), ('item access', 'src/pointless_reader.c:pointless_reader_vector_value_case')],
  'results of each operation against a list model')
p('C16', 'Bit vectors follow the list-of-bits model under any history',
  'After any sequence of operations (construction from size or sequence, set, append, bulk append, extension, pop, copy, reads, failed operations) a bit vector answers every query (length, items, iteration, prefix and postfix counts, any-set test, comparison, text form) as a list of bits changed by the same operations does. An operation that fails leaves it unchanged, and bit vectors of an opened image refuse all changes.',
  ['histories'], 'all operation sequences over several bit vectors, including self-application and lengths around byte and word boundaries',
  'Tests run short fixed sequences; cached counts and spare tail bits go wrong only after particular sequences.',
  ['python/pointless_bitvector.c', 'src/pointless_bitvector.c', 'src/bitutils.c'],
  [('mutators', 'python/pointless_bitvector.c'), ('growth', 'python/pointless_bitvector.c'), ('bit scanning', 'include/pointless/bitutils.h')],
  'every query method after every step', ['bits, length and number of ones of the in-memory object'])
p('C17', 'Bit vector encodings are indistinguishable',
  'A bit vector serialized in any encoding (all zeros, all ones, packed, leading zeros or ones, plain) has the same length, bits, hash, order and counts as the in-memory bit vector it came from and as any other encoding of the same bits, also as a key. Its text form, comparison and lookups do not reveal the encoding or how it was built.',
  ['inputs', 'configurations'], 'all bit patterns, in particular runs around lengths 0, 27, 32 and 64, with and without normalization, and pairs of them',
  'Tests check a few lengths; the encodings switch at particular patterns.',
  ['src/pointless_bitvector.c', 'src/pointless_create.c', 'python/pointless_bitvector.c', 'src/pointless_hash.c', 'src/pointless_cmp.c'],
  [('encoding choice', 'src/pointless_bitvector.c'), ('hash over encodings', 'src/pointless_bitvector.c'), ('comparison over encodings', 'src/pointless_bitvector.c:pointless_bitvector_cmp_buffer_buffer')],
  'all read operations of opened and in-memory bit vectors, and lookups with them as keys')
p('C18', 'Typed vectors follow the list model under any history',
  'After any sequence of operations (append, bulk append from any source, item assignment, pop, bulk pop, remove, fast remove, clear, slice, remap, sort, reads and failed operations) a typed vector holds exactly what a Python list with the same operations and the type\'s value range would hold. Values outside the range are refused, and an operation that fails leaves the contents as they were.',
  ['histories'], 'all operation sequences over typed vectors of the nine element types, with boundary values, failing iterables and self-application',
  'Tests run fixed sequences; errors in the middle of bulk operations and reallocation boundaries need histories.',
  ['python/pointless_prim_vector.c', 'src/pointless_dynarray.c'],
  [('mutators', 'python/pointless_prim_vector.c'), ('growth', 'src/pointless_dynarray.c')],
  'every query method after every step', ['typed dynamic array'])
p('C19', 'Sorting is correct, also projected',
  'Sorting a typed vector gives the ascending permutation of its contents; sorting an index vector by one or more value vectors orders the indices by the tuples of values they select and keeps exactly the same indices, refusing indices outside a value vector. The generic C sort leaves a sorted permutation for every comparison function that is an order, and stops with an error when the comparison fails, never losing or inventing elements.',
  ['inputs'], 'all vectors (sizes from 0 to thousands, duplicates, presorted, organ-pipe and adversarial patterns), all element types, projections with several keys, failing comparisons',
  'Tests sort random data; partitioning errors show for particular patterns.',
  ['src/custom_sort.c', 'python/pointless_prim_vector.c'],
  [('three-way partition sort', 'src/custom_sort.c:bentley_sort_'), ('projection', 'python/pointless_prim_vector.c:PyPointlessPrimVector_sort_proj')],
  'contents after sorting, against a reference sort')
p('C20', 'Typed vectors survive their own serialization',
  'A typed vector written by its serialize method and loaded again from those bytes has the same type and contents, and loading any other byte string either raises an error or gives a vector whose contents are what the bytes say. Loading never reads outside the given buffer.',
  ['inputs'], 'all vectors of all types and arbitrary byte strings of any length as the input, through every kind of buffer object',
  'Tests round-trip a few vectors and never load damaged input.',
  ['python/pointless_prim_vector.c', 'src/pointless_dynarray.c', 'src/pointless_int_ops.c'],
  [('serialize and load', 'python/pointless_prim_vector.c')],
  'the loaded vector, exceptions, AddressSanitizer')
p('C21', 'Text output shows the value',
  'str and repr of an opened container, typed vector or bit vector give the documented text of exactly its contents: brackets and separators by kind, numbers in decimal, strings as Python shows them, nested containers in place, and a container inside itself as an ellipsis; the debugging printer of the C library shows sets and maps in the order of their keys. Output is refused, not truncated or wrong, when the object was created with printing disabled.',
  ['inputs'], 'all values, including empty, nested, shared and cyclic ones, slices, and long output; both settings of the printing option',
  'Tests print small fixed values; buffer growth and repeated containers are not reached.',
  ['python/pointless_print.c', 'python/pointless_prim_vector.c', 'python/pointless_bitvector.c', 'python/pointless_vector.c'],
  [('recursive printer', 'python/pointless_print.c')],
  'str() and repr() against a reference formatter')
p('C22', 'No operation leaks memory or references',
  'Any operation, successful or failing, that is repeated any number of times leaves the number of live library allocations, Python reference counts of the objects involved and open file descriptors where they were after the first time once its results are dropped.',
  ['histories', 'inputs'], 'every public operation on generated arguments, including ones that make it fail, repeated',
  'No test measures memory; error paths release state separately.',
  ['python/pointless_create.c', 'python/pointless_object.c', 'python/pointless_prim_vector.c', 'python/pointless_bitvector.c', 'python/pointless_vector.c', 'python/pointless_map.c', 'python/pointless_set.c', 'python/pointless_print.c', 'src/pointless_create.c', 'src/pointless_reader.c'],
  [('teardown of creation state', 'src/pointless_create.c:pointless_create_end'), ('object deallocation', 'python/*.c')],
  'live allocation count at the malloc boundary, sys.getrefcount of inputs, /proc/self/fd')
p('C23', 'Running out of memory is reported, not fatal',
  'If any allocation made by the library fails during any operation, the operation raises an exception (or completes correctly), does not crash, corrupt or leak, leaves in-memory containers with their contents from before, and the same operation succeeds afterwards with the right result when memory is available again. (Initialising a container again clears it first; bulk appends from iterators may keep the items delivered before the failure.)',
  ['fault_sequences'], 'every single allocation of every operation failing, one at a time and all from some point on',
  'No test makes an allocation fail; each allocation has its own error path.',
  ['src/pointless_create.c', 'src/pointless_create_cache.c', 'src/pointless_cycle_marker.c', 'src/pointless_reader.c', 'src/pointless_validate.c', 'python/pointless_create.c', 'python/pointless_prim_vector.c', 'python/pointless_bitvector.c', 'src/pointless_dynarray.c', 'src/pointless_recreate.c'],
  [('allocation wrappers', 'src/pointless_malloc.c'), ('growth', 'src/pointless_dynarray.c')],
  'exceptions, results of the retry, live allocation count, AddressSanitizer')
p('C24', 'Integer expressions evaluate as written',
  'Compiling and evaluating an integer expression of unsigned 64-bit numbers, + - * / and parentheses gives the mathematical value with the usual precedence and left-to-right association, whatever was evaluated with the same context before. Expressions with a variable are compiled, but reported as not supported when evaluated. Overflow, negative results, division by zero, too long or malformed expressions are reported as errors, and checked multiplication and addition report overflow exactly when the true result does not fit.',
  ['inputs', 'histories'], 'all expression strings up to the size limit, well-formed and malformed, all variable values, and repeated use of one context',
  'Tests have a few fixed expressions.',
  ['src/pointless_int_ops.c'],
  [('compiler', 'src/pointless_int_ops.c:intop_eval_compile'), ('evaluator', 'src/pointless_int_ops.c:intop_eval_eval'), ('checked arithmetic', 'src/pointless_int_ops.c')],
  'return value, result and error of the C functions')
p('C25', 'Any C creation history gives the image it describes',
  'Any sequence of calls of the C creation interface (values, strings of every width, bit vectors, appended, assigned, transferred and caller-owned vectors, sets, maps, cycles) that is then written out gives an image that validates and reads back as exactly the value those calls describe. Creating the same inline value or string several times makes no observable difference.',
  ['histories'], 'all sequences of creation calls on one context, in any order of building children and parents',
  'The C tests build fixed values.',
  ['src/pointless_create.c', 'src/pointless_create_cache.c', 'src/pointless_value.c', 'src/pointless_unicode_utils.c', 'src/pointless_cycle_marker_wrappers.c', 'src/pointless_dynarray.c'],
  [('creation context', 'src/pointless_create.c'), ('deduplication', 'src/pointless_create_cache.c'), ('vector compression', 'src/pointless_create.c')],
  'the image, decoded independently and opened')
p('C26', 'Callbacks and exported buffers cannot corrupt containers',
  'While a buffer of a typed vector is exported, every operation that would move or shrink its memory raises BufferError and the exported memory stays valid; once released, it works again. Iterables and number-like objects whose Python code changes or releases the very container or input being processed lead to a defined result or an exception, never to memory corruption.',
  ['histories', 'schedules'], 'all interleavings of export, release and mutation, and all operations taking an iterable, index or value whose methods re-enter the container',
  'Tests have no re-entrant callbacks and few exports.',
  ['python/pointless_prim_vector.c', 'python/pointless_vector.c', 'python/pointless_bitvector.c', 'python/pointless_create.c'],
  [('export count', 'python/pointless_prim_vector.c'), ('bulk append from iterators', 'python/pointless_prim_vector.c:PyPointlessPrimVector_append_bulk')],
  'exceptions, contents of container and exported buffer, AddressSanitizer')
p('C27', 'One opened image can be read by many threads',
  'Any number of threads that read the same opened image at the same time, through the C interface or from Python, and threads that open or create other images meanwhile, get exactly the answers a single thread gets. Reading never modifies the image.',
  ['schedules'], 'all interleavings of read operations by several threads on one image, with other images being created and opened',
  'Tests are single-threaded.',
  ['src/pointless_reader.c', 'src/pointless_reader_helpers.c', 'src/pointless_hash_table.c', 'src/pointless_cmp.c', 'src/pointless_hash.c', 'python/pointless_object.c', 'src/pointless_create.c'],
  [('stateless readers', 'src/pointless_reader.c'), ('release of the interpreter lock while opening', 'python/pointless_object.c')],
  'answers of each thread, ThreadSanitizer, a write-protected image')
p('C28', 'The bundled dictionaries answer like sorted dictionaries',
  'After any history of insertions and deletions, the bundled sets of integers and dictionaries of integers, strings and byte strings contain exactly the entries and values a sorted dictionary would: lookup, insertion, deletion, first, next, last, previous, the neighbouring absent integers, counts of ranges and the n-th entry all agree with it, and building from a sorted array gives the same. When memory runs out during an insertion or deletion of an integer or an insertion of a byte string, an error is returned and the entries are as before. Freeing one gives back every byte it reported to use.',
  ['histories', 'fault_sequences'], 'all histories over all sets of keys, and every allocation failing',
  'The tests use the dictionaries only as the library does, with few entries.',
  ['judy-1.0.5/src/JudyCommon/JudyIns.c', 'judy-1.0.5/src/JudyCommon/JudyDel.c', 'judy-1.0.5/src/JudyCommon/JudyGet.c', 'judy-1.0.5/src/JudyCommon/JudyPrevNext.c', 'judy-1.0.5/src/JudyCommon/JudyInsArray.c', 'judy-1.0.5/src/JudyCommon/JudyFreeArray.c', 'judy-1.0.5/src/JudySL/JudySL.c', 'judy-1.0.5/src/JudyHS/JudyHS.c'],
  [('insertion and deletion of integers', 'judy-1.0.5/src/JudyCommon'), ('strings', 'judy-1.0.5/src/JudySL/JudySL.c'), ('byte strings, by which strings are shared when an image is made', 'judy-1.0.5/src/JudyHS/JudyHS.c')],
  'return values, values found, memory in use')
p('C29', 'Images hold every part once, in its smallest form',
  'An image contains exactly the parts its value needs: each distinct string once, each distinct bit vector once unless it is stored inline (at most 27 bits, all bits equal, or one run of up to 65535 equal bits after another), each non-empty list, tuple, dict, set and typed vector object once, and the hash tables of dicts and sets with the smallest sufficient number of slots, which is the power of two not below one and a half times the entries. Lists and tuples of integers alone or floats alone are stored with the narrowest element type that holds them, and all parts are packed with at most three bytes of padding, so that the size of an image follows from its value. Copying an opened image, or parts of it, does not make it grow.',
  ['inputs', 'histories'], 'all values with shared and equal parts, all creation histories, and all copies of opened images',
  'Tests look at values, never at what they occupy; a part stored twice or wider than needed reads back the same.',
  ['src/pointless_create.c', 'python/pointless_create.c', 'src/pointless_recreate.c', 'src/pointless_create_cache.c', 'src/pointless_hash_table.c'],
  [('deduplication of strings and bit vectors', 'src/pointless_create.c:pointless_create_string_ascii'), ('vector compression', 'src/pointless_create.c:pointless_create_vector_compression'), ('objects seen', 'python/pointless_create.c:pointless_export_set_seen'), ('parts copied before', 'src/pointless_recreate.c')],
  'size of the image, counts in its header, sizes of its parts')
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
