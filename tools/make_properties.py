"""Writes properties.jsonl. The text of every property lives here."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at=(), state=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=list(observe_at), hook_needed=None))
    P.append(d)


R, W, T = 'segpy/reader.py', 'segpy/writer.py', 'segpy/toolkit.py'
D, H, PK = 'segpy/dataset.py', 'segpy/header.py', 'segpy/packer.py'

prop('C01', 'Writing a dataset and reading the file back gives the same dataset',
     'For every valid dataset, the file written by write_segy() and reopened with create_reader() with the same formats, '
     'byte order and encoding presents exactly the original content: the textual header, every binary and trace header field, '
     'the extended textual headers, the number, order and lengths of the traces, and every sample. '
     'Samples come back exactly for the integer formats, rounded to IEEE single precision for float32, and truncated to 24 '
     'hexadecimal-normalised mantissa bits for IBM floats. '
     'This holds for all five sample formats, both byte orders, both encodings, traces of varying and of zero length, and '
     'any type of sample sequence a dataset may return, however the arguments are passed (by keyword, or by position in the order of the signature).',
     ['inputs', 'configurations'],
     'every dataset (headers over their whole ranges, 0..n traces of 0..m samples of each format) x byte order x encoding x header formats x dimensionality x caching on/off',
     'The Hypothesis-based round-trip tests of datasets no longer run with the installed Hypothesis (they use a removed '
     'argument), and the remaining ones use a single small fixed file; no test covers both byte orders, all formats, '
     'varying trace lengths and full-range headers together.',
     [W, R, T, PK, H, D],
     [('write_segy streams headers, then each trace header and its samples', W),
      ('create_reader scans the file, recording the offset and length of every trace', R),
      ('pack_values/unpack_values and pack_ibm_floats/unpack_ibm_floats', T)],
     ['segpy.writer.write_segy', 'segpy.reader.create_reader', 'every public accessor of the readers'])

prop('C02', 'The bytes on disk are those laid down by the SEG-Y standard',
     'Files written by write_segy() are byte for byte those an independent encoder of the SEG-Y revision 1 standard '
     '(and revision 0 trace headers) produces from the same dataset, in either byte order, with unassigned header bytes written as zero. '
     'Files produced by such an encoder, including those with arbitrary bytes in the unassigned parts of the headers, '
     'are read by create_reader() as exactly the content which was encoded.',
     ['inputs', 'configurations'],
     'every dataset, and every conforming file, x byte order x encoding x sample format x revision of the trace header',
     'Round-trip tests pass when reader and writer are wrong in the same way (a shifted offset, a swapped pair of fields, '
     'a wrong byte order); only one real-world file pins a handful of fields.',
     ['segpy/trace_header.py', 'segpy/binary_reel_header.py', PK, T, W, R],
     [('field offsets, types and defaults of the header formats', 'segpy/trace_header.py, segpy/binary_reel_header.py'),
      ('compile_struct turns a header format into a struct format', PK),
      ('catalog_traces locates the traces', T)],
     ['bytes written to the file handle', 'public accessors of readers of independently encoded files'])

prop('C03', 'Header packers transfer each field by name at its declared offset',
     'For every header format, whether standard, subclassed, a sub-format or user-defined, in whatever order its fields are declared and with '
     'several fields allowed at one offset, packing writes each field\'s value at its own offset with its own type and byte order and zero '
     'elsewhere, and unpacking assigns to each field the value stored at its own offset. '
     'Unpacking the packed form restores every field; a header of another type, a buffer of the wrong length, a value outside '
     'the range of its field, and unequal values of coincident fields are refused with TypeError or ValueError rather than written or returned.',
     ['inputs', 'programs'],
     'every header format (set of fields with offsets, types, defaults, declaration order, sub-formats) x every header value x byte order x every buffer',
     'The tests compile a few small formats whose fields are declared in offset order; they never vary declaration order, '
     'sub-format order, gaps, or the full range of values of the standard formats.',
     [PK, H, 'segpy/field_types.py', 'segpy/trace_header.py', 'segpy/binary_reel_header.py'],
     [('compile_struct orders fields by offset and pads gaps', PK),
      ('BijectiveHeaderPacker and SurjectiveHeaderPacker', PK),
      ('SubFormatMeta copies field descriptors', H),
      ('IntFieldMeta and IntEnumFieldMeta enforce ranges', 'segpy/field_types.py')],
     ['make_header_packer(...).pack and .unpack'])

prop('C04', 'IBM floating-point conversion is exact, monotonic and range-checked',
     'Decoding any 4-byte IBM float gives exactly the number it denotes, as does decoding any buffer of them, whatever the number of items. '
     'Encoding any finite IEEE double whose magnitude is in the representable range gives the largest-magnitude canonical IBM float not exceeding it, '
     'so that representable values survive unchanged and order is preserved; NaN, infinities and values too large or too small are refused with the '
     'documented exceptions. Encoding a sequence gives the concatenation of the encodings of its items, for any kind of sequence.',
     ['inputs'],
     'all 2^32 IBM bit patterns; all IEEE doubles (every exponent, mantissa pattern and sign, boundaries of the range, subnormals); sequences of any length and type',
     'The tests sample a few dozen fixed values and Hypothesis floats compared to within a tolerance, which cannot tell '
     'truncation from rounding or a wrong result at an exponent boundary.',
     ['segpy/ibm_float.py', 'segpy/ibm_float_packer.py'],
     [('ieee2ibm and ibm2ieee', 'segpy/ibm_float.py'),
      ('pack_ibm_floats and unpack_ibm_floats, with their fast paths', 'segpy/ibm_float_packer.py')],
     ['ieee2ibm', 'ibm2ieee', 'pack_ibm_floats', 'unpack_ibm_floats', 'IBMFloat constructors'])

prop('C05', 'IBMFloat values behave as the real numbers they represent',
     'Conversions of an IBMFloat to float, int, bytes, bool and string, its comparisons with other numbers, its negation, absolute value, '
     'truncation, rounding and frexp/ldexp, and its zero, subnormal and sign predicates agree with exact arithmetic on the number its four bytes denote. '
     'Arithmetic between IBMFloats and numbers gives the result of the same operation on those numbers, to the precision of the '
     'returned type. Equality and ordering are consistent with one another for canonical and non-canonical representations alike.',
     ['inputs'],
     'every IBMFloat (all 2^32 bit patterns, including non-canonical and unnormalised) and pair of IBMFloats, floats and integers',
     'The tests check selected values and Hypothesis samples which are nearly always canonical and of middling '
     'magnitude; equality of non-canonical values was wrong until repaired.',
     ['segpy/ibm_float.py'],
     [('IBMFloat numeric protocol methods', 'segpy/ibm_float.py')],
     ['operators and methods of IBMFloat'])

prop('C06', 'A catalog is the mapping that was put into it, however it is represented',
     'For every series of (key, value) pairs with integer or integer-pair keys and integer values added to a CatalogBuilder, create() returns either None, exactly when '
     'some key was added twice, or a mapping with exactly those pairs. Lookup, membership, length, iteration, keys(), values(), items(), get() and equality of that mapping '
     'agree with a dictionary of the pairs for present and absent keys, absent ones raising KeyError. '
     'This is independent of the internal representation chosen, and also holds for every catalog class constructed directly; arguments which describe no consistent catalog are refused with ValueError or TypeError. '
     'Where the keys and values of an unambiguous mapping are regularly spaced (a full grid, in two dimensions), its catalog takes space which does not grow with their number.',
     ['inputs', 'histories'],
     'every history of add() calls with 1D and 2D integer keys: regular, strided, descending, irregular, constant, sparse, single and empty, negative and very large numbers',
     'All of the tests of the two-dimensional representations, and most property-based ones, do not run with the installed '
     'Hypothesis; the representation depends on global regularity, which small samples rarely exhibit.',
     ['segpy/catalog.py', 'segpy/util.py'],
     [('CatalogBuilder.create selects a representation', 'segpy/catalog.py'),
      ('ConstantCatalog, RegularConstantCatalog, RegularCatalog, LinearRegularCatalog, DictionaryCatalog and the 2D catalogs', 'segpy/catalog.py')],
     ['CatalogBuilder.add', 'CatalogBuilder.create', 'the Mapping interface of the result'])

prop('C07', 'Random access returns the requested data whatever was accessed before',
     'Each of trace_header(i), trace_samples(i), trace_samples(i, start, stop), num_trace_samples(i) and the header properties of a reader returns the same '
     'content in every order and combination of calls, whatever the position of the file handle, whichever other readers share it and whatever the caller did to earlier results; '
     'a sub-range of samples is exactly that slice of the whole trace. '
     'Indexes and ranges outside a trace are refused with ValueError and data missing from a truncated file is reported with EOFError, '
     'so no access ever returns data other than that requested.',
     ['histories', 'inputs', 'crash_points'],
     'every history of accessor calls and file-handle movements on every file, and every point at which the file may be truncated',
     'The tests access traces in order, once each, through one reader; they never interleave accesses, share a handle, or truncate '
     'a file at an arbitrary byte.',
     [R, T],
     [('trace_samples computes the position from the offset catalog and always seeks', R),
      ('read_binary_values and read_trace_header check for short reads', T)],
     ['accessors of SegYReader, SegYReader2D and SegYReader3D'])

prop('C08', 'CDP and inline/crossline indexes and dimensionality match the trace headers',
     'The dimensionality of a reader created without one is inferred from the trace headers: 3 when every trace has a distinct (inline, crossline) pair, 2 when only the CDP '
     'numbers are all distinct, otherwise that of an unindexed reader; a requested dimensionality is honoured. '
     'Then inline_numbers(), xline_numbers() and cdp_numbers() are exactly the sorted distinct numbers which occur and num_inlines(), num_xlines() and num_cdps() count them, '
     'and has_trace_index() and trace_index() locate exactly the trace whose header holds the given numbers, never another, '
     'with KeyError for those which do not occur. A reader constructed of its parts presents the same, and is refused with TypeError without one of its catalogs.',
     ['inputs'],
     'every survey geometry: complete grids with either index varying quickest, strides, gaps, descending order, irregular, negative, single lines, duplicates, no traces',
     'The index tests do not run with the installed Hypothesis; the fixed files have a regular geometry.',
     [R, T, 'segpy/catalog.py', 'segpy/util.py', 'segpy/sorted_frozen_set.py', 'segpy/reversed_sequence_view.py'],
     [('catalog_traces builds the CDP and line catalogs', T),
      ('_make_reader selects the reader class', R),
      ('make_sorted_distinct_sequence', 'segpy/util.py')],
     ['reader.dimensionality', 'SegYReader2D and SegYReader3D index methods'])

prop('C09', 'Caching never changes what a reader returns',
     'A reader created with caching, whether it was built by a scan or loaded from the cache, in this or another process, presents exactly what a reader of the same file '
     'created without caching presents. '
     'A cache entry is never used for different file content, or with a different encoding, byte order or header format, whatever was read before. '
     'Cache files appear only in the given cache directory (relative to the directory of the SEG-Y file, or absolute), none with cache_directory=None; '
     'with a writable directory the reader of a named file is saved there by its first creation and loaded, without a scan, by later ones with the same parameters.',
     ['histories', 'inputs', 'configurations'],
     'every history of creating readers, modifying, replacing and copying files, and every combination of parameters, cache location and process',
     'The tests cache one fixed file in one process with default parameters; they never modify it, vary the parameters, '
     'or compare cached with uncached readers.',
     [R, 'segpy/util.py'],
     [('hash_for_file keys the cache by content and parameters', 'segpy/util.py'),
      ('_locate_cache_file, _save_reader_to_cache, _load_reader_from_cache', R),
      ('SegYReader.__getstate__ and __setstate__', R)],
     ['create_reader', 'the files in the cache directory'],
     [('cache entry', 'pickled reader named after the hash', 'reader.py')])

prop('C10', 'Damaged, partial or unwritable caches never harm reading',
     'Whatever part of a cache entry was written before a crash, and whatever bytes it contains instead of a pickle, create_reader() still returns a correct reader and repairs or removes the entry. '
     'When the cache directory or entry cannot be created, written, read or removed, or the file system fills up, reading still succeeds with correct data and the SEG-Y file is untouched. '
     'The same holds when several processes create readers of one file at once.',
     ['crash_points', 'fault_sequences', 'schedules'],
     'every truncation point and corruption of a cache entry, every failing operation of saving and loading it, and concurrent readers with randomly delayed operations',
     'The tests damage a cache entry in one way; crash points, failing system calls and concurrent processes are never exercised.',
     [R],
     [('_save_reader_to_cache tolerates OSError and pickling failures', R),
      ('_load_reader_from_cache removes entries which cannot be unpickled', R)],
     ['create_reader with fault-injected cache operations', 'directory contents afterwards'])

prop('C11', 'Pickled readers, headers and packers are restored completely',
     'A reader, header or header packer which is pickled with any protocol and unpickled, in this or another process with another working directory, presents exactly the same content '
     'as the original, including header fields inherited from a base format. '
     'A pickled reader refers to the same file, in whichever binary mode it was open, and stays usable after the original has been closed; restoring it never creates, truncates or changes a file. '
     'Objects which cannot be restored faithfully (of a closed or unnamed file, of a handle which is not the file of its name such as a member of an archive, of a missing file, or of another version of segpy) are refused with TypeError.',
     ['inputs', 'histories', 'configurations'],
     'every reader type, header format and value x pickle protocol x process x working directory x history of accesses before pickling',
     'The tests pickle a few objects in one process; inherited fields were lost and relative paths broken until repaired, which '
     'no test noticed.',
     [R, H, PK],
     [('__getstate__ and __setstate__ of readers, headers and packers', 'segpy/reader.py, segpy/header.py, segpy/packer.py')],
     ['pickle.dumps and pickle.loads of public objects'])

prop('C12', 'Progress callbacks report monotonic progress that ends at one',
     'Whenever a progress callback is given to create_reader(), catalog_traces() or write_segy(), it is only passed numbers from zero to one, '
     'never decreasing, and at least once one, as the last call before a successful return. '
     'Giving a callback changes neither the reader nor the file produced; an exception raised by it reaches the caller unchanged and leaves no partial cache entry; '
     'something which is not callable is refused with TypeError before anything is written; and progress is made throughout: over thousands of traces no step between reports exceeds one half.',
     ['inputs', 'configurations'],
     'every file (no traces, truncated last trace, trailing bytes, any number and size of traces) x cached/uncached x reading/writing',
     'The tests pass a callback on one fixed file, and assert only that it was called with 1; a final trace which is declared longer '
     'than the file produced values above one until repaired.',
     [T, R, W],
     [('progress_callback calls', 'segpy/toolkit.py, segpy/reader.py, segpy/writer.py')],
     ['arguments of every callback invocation'])

prop('C13', 'Reading is lazy, reading is read-only, and writing streams one trace at a time',
     'create_reader() reads trace headers but not trace samples, apart from hashing the file once when caching; each later access reads only the requested header or samples, '
     'memory use does not grow with the number of samples accessed, and opening a file takes memory for its number of traces, not for their samples. '
     'write_segy() takes traces from the dataset in order, each header and its samples once, and writes each before requesting the next, without '
     'retaining earlier ones; it writes sequentially and never reads. '
     'Reading never writes to, closes or changes the given file, and writing never closes it or modifies the dataset.',
     ['inputs', 'histories'],
     'every file and dataset x every history of accesses',
     'The tests look at results only; nothing observes the reads, writes and seeks on the file handle, the requests on the dataset, or object lifetimes.',
     [R, W, T],
     [('SegYReader holds catalogs only and reads on demand', R),
      ('write_segy loop over trace indexes', W)],
     ['operations on a tracing file handle', 'calls on a tracing dataset', 'weak references to what the dataset returned'])

prop('C14', 'Textual headers survive writing and reading, padded or truncated to 40x80',
     'write_textual_reel_header() always writes exactly 3200 bytes in the given encoding, with short lines and missing lines padded with spaces, and long and excess ones truncated, '
     'and read_textual_reel_header() recovers exactly those forty lines of eighty characters; unencodable text and unsupported encodings are refused. '
     'format_standard_textual_header() gives forty lines of eighty characters in which every argument occupies exactly its own placeholder (truncated or padded with spaces) and everything else is the template, '
     'and parse_standard_textual_header() recovers every argument.',
     ['inputs'],
     'every list of lines of characters of both encodings, any count and length; every assignment of values to the placeholders and both revisions',
     'The tests use small fixed headers and compare a few fields.',
     [T, 'segpy/textual_reel_header.py', 'segpy/util.py'],
     [('write_textual_reel_header pads and truncates', T),
      ('format_standard_textual_header and parse_template', T),
      ('TEMPLATE and TEMPLATE_FIELD_NAMES', 'segpy/textual_reel_header.py')],
     ['bytes written, lines returned'])

prop('C15', 'Extended textual headers are paginated, written and located exactly',
     'format_extended_textual_header() turns any text into pages of forty lines of 78 characters plus CRLF which hold every line of the text in order, blank lines included, '
     'splitting only lines which are too long and padding only with spaces, followed by an end-text page when requested. '
     'Reading returns exactly the pages written, for a declared count as well as for a variable number ended by an ((SEG: EndText)) stanza, and the first trace is found right after them. '
     'Pages of any other shape are refused when writing, and an early end-text stanza or a missing page when reading, with ValueError and EOFError respectively.',
     ['inputs', 'configurations'],
     'every text, every number of pages including none, both encodings, counted and variable numbers of pages, every truncation',
     'The tests cover a few short texts and page counts; blank lines were dropped until repaired.',
     [T, W, R],
     [('format_extended_textual_header, write_extended_textual_headers', T),
      ('read_extended_headers_counted, read_extended_headers_until_end', T)],
     ['pages returned, bytes written, position of the first trace'])

prop('C16', 'Text encodings are detected, reported and honoured consistently',
     'For a file with a conventional textual header in ASCII or EBCDIC, create_reader() without an encoding detects the right one, reports it as reader.encoding and decodes all text with it; '
     'an explicit encoding takes precedence. '
     'Detection never moves the file position, and depends only on the bytes of the textual header. '
     'write_segy() uses the explicit encoding, else that of the dataset, else ASCII, and refuses any other with UnsupportedEncodingError before writing anything.',
     ['inputs', 'configurations'],
     'every conventional textual header (letters, digits, spaces and common punctuation) in both encodings; all-zero and undetectable headers; every combination of explicit and dataset encodings',
     'The tests check a handful of fixed strings against guess_encoding.',
     ['segpy/encoding.py', T, R, W],
     [('guess_encoding', 'segpy/encoding.py'), ('guess_textual_header_encoding restores the position', T),
      ('encoding selection in write_segy and _make_reader', 'segpy/writer.py, segpy/reader.py')],
     ['reader.encoding', 'reader.textual_reel_header', 'bytes written'])

prop('C17', 'Sequence and set utilities agree with their mathematical definitions',
     'The sorted immutable collections which readers return (ranges, reversed views and SortedFrozenSets, as built by make_sorted_distinct_sequence) agree with a sorted list of the distinct items in '
     'length, iteration, membership, indexing, index(), count(), reversal and pickling; ranges and SortedFrozenSets also in equality and (with positive steps) slicing. '
     'The supporting functions of segpy.util for intervals, batching, padding, pairing, strides, sortedness, extrema and rounding '
     'agree with their documented definitions for every iterable, including empty ones and one-shot iterators.',
     ['inputs'],
     'every sequence of integers (sorted, reversed, with duplicates, strided, empty), every slice and index, every iterable type',
     'About half of the tests of these functions do not run with the installed Hypothesis; several of these functions were wrong for empty or iterator arguments until repaired.',
     ['segpy/util.py', 'segpy/sorted_frozen_set.py', 'segpy/reversed_sequence_view.py'],
     [('make_sorted_distinct_sequence', 'segpy/util.py'), ('SortedFrozenSet', 'segpy/sorted_frozen_set.py'),
      ('ReversedSequenceView', 'segpy/reversed_sequence_view.py')],
     ['return values of public functions'])

prop('C18', 'Rewriting a file is stable, and conversions change only what they convert',
     'Reading a file and writing the reader back with the same formats, byte order and encoding reproduces it byte for byte, except for unassigned header bytes, non-canonical IBM floats and the quiet bit of signalling NaNs, and a second rewrite reproduces the first exactly. '
     'Rewriting with another byte order, encoding or sample format changes only the representation: the result reads back as the same headers, text, and sample values, and '
     'converting there and back again restores the original file whenever the values are representable in both.',
     ['inputs', 'histories', 'configurations'],
     'every conforming file x every chain of rewrites between byte orders, encodings and sample formats',
     'The only such test rewrites small generated files one way and does not run with the installed Hypothesis.',
     [W, R, D, T],
     [('write_segy of a reader', W), ('DelegatingDataset to override the sample format', D)],
     ['bytes of each rewritten file'])

prop('C19', 'A DelegatingDataset is indistinguishable from its source except where overridden',
     'Every part of the Dataset interface of a DelegatingDataset, to any depth of nesting, returns what its source returns for the same arguments, so that writing it gives the same file as writing the source. '
     'A subclass which overrides some members changes exactly those, and the members derived from them, in what is read from it and in what is written. A Dataset which implements only the abstract members, all of which it must, has the trace indexes zero to num_traces() - 1.',
     ['inputs', 'programs', 'configurations'],
     'every source dataset (readers of each dimensionality and in-memory ones) x every set of overridden members x nesting depth x arguments',
     'The tests construct a DelegatingDataset around one reader and compare a few members.',
     [D, W],
     [('DelegatingDataset forwards each member', D)],
     ['members of the dataset and bytes written from it'])

prop('C20', 'NumPy extraction returns exactly the reader\'s data',
     'For every reader, the arrays from extract_trace(), extract_inline_3d(), extract_xline_3d(), extract_timeslice_3d() and extract_trace_header_field_3d() hold exactly the samples or field values which the reader returns '
     'for the corresponding trace at the position of its inline, crossline and sample number, and the null value elsewhere. '
     'Masking hides exactly the positions without a trace or sample, as requested by the mask. Unknown lines and sample numbers out of range, and readers of unsuitable dimensionality, are refused with an exception. Only the samples, or headers, of the traces extracted are read from the file, and of these only one sample each for a timeslice.',
     ['inputs', 'configurations'],
     'every survey geometry including missing traces and traces of varying length x sample format x requested line, sample, field, null value and mask',
     'The tests cover one fully-populated small file with equal trace lengths; traces with differing lengths and most single-trace arguments failed until repaired.',
     ['segpy-ext/segpy_numpy/segpy_numpy/extract.py', 'segpy-ext/segpy_numpy/segpy_numpy/dtypes.py', 'segpy-ext/segpy_numpy/segpy_numpy/util.py'],
     [('extract_*_3d functions', 'segpy_numpy/extract.py'), ('make_dtype', 'segpy_numpy/dtypes.py')],
     ['arrays and masks returned'])

prop('C21', 'Malformed input gives a documented exception or a truthful reader, always',
     'For every input, however truncated or corrupted, create_reader() and all accessors either succeed, returning what the bytes denote, or raise ValueError, EOFError, TypeError, KeyError, UnicodeError or SegYRevisionError; '
     'no other exception escapes, and none hangs or uses time or memory out of proportion to the size of the input. '
     'Unsuitable arguments (closed, text-mode or unseekable handles, short files, unknown byte order or dimensionality) are refused with the documented exception before the cache is touched. '
     'A failed call leaves the handle open and usable, and the file unchanged.',
     ['inputs', 'fault_sequences'],
     'every byte string as a file: mutated, truncated, spliced and random files, extreme header values; every unsuitable argument; input errors while reading',
     'The tests try a handful of unsuitable arguments; no malformed file is ever read.',
     [R, T, PK, 'segpy/encoding.py', 'segpy/revisions.py'],
     [('argument checks of create_reader', R), ('short read checks', T), ('catalog_traces stops at the first incomplete trace header', T)],
     ['exception types, number of file operations, results'])

prop('C22', 'The command line reports what the file contains',
     'For every readable SEG-Y file, "segpy metadata" and "segpy report" exit successfully and print exactly the values which the library reports for it: the number of traces, dimensionality, sample format and longest trace as JSON for metadata, '
     'and the revision, format description, number of traces, dimensionality, number of CDPs or lines, and textual headers for report. '
     'They leave the SEG-Y file unchanged, and for missing or unreadable files they exit with a failure status without writing misleading results.',
     ['inputs', 'configurations'],
     'every kind of file (dimensionality, sample format, encoding, extended headers, revision), each subcommand, repeated runs with and without a cache',
     'The command line has no tests.',
     ['segpy/cli.py', 'segpy/__main__.py', 'segpy/reader.py'],
     [('metadata and report commands', 'segpy/cli.py')],
     ['standard output, exit status and files of the process'])

prop('C23', 'Header objects are independent records with validated fields',
     'Every header object holds its own value for each field, equal to the last valid assignment or else the default; assigning to, copying, pickling, comparing or discarding one object never affects another, and a refused assignment leaves the old value. '
     'Construction from positional and keyword arguments, copy() with updates, repr and equality reflect exactly the field values, unknown names are refused, and every value read back is convertible, in range, and of its declared type. '
     'Header objects are released as soon as they are no longer referenced.',
     ['histories', 'inputs', 'programs'],
     'every history of creating, assigning, copying, comparing and discarding headers of every format',
     'The tests set a few fields on one or two objects; interactions between many objects over time, identity reuse and leaks are not exercised.',
     [H, 'segpy/field_types.py', 'segpy/trace_header.py', 'segpy/binary_reel_header.py'],
     [('HeaderFieldDescriptor keeps values in a WeakKeyDictionary per field', H),
      ('BaseHeader.copy and are_equal', H)],
     ['fields, copies and lifetimes of header objects'],
     [('_instance_data', 'values by header object', 'header.py')])

prop('C24', 'The low-level toolkit functions agree with the file format and with each other',
     'read_binary_values(), write_binary_values(), read_trace_header(), write_trace_header(), read_binary_reel_header(), write_binary_reel_header() and catalog_traces() transfer exactly the bytes of the documented type, count, byte order and position, '
     'leave the handle immediately after what they read or wrote, and report short data with EOFError or ValueError. '
     'catalog_traces() gives the exact offset and length of every trace with a complete header in any file, and the CDP and line catalogs which their headers imply, or None where numbers are repeated or absent. '
     'bytes_per_sample(), samples_per_trace(), trace_length_bytes(), extract_revision() and the data type tables agree with the binary header and the standard.',
     ['inputs', 'configurations'],
     'every type, count (including zero), position, byte order and value; every sequence of traces and every truncation of the last',
     'The tests cover these functions through a few values in one byte order.',
     [T, 'segpy/datatypes.py', 'segpy/revisions.py'],
     [('read_binary_values and write_binary_values', T), ('catalog_traces', T), ('type tables', 'segpy/datatypes.py')],
     ['values returned, bytes written, file positions'])

prop('C25', 'The documented usage and the example programs do what they say',
     'Each program in examples/ and segpy-ext/segpy_numpy/examples, and the conversion shown in the README, does what its documentation says for every readable file: '
     'loadsave copies byte for byte, convert_sample_type and scale_samples and scale_source_coords change only the samples, format or coordinates they name, '
     'timeslice, extract_inline and extract_trace_header_field save the slice, line or field the file contains, report, custom_header and trace_positions print what is in the file. '
     'The input is left unchanged, repeated runs with the cache agree, and missing, malformed or unsuitable files are refused with the documented exit status.',
     ['inputs', 'configurations'],
     'every program, every big-endian survey of recognisable text (each sample format and geometry), each option, first and cached runs, unsuitable files and arguments',
     'The examples have no tests.',
     ['examples/*.py', 'segpy-ext/segpy_numpy/examples/*.py', R, 'segpy/writer.py', 'segpy/dataset.py'],
     [('main() of each example', 'examples/*.py')],
     ['output files, standard output, exit status'])

prop('C26', 'Independent objects do not interfere, however their use is interleaved',
     'Readers, writers, headers, header formats, packers, catalogs, IBM floats, extracted arrays and toolkit calls which concern different files or objects do not affect each other: '
     'used concurrently from several threads, alternately in one thread, or from within progress functions and datasets called back by the library, each gives exactly the result it would give alone, '
     'whether or not the others fail. Header packers and the index, headers and metadata of a reader may be queried from several threads at once. Readers of the same file handle may be used in turn, wherever its position has been left.',
     ['schedules', 'histories'],
     'every set of activities on separate objects, every interleaving of their steps (down to bytecode instructions), every order of alternating operations, every failure among them',
     'Every test uses one object at a time in a single thread.',
     [R, W, T, PK, H, 'segpy/catalog.py', 'segpy/ibm_float.py', 'segpy/ibm_float_packer.py', 'segpy-ext/segpy_numpy/segpy_numpy/extract.py'],
     [('packers are shared and stateless', PK), ('every read seeks to an absolute position first', T), ('values of headers are kept per class, by weak reference', H)],
     ['results of each activity under scheduled threads'],
     [('_EXTENSION_MANAGER and packer', 'module-level IBM float packer', 'segpy/ibm_float_packer.py')])

prop('C27', 'Calls leave the process as they found it and keep nothing',
     'No call of the library, whether it succeeds or fails, leaves anything behind: no open file of its own, no temporary or partial file or directory other than cache entries, '
     'no thread, nothing printed (except by the command line), and no change of process-wide state (working directory, umask, environment, locale, decimal context, floating-point error state, '
     'random state, warning filters, recursion limit, signal handlers, garbage collection, import path, exit functions, configuration of logging). '
     'File handles, datasets, progress functions and header formats passed in, and readers, headers and samples returned, are released when the caller drops them; the file opened '
     'by a restored reader is closed with it. Arguments are not changed by a call, nor its results by what is done to the arguments later. Repeating operations on ever new content takes no more memory.',
     ['inputs', 'histories', 'fault_sequences'],
     'every call of the public interface x every input and cache, usable or not x every failure of a handle, dataset or progress function at any of its operations x every prior state of the process',
     'Tests look at results; what a call leaves behind shows only in long-running processes or in other parts of a program, and mostly after failures.',
     [R, W, T, PK, H, 'segpy/util.py', 'segpy-ext/segpy_numpy/segpy_numpy/extract.py'],
     [('the cache entry is opened, read, removed or written', R), ('values of headers are kept by weak reference', H), ('a reader opens its file when restored', R)],
     ['process-wide state before and after calls', 'descriptors 1 and 2', 'weak references', 'tracemalloc'])

prop('C28', 'Results depend on arguments and files, not on the environment',
     'What the library returns, raises, writes and caches is a function of its arguments and the files: it is the same whatever the hash seed, with assertions optimised away (python -O), '
     'with warnings turned into errors, in any locale, time zone, working directory or umask, whatever environment variables are set, with any level of logging (whose messages are always well-formed), '
     'in the main thread or another, with any settings of garbage collection, recursion limit, decimal context, random state or NumPy error state, when standard streams are absent, and '
     'when repeated in the same process. Cache entries have the same names in each of these environments.',
     ['configurations', 'histories'],
     'every use of the library x every environment in which Python and NumPy work (with docstrings, from which the command line is made)',
     'Tests run in one environment: one hash seed, with assertions, in one locale, with logging disabled.',
     [R, W, T, PK, H, 'segpy/util.py', 'segpy/cli.py', 'segpy/catalog.py', 'segpy/ibm_float.py', 'segpy-ext/segpy_numpy/segpy_numpy/extract.py'],
     [('arguments are refused by raising, not by assertions', R), ('names of cache entries are hashes of contents and arguments', 'segpy/util.py'), ('messages about the cache are logged', R)],
     ['results of a battery of uses in pairs of processes', 'records of logging'])

prop('C29', 'An installed implementation of IBM floats does all of their conversion',
     'When an installed distribution registers an implementation named cpp for segpy.ibm_float_packer, everything which packs or unpacks IBM floats (reading any or part of a trace, writing, '
     'the toolkit) is done by it and by nothing else, with its results used as they are and its exceptions passed on; samples of other formats never reach it. '
     'Without one, or if it is registered under another name or group, or cannot be loaded or made, the conversion in Python is used and the library works as otherwise. '
     'Setting force_python_ibm_floats switches to the conversion in Python from the next conversion on, and clearing it switches back, also for readers which exist already. '
     'With a right implementation results are those without it.',
     ['configurations', 'histories'],
     'every set of installed distributions x every history of conversions and of switching the implementation off and on',
     'Tests replace the manager of extensions by a stand-in and convert a few values; no implementation is installed where they run.',
     ['segpy/ibm_float_packer.py', T, R, W],
     [('the implementation is chosen whenever something is converted', 'segpy/ibm_float_packer.py'), ('samples are read and written by functions of the toolkit', T)],
     ['results of a process with distributions which register implementations'])

prop('C30', 'Random access costs the same in every file, scanning in proportion to it',
     'The work of a single access to a reader (trace_header(), trace_samples(), num_trace_samples(), num_traces(), trace_index(), has_trace_index(), of what is there and of what is not, and membership in, '
     'indexing and index() of its collections of CDP and line numbers once they were obtained) does not grow with the number of traces in the file, other than logarithmically, whatever their geometry; that of '
     'reading a part of a trace does not grow with its length. Lookups in any catalog made by CatalogBuilder are likewise independent of its size. Building catalogs, opening, iterating over and writing files, '
     'and paginating text are work in proportion to the number of traces, samples or lines (but for sorting), never to its square. None of it depends on how many readers, headers or packers exist or were used before.',
     ['inputs', 'histories'],
     'every geometry and number of traces, every kind of catalog x every access; every history of other uses',
     'Tests use small files and look at results only, which a search through everything also gives.',
     [R, T, W, 'segpy/catalog.py', 'segpy/sorted_frozen_set.py', 'segpy/util.py'],
     [('catalogs "facilitate random access to trace_samples data"', T), ('representations of mappings', 'segpy/catalog.py'), ('membership by bisection', 'segpy/sorted_frozen_set.py')],
     ['lines and calls executed', 'bytes allocated', 'processor time'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
