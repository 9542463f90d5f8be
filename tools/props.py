IOF = ['src/io/io_handler.rs', 'src/io/file_mem.rs', 'src/io/file_file.rs', 'src/io/file_null.rs']
p('C01', 'Opening any file always returns: no panic, overflow or endless loop',
  'Opening a profile for reading returns either a profile or an error for every file content, every file length and every pattern of failing operating system calls. It never panics, never overflows an integer, never indexes outside a table and never loops without end, in either byte-order configuration.',
  ['inputs', 'fault_sequences', 'configurations'], 'all file contents of any length, all outcomes of every stream operation, both byte-order configurations',
  'The tests open one well-formed profile; hostile headers (impossible dates, overlapping or overflowing tag ranges, truncated directories) are unbounded in number.',
  ['src/types/profile.rs', 'src/types/icc_header.rs', 'src/types/tag_entry.rs', 'src/types/date_time_number.rs', 'src/io/io_handler.rs'],
  [('bounds on tag count and tag range', 'src/types/profile.rs: Profile::read_header_thr'), ('fallible date construction', 'src/types/date_time_number.rs')],
  'panic/overflow/bounds reachability and loop ranking by ' + AI,
  'Shows that no panic, overflow, bounds failure or unranked loop is reachable from the public open functions for any bytes. Allocation failure, mutex poisoning and panics inside the OS are excluded.',
  ['Profile::open_from_file', 'Profile::open_from_file_thr'])
p('C02', 'Stream primitives and typed transfers never panic or overflow',
  'Every operation of every stream kind (file, memory buffer, null device), and every typed read or write built on them, returns a value or an error for every argument and every state the stream can be in. None of them panics, overflows or fails to terminate, whatever position was sought to and however long the buffer is.',
  ['inputs', 'histories', 'fault_sequences'], 'all arguments, buffer lengths, positions and device states, after any history of operations; all outcomes of the underlying calls',
  'Tests use a handful of in-range positions and short buffers; extreme seeks, position overflow and failing devices are never met.',
  IOF, [('checked position arithmetic', 'src/io/file_null.rs'), ('provided methods', 'src/io/io_handler.rs')],
  'panic/overflow/bounds reachability and loop ranking by ' + AI,
  'Every primitive of every implementation and every provided method is analysed from an arbitrary device state. Allocation failure is excluded.',
  ['IOHandler'])
p('C03', 'Typed stream reads and writes use the configured byte order exactly',
  'A typed read consumes exactly the width of its type and returns the number those bytes spell, big endian by default and little endian under the use_little_endian feature; a typed write emits exactly those bytes, so the two are inverse. Array transfers do the same for every element in order, from the first to the last, and nothing else is read, written or skipped.',
  ['inputs', 'configurations'], 'all values, all byte patterns, all array lengths, both byte-order configurations',
  'Tests compare a few constants in one configuration; neither all bit patterns nor the other configuration nor arbitrary array lengths are covered.',
  ['src/io/io_handler.rs', 'src/io/big_endian.rs', 'src/io/little_endian.rs', 'src/io.rs'],
  [('adjust_endianness_*', 'src/io/big_endian.rs, src/io/little_endian.rs'), ('read_*/write_*', 'src/io/io_handler.rs')],
  'byte-level value numbering over ' + AI,
  'Value equality holds for all bytes; array loops are decided by their loop transfer for any length plus exact partitions of small lengths. Little-endian host assumed.',
  ['IOHandler::read_u16', 'IOHandler::write_u32', 'IOHandler::read_u16_array'])
p('C04', 'Fixed-point transfers are exact and saturating',
  'Reading a 15.16 fixed-point number yields exactly the signed 32-bit value divided by 65536, for every bit pattern including the most negative; writing one emits the nearest representable value (floor of 65536 x + 1/2), saturated to the 32-bit range. XYZ triples are transferred as three such numbers in the order X, Y, Z.',
  ['inputs', 'configurations'], 'all 2^32 encodings and all non-NaN doubles, both byte-order configurations',
  'Tests check a few values; sign handling, rounding at halves and saturation cover the whole value range.',
  ['src/io/io_handler.rs', 'src/io.rs'], [('s15f16_to_f64, f64_to_s15f16', 'src/io.rs'), ('read_s15f16, write_s15f16, read_xyz, write_xyz', 'src/io/io_handler.rs')],
  'exact polynomial value numbering over ' + AI,
  'Doubles are treated as reals: exact on the read side (every value is representable); on the write side the formula is decided, not IEEE rounding of the intermediate sum. NaN excluded.',
  ['IOHandler::read_s15f16', 'IOHandler::write_s15f16', 'IOHandler::read_xyz', 'IOHandler::write_xyz'])
p('C09', 'Stream and file errors always reach the caller unchanged',
  'Whenever an underlying stream or file operation fails, the operation built on it (typed transfer, array transfer, size query, profile open) returns an error, and the error is that of a failed operation. No failure is dropped, replaced by a default, retried silently or turned into success, and no error is invented when every operation succeeded (other than for a malformed profile).',
  ['fault_sequences', 'inputs'], 'every outcome of every fallible operation on every path',
  'Tests never make an operation fail.',
  IOF + ['src/types/profile.rs'], [('? propagation', 'src/io/io_handler.rs, src/io/file_file.rs, src/types/profile.rs')],
  'error-propagation path rule over ' + AI,
  'For every path, each failed operation must appear as the error of that path, and every outcome must be examined. Errors of close(2) on drop are not observable in std and excluded.',
  ['io::Result of IOHandler methods and Profile::open_from_file*'])
p('C12', 'Querying a stream\'s size leaves its position unchanged',
  'A successful size query returns the position of the end of the stream and leaves the stream exactly where it was, from any starting position. A failure of any step of the query is reported as an error.',
  ['inputs', 'histories', 'configurations'], 'all starting positions and stream lengths; any stream implementation',
  'Tests query sizes at one or two positions.',
  ['src/io/io_handler.rs'], [('reported_size', 'src/io/io_handler.rs')],
  'typestate replay of seek/tell events on every path of ' + AI,
  'Decided for any implementation that honours seek and tell.',
  ['IOHandler::reported_size'])
p('C13', 'Memory and file streams transfer exactly the requested bytes or fail',
  'A successful read of n bytes delivers exactly the n stored bytes at the current position and advances by n; a successful write stores exactly the given bytes there, changes nothing else (a growing buffer is zero-filled up to the position) and advances by n. On a buffer of fixed size a transfer fails exactly when it does not fit; seeks go to exactly the position asked for and fail without moving when it is not representable. File streams pass each request on, whole and unmodified, as one exact transfer.',
  ['inputs', 'histories'], 'all buffers, positions (also beyond the end), lengths and seek targets; all four buffer kinds and files',
  'Tests use short buffers and in-range positions.',
  ['src/io/file_mem.rs', 'src/io/file_file.rs'], [('FileMem over Cursor', 'src/io/file_mem.rs'), ('File implementation', 'src/io/file_file.rs')],
  'buffer-content value numbering with an abstract position over ' + AI,
  'std::io::Cursor is analysed from its own MIR; std::fs::File is represented by contracts (read_exact, write_all, seek, stream_position).',
  ['FileMem', 'impl IOHandler for File'])
p('C14', 'The null device keeps an exact position and extent and reads zeros',
  'The null device behaves as an endless stream of zeros: reads deliver zeros, reads and writes advance the position by exactly the requested length, the extent is the furthest position written so far, and seeks are relative to the start, the current position or the extent. Operations that would leave the representable range fail and change nothing.',
  ['inputs', 'histories'], 'all positions, extents, lengths and seek offsets, after any history',
  'Tests use a few small positions; overflow and negative targets are not met.',
  ['src/io/file_null.rs'], [('FileNull', 'src/io/file_null.rs')],
  'inductive device-state transfer over ' + AI,
  'Each operation is decided from an arbitrary device state, so any history follows by induction.',
  ['FileNull'])
p('C15', 'Closing a stream consumes it; a file is synced before it is dropped',
  'Closing takes the stream by value, so no operation can follow it. Closing a file first asks the operating system to write its data out and reports the failure of that request, and the handle is then dropped exactly once; closing a memory buffer or the null device always succeeds.',
  ['histories', 'fault_sequences'], 'all streams and all outcomes of the sync request',
  'Ownership after close and the order sync-before-drop are not observable in a test; a failing sync is never produced.',
  IOF, [('close', 'src/io/file_file.rs, src/io/file_mem.rs, src/io/file_null.rs')],
  'typestate ordering (sync before drop) on every path plus ownership of the receiver, over ' + AI,
  'Durability of the data once the OS reports success is outside the rule.',
  ['IOHandler::close'])
PROF = ['src/types/profile.rs', 'src/types/icc_header.rs', 'src/types/tag_entry.rs']
p('C05', 'An opened profile holds exactly the header fields of the file',
  'After a profile was opened for reading, each of its header fields (version, device class, colour space, PCS, creation date, flags, manufacturer, model, attributes, rendering intent, creator, profile id) is the value stored at its ICC header offset, numbers and signatures in the configured byte order. No field is swapped with, truncated to, or defaulted from another. Decoding and encoding of headers and tag entries are inverse of each other.',
  ['inputs', 'configurations'], 'all file contents accepted by open, both byte-order configurations',
  'The tests read one sample header in which many fields are zero; a swapped pair of equal fields, a truncated 64-bit attribute or a byte-order slip on those fields goes unnoticed.',
  PROF + ['src/types/date_time_number.rs'], [('read_header_thr', 'src/types/profile.rs'), ('ICCHeader', 'src/types/icc_header.rs')],
  'byte-provenance value numbering (stream byte -> profile field) over ' + AI,
  'Each field is compared with the word spelled by the header bytes, for all contents at once.',
  ['Profile fields after Profile::open_from_file_thr'])
p('C06', 'The tag directory lists exactly the valid entries, in file order',
  'The tags of an opened profile are exactly those directory entries whose data range (offset plus size, without wrap-around) lies within the file, as bounded by the smaller of the size declared in the header and the real size; they appear in file order with exactly their signature, offset and size; every other slot is empty, and there are never more than 100.',
  ['inputs', 'configurations'], 'all directories of all accepted files',
  'The tests open one well-formed file: entries just in range, just out of range, wrapping, or mixed are not sampled.',
  PROF, [('directory loop and range test', 'src/types/profile.rs: read_header_thr')],
  'loop-transfer induction and exact partitions of small directories over ' + AI,
  'The directory loop is decided by its transfer from an arbitrary state; small directories also exactly.',
  ['Profile::get_tag_count', 'Profile::get_tag_signature'])
p('C07', 'Tag links and lookups find exactly the right directory entry',
  'While reading a directory, a tag becomes a link to an earlier listed tag exactly when both share offset and size, and then to the last such tag; all others are unlinked. A lookup by signature yields the first listed tag of that name, follows links to their end if asked to, yields nothing exactly when the name is absent, and always ends.',
  ['inputs', 'histories'], 'all directories, all signatures, all link patterns',
  'The tests hold no file with shared tags and never look up a tag that is absent, duplicated or linked.',
  PROF, [('link loop in read_header_thr', 'src/types/profile.rs'), ('search_one_tag / search_tag', 'src/types/profile.rs')],
  'loop-transfer induction and exact partitions of small tables over ' + AI,
  'Loops are decided inductively where recognised and exactly for small tables; link cycles cannot arise because links lead to earlier tags.',
  ['Profile tag lookup'])
p('C08', 'Querying the n-th tag signature is total and exact',
  'Asking for the n-th tag signature returns the signature of the n-th listed tag when n is below the tag count, and the default signature otherwise. It never panics, for any index.',
  ['inputs'], 'all indices (up to the largest integer) and all tag tables',
  'Tests query one or two in-range indices.',
  PROF, [('get_tag_signature', 'src/types/profile.rs')],
  'value-range and bounds analysis by ' + AI, 'Decided for an arbitrary profile value that satisfies the table invariant.',
  ['Profile::get_tag_signature'])
p('C10', 'Malformed profiles are rejected and reported once to the right handler',
  'Opening a file whose magic number is not "acsp", or whose directory claims more than 100 tags, fails with an invalid-data error after exactly one call of the given context\'s error handler with the code BadSignature respectively Range. Nothing is reported for a file that is accepted.',
  ['inputs', 'fault_sequences'], 'all file contents, all contexts and handlers',
  'The tests open valid files with the default handler only.',
  PROF + ['src/state/context.rs', 'src/state/chunks/error_handler.rs'], [('magic test and tag count test', 'src/types/profile.rs'), ('signal_error', 'src/state/context.rs')],
  'event-trace rule (handler calls per path) over ' + AI, 'Decided on every path of open for a handler of any behaviour.',
  ['context error handler', 'Result of open_from_file_thr'])
p('C11', 'Access mode decides how the file is opened and what the profile holds',
  'Opening in a read mode opens an existing file read-only, never creating, truncating or writing it, and fills the profile from it. Opening in a write mode creates or truncates the file and returns a fresh profile, marked as written and with no tags, without reading anything. In both cases the stream held by the profile is the opened file.',
  ['inputs', 'fault_sequences'], 'both modes, all file names and outcomes of the system call',
  'Tests open one file for reading; what flags reach the operating system is not observable from them.',
  PROF + ['src/io.rs'], [('open_from_file_thr', 'src/types/profile.rs'), ('AccessMode', 'src/io.rs')],
  'event-trace and typestate rule (open options, reads, fields) over ' + AI, 'OpenOptions is represented by its documented contract.',
  ['Profile::open_from_file_thr'])
SIG = ['src/types/signature.rs']
p('C16', 'Signature conversions are exact in every direction',
  'Converting text, bytes or a number into a signature yields the number its bytes spell most significant first, short input padded with spaces and long input cut to four bytes; converting a signature into a number, bytes or text is the exact inverse, and yields four spaces as text when the bytes are not valid text. Two signatures are equal exactly when all four bytes are. No conversion or debug output ever panics.',
  ['inputs'], 'all texts, byte strings, numbers and signatures',
  'Tests convert a handful of ASCII tags; other lengths, high bytes and multi-byte characters are not sampled.',
  SIG, [('From implementations', 'src/types/signature.rs'), ('Debug / equality', 'src/types/signature.rs')],
  'byte-provenance value numbering over ' + AI, 'UTF-8 validity itself is std\'s.',
  ['Signature conversions'])
p('C17', 'Every published signature constant has its standard code',
  'Each published signature constant (colour spaces, profile classes, tags, tag types, technologies, platforms, stages, curve segments, plugin types and the general ones) has exactly the four-byte code that the ICC specification and lcms2 give its name, and none is missing. Two constants share a code only where the standard lets them.',
  ['inputs'], 'all published constants',
  'Tests use about a dozen of the more than 200 constants.',
  ['src/types/signatures.rs', 'src/types/signatures/'], [('constant tables', 'src/types/signatures/*.rs')],
  'comparison of compiler-evaluated constants with the standard\'s table', 'The table (analysis/icc_table.py) is transcribed from lcms2.h and ICC.1:2010; where both disagree (a typo in lcms2\'s header for the digital cinema projector) the ICC code counts.',
  ['constants in lcms2::types::signatures'])
p('C18', 'On-disk structures, error codes and limits match the ICC format and lcms2',
  'Every on-disk structure (profile header 128 bytes, tag entry 12, date and time 12, encoded XYZ 12, profile id 16) has the field order, widths, signedness and guaranteed C layout of the ICC format. Error codes are numbered 0 to 13 in the order lcms2 defines them, and are ordered by number. The limits (100 tags, 16 channels, 15 inputs, 20 types per plugin, 4097 curve nodes, library version 2131, the curve bounds) are those of lcms2.',
  ['inputs', 'configurations'], 'all fields of all structures, all error codes and limits, both byte-order configurations',
  'Tests check sizes of none and read one sample header; swapping two fields of equal width, changing a limit or the sign of a field goes unnoticed.',
  ['src/types/icc_header.rs', 'src/types/tag_entry.rs', 'src/types/date_time_number.rs', 'src/types/encoded_xyz_number.rs', 'src/types/cie_xyz.rs', 'src/types/profile_id.rs', 'src/state/chunks/error_handler.rs', 'src/lib.rs', 'src/types.rs', 'src/plugins.rs'],
  [('repr(C) structures', 'src/types/*.rs'), ('ErrorCode', 'src/state/chunks/error_handler.rs'), ('limits', 'src/lib.rs, src/types.rs, src/plugins.rs')],
  'comparison of compiler-computed layouts, discriminants and constants with the format\'s table', 'Layouts are those computed for the host target.',
  ['repr(C) types', 'ErrorCode', 'public limits'])
p('C19', 'Dates convert exactly, and invalid dates become the epoch',
  'A profile date that denotes an existing calendar date and time of day converts to exactly that moment, field by field; any other converts to 1970-01-01 00:00:00 and never panics. Converting a moment back yields its year (0 to 65535), month, day, hour, minute and second, so the two conversions are inverse of each other.',
  ['inputs'], 'all twelve-byte date fields and all moments of years 0 to 65535',
  'Tests convert one or two dates; leap days, out-of-range fields and boundary years are not sampled.',
  ['src/types/date_time_number.rs'], [('From<DateTimeNumber> and back', 'src/types/date_time_number.rs')],
  'value numbering over ' + AI, 'The calendar itself (which dates exist) is chrono\'s, represented by a contract.',
  ['DateTimeNumber conversions'])
p('C20', 'Values compare equal exactly when all their fields agree',
  'Two values (XYZ colours, dates, encoded colours, error codes, headers, profiles, profile ids, signatures, tag entries) are equal exactly when every one of their fields agrees; of a profile, only the attached stream is left out. Difference in any single field makes them unequal.',
  ['inputs'], 'all pairs of values of each type',
  'Tests compare a few pairs that differ in obvious fields; a field left out of the comparison is not noticed.',
  ['src/types/profile.rs', 'src/types/profile_id.rs', 'src/types/signature.rs', 'src/types/icc_header.rs', 'src/types/tag_entry.rs'],
  [('PartialEq implementations', 'src/types/*.rs')],
  'path-complete field-agreement dataflow over ' + AI, 'Equality of arrays and dates is elementwise as documented.',
  ['PartialEq::eq'])
p('C21', 'A given context is all an operation uses; the global one is locked once',
  'An operation that is given a context never reads, changes or locks the process-wide one, through any chain of calls, and leaves the given context as it was. Opening a profile through the process-wide context waits for its lock, takes it exactly once before anything else and holds it until the operation is over, using that context for everything, handler calls included. The lock is released exactly once on every way out, so operations of different threads are serialised and never deadlock on it.',
  ['schedules', 'inputs', 'fault_sequences'], 'all interleavings of threads, all outcomes of every operation',
  'Tests run single operations; a second lock acquisition, a missed one or a fallback to the global context on a rare path needs a schedule no test produces.',
  ['src/state/context.rs', 'src/types/profile.rs', 'src/io/file_mem.rs', 'src/io/file_file.rs', 'src/io/file_null.rs', 'src/plugins/plugin.rs'],
  [('global context mutex', 'src/state/context.rs'), ('open_from_file', 'src/types/profile.rs')],
  'effect analysis over the call graph and lock typestate on every path of ' + AI, 'Poisoning of the lock by a panicking handler is excluded.',
  ['Context', 'Profile::open_from_file'],
  [('process-wide context', 'the context used when none is given', 'src/state/context.rs')])
p('C22', 'New contexts hold the documented defaults; clones are equal and independent',
  'A new context holds exactly the given user data and the documented defaults (adaptation state 1.0, alarm codes 7F00 in the first three channels and 0 elsewhere, a silent error handler, the standard interpolators, empty plugin lists), and the process-wide context starts out so too, without user data; a new profile holds the documented defaults and the present time, a default colour is zero, and a part made from a given value holds exactly that value. A clone of a context equals the original in every part, and a change to one never shows in the other.',
  ['histories', 'inputs'], 'all contexts and user data, all later changes to either copy',
  'Tests look at one or two parts of one context; sharing between copies only shows after a later change.',
  ['src/state/context.rs', 'src/state/chunks/', 'src/types/profile.rs'], [('Context::new / Clone', 'src/state/context.rs'), ('chunk defaults', 'src/state/chunks/*.rs'), ('Profile::new', 'src/types/profile.rs')],
  'value numbering and alias (fresh-object) analysis over ' + AI, 'User data is shared by reference on purpose, as in lcms2.',
  ['Context::new', 'Context::clone', 'Context::get_user_data', 'Profile::new'])
p('C23', 'Plugin registration validates the whole chain and reports the first fault once',
  'Registering a chain of plugins succeeds only if every plugin of the chain, up to its end, carries the plugin magic number, requires no newer version than 2131 and is of a known type. It fails at the first plugin that does not, after exactly one call of the given context\'s handler with the code UnknownExtension and the very text that is returned as the error.',
  ['inputs', 'histories'], 'all chains of any length and any content at any position',
  'Tests register a single plugin; faults at the second or last plugin of a chain are not sampled.',
  ['src/plugins/plugin.rs', 'src/state/context.rs'], [('init_plugin', 'src/plugins/plugin.rs')],
  'inductive chain-walk transfer and event-trace rule over ' + AI, 'Decided exactly for chains of one to four plugins and by the transfer of the walk for any other.',
  ['plugin registration result', 'context error handler'])
p('C24', 'Signalling an error calls the context\'s handler exactly once, unchanged',
  'Signalling an error calls the error handler of the given context exactly once, passing that same context, the given code and exactly the given text, and has no other effect.',
  ['inputs', 'histories'], 'all contexts, handlers, codes and texts',
  'Tests install one handler and signal one code.',
  ['src/state/context.rs', 'src/state/chunks/error_handler.rs'], [('signal_error', 'src/state/context.rs')],
  'event-trace rule (handler calls and their arguments per path) over ' + AI, 'Decided for a handler of any behaviour.',
  ['context error handler'])
p('C25', 'The built-in curve table matches its evaluator, and lookups are total',
  'The built-in set of parametric curves lists exactly the types 1 to 8, 108 and 109 with the number of parameters lcms2 gives each, and evaluating a listed type, forward or reversed, reads no parameter beyond that number and never panics. Looking up a type yields the position of the first curve of that type or its reverse, nothing exactly when there is none, and never panics for any number.',
  ['inputs'], 'all types (any 32-bit number), all parameter lists of at least the announced length, all curve sets',
  'Tests evaluate a few types with full parameter lists.',
  ['src/plugins/para_curve.rs'], [('default curve table', 'src/plugins/para_curve.rs'), ('is_in_set', 'src/plugins/para_curve.rs')],
  'bounds and panic analysis of every path over ' + AI, 'The lookup is decided exactly for sets of up to four curves and by its walk for any other.',
  ['ParametricCurves'])
p('C26', 'Built-in parametric curves compute the formulas of lcms2',
  'For each built-in type, forward (1 to 8, 108, 109) and reversed (the negated types), the evaluator chooses the segment and computes on it the formula that lcms2\'s default parametric curves use for that type, degenerate parameters included. Every other type yields 0.',
  ['inputs'], 'all parameter values and arguments, all types',
  'Tests sample a few parameter sets per type; segment limits, degenerate parameters and most reversed types are not reached.',
  ['src/plugins/para_curve.rs'], [('default_eval_parametric_fn', 'src/plugins/para_curve.rs')],
  'value numbering of each path as a polynomial normal form, compared with the lcms2 formulas, over ' + AI,
  'Floating point is treated as real arithmetic: formulas, segment decisions and constants are decided, rounding is not.',
  ['default parametric curve evaluator'])
p('C27', 'Reversed curve types invert the forward types',
  'Evaluating the reversed type on the value that the forward type yields for an argument returns that argument, on every segment on which the curve is invertible (gamma, slopes and factors positive and above the tolerance 0.0001).',
  ['inputs'], 'all arguments and parameters of the invertible segments of all ten built-in types',
  'Tests sample a few points per type and compare with a tolerance.',
  ['src/plugins/para_curve.rs'], [('default_eval_parametric_fn', 'src/plugins/para_curve.rs')],
  'composition of path normal forms (powers, logarithms and reciprocals cancelled) over ' + AI,
  'Floating point is treated as real arithmetic.',
  ['default parametric curve evaluator'])
p('C28', 'Debug output names the value\'s own type and shows each part under its name',
  'Showing any value of a library type for debugging never panics; it begins with the name of that type (or of the variant) and shows every data field exactly once, each under its own name, and functions as a fixed placeholder text (never empty, never an address). Signatures and profile ids show all of their bytes in order, as text only where they are valid text.',
  ['inputs'], 'all values of every type with debug output, all bytes of signatures and profile ids',
  'Tests never look at debug output; a wrong label, a missing field or bytes that are not valid text go unnoticed.',
  ['src/types/signature.rs', 'src/types/profile_id.rs', 'src/plugins/', 'src/state/chunks/'],
  [('Debug implementations', 'src/**')],
  'dataflow from each field to the formatter call that labels it, over ' + AI, 'Complete: all implementations of the crate; the standard formatter prints what it is handed.',
  ['Debug::fmt of every type'])
p('C29', 'Plugin type predicates name exactly one type each',
  'Each predicate of a plugin type answers true exactly for the type it names, so exactly one of the nine predicates is true of any plugin type.',
  ['inputs'], 'all nine plugin types and all nine predicates',
  'Tests check none of the 81 combinations systematically.',
  ['src/plugins/plugin.rs'], [('is_... predicates', 'src/plugins/plugin.rs')],
  'variant-set analysis over ' + AI, 'Complete: all variants are enumerated.',
  ['plugin type predicates'])
p('C30', 'Unsafe code only reinterprets plain data, and shared state is behind a lock',
  'The only unsafe operations are reinterpretations of plain data as plain data of the same size and guaranteed layout; no raw pointer is dereferenced, no unsafe function is called, and no mutable global exists outside a lock. No input or schedule can therefore make the library read or write memory it does not own, or race on it.',
  ['inputs', 'schedules', 'programs'], 'every function of the library, every program that uses it',
  'Tests cannot show the absence of undefined behaviour or data races.',
  ['src/types/signature.rs', 'src/types/profile_id.rs', 'src/types/icc_header.rs', 'src/io/io_handler.rs', 'src/state/context.rs'],
  [('unsafe blocks', 'src/**'), ('global context mutex', 'src/state/context.rs')],
  'whole-crate inventory of unsafe operations and statics in the type-checked MIR', 'Dependencies and std are trusted.',
  ['whole crate'])
p('C31', 'Opening takes bounded memory, reads and work whatever the file claims',
  'Opening a profile reads at most the header, the tag count and twelve bytes for each of at most 100 announced tags (1332 bytes), whatever the file is. No size, offset or count that the file claims makes it reserve more memory, read further or loop longer than those fixed bounds.',
  ['inputs'], 'all file contents of any length, both byte-order configurations',
  'Tests open small well-formed files; a claim of gigabytes shows only in memory or time.',
  ['src/types/profile.rs'], [('header and directory reading', 'src/types/profile.rs')],
  'bound analysis: loop measures on entry, memory requests and read lengths over ' + AI, 'Text given by the caller is not bounded.',
  ['Profile::open_from_file', 'Profile::open_from_file_thr', 'bytes read, memory reserved'])
p('C32', 'The library touches the outside world only through files it is to use',
  'Conversions, queries, comparisons, defaults, plugin registration, curve evaluation, debug output and the memory and null devices have no effect outside the program: they print nothing and use no file, clock, environment, randomness, lock, thread or network. Opening a profile uses the named file, the clock for the creation time of a new profile and, without a context, the lock of the process-wide one, and nothing else (what is read from a file never depends on the clock); file streams use only their own file.',
  ['inputs', 'histories', 'environments'], 'every function users can reach, in every environment, both byte-order configurations',
  'A test cannot observe that something is never read or written; stray output, an environment switch or a clock dependence shows only under conditions no test sets up.',
  ['src/'], [('every public function', 'src/**')],
  'effect inference over the resolved call graph of the type-checked program', 'Effects of handlers and streams supplied by the user are the user\'s; leaves are classified by their documented effect.',
  ['whole crate'])
p('C33', 'Opening a profile never leaks or doubly releases the file it opens',
  'When opening a profile succeeds, the returned profile is the one and only owner of the file that was opened. When opening fails after the file was opened (because of the file\'s content or an I/O error), the file has been closed, exactly once. No other file is left open.',
  ['inputs', 'faults'], 'every path of opening a profile, for every file content and I/O failure, both byte-order configurations',
  'Tests open one good file; a leak on an error path shows only when descriptors run out, long after the call that leaked.',
  ['src/types/profile.rs'], [('Profile::open_from_file_thr', 'src/types/profile.rs'), ('Profile::read_header_thr', 'src/types/profile.rs')],
  'ownership (acquire/release) analysis by abstract interpretation of the mono MIR, drop elaboration included', 'A dropped std::fs::File closes its descriptor.',
  ['Profile::open_from_file_thr', 'Profile'])
