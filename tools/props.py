# Source of properties.jsonl and MANIFEST.json (tools/genmeta.py writes both).
PROPS = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

prop('P01', 'Path decomposition agrees with os.path for every path',
 'For every path string, the base name, extension, directory name, root component and absoluteness reported by the path functions are substrings of the input and equal what Python os.path would report, with either separator and with an optional drive letter where the file system uses them. Joining the directory name and base name back together names the same object as the original path, and scanning it gives its segments in order.',
 ['inputs'], 'all path strings built from separators, dots, names and drive prefixes, on POSIX-style and DOS-style file systems',
 'The example programs print a handful of fixed paths; empty paths, dotted names, repeated separators and drive prefixes are not covered.',
 ['src/evfs_path.c', 'src/evfs.c'], [('base name / extension scan', 'evfs_path_basename, evfs_path_extname in src/evfs_path.c'), ('directory name with root preservation', 'evfs_vfs_path_dirname in src/evfs_path.c'), ('root component parsers', 'evfs_vfs_path_root_component, default handlers in src/evfs.c')],
 ['returned string ranges'])
prop('P02', 'Normalization is canonical, idempotent and never leaves its buffer',
 'Normalizing any path yields the one canonical path that names the same object: a minimal root, single forward separators, no "." segments, ".." resolved against the preceding name (kept only at the head of a relative path), no trailing separator, and normalizing again changes nothing. The result is identical whether or not output and input share storage, and an output buffer that is too small yields an overflow error without any access outside it.',
 ['inputs', 'configurations'], 'all paths up to beyond the fast algorithm\'s 32-segment limit, in-place and separate buffers of every size around the result length, POSIX and DOS roots',
 'Tests normalize a few short paths into large separate buffers; segment counts beyond the bitmask limit, aliasing and tight buffers are unexercised.',
 ['src/evfs_path.c', 'src/util/range_strings.c'], [('bitmask algorithm for up to 32 segments', 'evfs_vfs_path_normalize in src/evfs_path.c'), ('stack algorithm for longer paths', 'path_normalize_long in src/evfs_path.c'), ('bounded append without NUL', 'range_cat_range_no_nul in src/util/range_strings.c')],
 ['output buffer', 'status code'])
prop('P03', 'Joining and absolute conversion are exact for every path and buffer',
 'Joining two paths gives the head, one separator unless the head is empty or a bare root, and the tail; converting a relative path to absolute gives the normalized join of the current directory and the path, preserving a drive letter, also when the input lies inside the output buffer. When the result does not fit, an overflow error is returned and nothing outside the buffer is touched; it is never silently truncated.',
 ['inputs', 'configurations'], 'all head/tail/current-directory combinations, buffer sizes around the exact length, separate, aliased and partially overlapping buffers, POSIX and DOS roots',
 'Tests use one ample buffer and a few paths; the overlap strategy and the temporary-buffer fallback are selected only by particular size and alias combinations.',
 ['src/evfs_path.c'], [('join with root awareness', 'evfs_vfs_path_join in src/evfs_path.c'), ('three-way absolute strategy', 'evfs_vfs_path_absolute, path_absolute_from_rel_overlap in src/evfs_path.c')],
 ['output buffer', 'status code', 'current directory'])
prop('P04', 'Making a nested path creates exactly the missing directories',
 'Making a path succeeds exactly when no ordinary file stands in the way, afterwards every directory named by the path exists, nothing else in the tree has changed, and repeating it changes nothing. Errors from the underlying file system are reported as they are, and the caller\'s path (or substring of a longer string) is left as it was.',
 ['inputs', 'histories', 'fault_sequences'], 'all paths over random pre-existing trees, as C strings and as substrings, with injected errors in any underlying call',
 'Tests create one path on an empty tree.',
 ['src/evfs.c', 'src/util/range_strings.c'], [('segment-wise stat and create', 'evfs_make_path_range_ex in src/evfs.c'), ('limited tokenizer', 'range_token_limit in src/util/range_strings.c')],
 ['tree of the base file system', 'status code'])
prop('P05', 'Paths too long and buffers too short are refused, never misused',
 'On every file system and through every shim, an operation given a path of any length in any redundant form either acts on exactly the object which the path names or is refused with an error and changes nothing. The current directory and converted paths arrive complete in a buffer of any size or an error is reported. Nothing outside a buffer is touched and no other path is ever used in place of the full one.',
 ['inputs', 'histories', 'configurations'], 'all paths up to several times the longest supported length in every redundant spelling, all operations on them and buffer sizes from zero, on every file system below random shims, in the default and the long path configuration',
 'Every path in the tests is short and every buffer has the full size.',
 ['src/evfs_path.c', 'src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/romfs_fs.c', 'src/littlefs_fs.c', 'src/fatfs_fs.c', 'src/stdio_fs.c', 'src/shim_jail.c', 'src/shim_rotate.c'], [('absolute conversion', 'evfs_vfs_path_absolute in src/evfs_path.c, make_absolute_path in every driver'), ('current directories', '*__get_cur_dir and *__set_cur_dir in every driver'), ('jail and container paths', 'src/shim_jail.c, build_chunk_path in src/shim_rotate.c')],
 ['objects below the drivers', 'returned data', 'status code', 'buffer contents'])
prop('R05', 'Operations reach exactly the selected file system and report missing ones',
 'After any history of registering, re-registering and unregistering, a name finds exactly the file system registered under it, there is exactly one default whenever anything is registered, and every operation reaches the named (or default) file system with its arguments unchanged and no other. Operations a file system does not implement return the "no support" error, operations with nothing registered fail, each unregistered file system is told exactly once, and a failed open yields no handle and no leaked memory.',
 ['histories'], 'all histories of registration changes and operations over several file systems, including ones implementing only the mandatory methods',
 'Tests register one or two file systems once and never change or remove the default.',
 ['src/evfs.c'], [('registry list and default', 'evfs_register, evfs_unregister, evfs_find_vfs in src/evfs.c'), ('dispatch wrappers', 'evfs_*_ex in src/evfs.c and include/evfs.h')],
 ['calls received by the file systems', 'status codes', 'allocated blocks'])
prop('R06', 'Copying between file systems is exact or reports failure',
 'Copying an open file to a new path, on the same or another file system and with any transfer buffer, either succeeds with a destination byte-identical to the source or returns a negative error; the source is never changed and an existing destination is never touched. Any error of the source, the destination (including closing it) or the allocator is reported, and no handle or buffer is leaked.',
 ['inputs', 'fault_sequences'], 'all contents, buffer sizes, short reads, full destinations and injected read/write/close/allocation faults',
 'Tests copy one small file with one buffer size and no faults.',
 ['src/evfs.c', 'include/evfs.h'], [('copy loop', 'evfs_copy_to_file_ex in src/evfs.c')],
 ['destination contents', 'status code', 'open handles'])
prop('R07', 'Wildcard patterns select exactly the documented names and always terminate',
 'A pattern made of literals, "*", "?" and bracket sets (with ranges and negation) matches a file name exactly when the documented wildcard rules say so, and repeated directory searches report every matching entry exactly once in directory order, ending with the done status or the directory\'s own error. Any pattern, well formed or not, is evaluated without leaving the strings and without looping forever.',
 ['inputs'], 'all patterns and names, including bytes above 127, unterminated brackets and reversed ranges; all directory contents',
 'No test exercises the matcher beyond a fixed "*.ext" pattern.',
 ['src/util/glob.c', 'src/evfs.c'], [('backtracking matcher', 'glob_match, match_range in src/util/glob.c'), ('directory search', 'evfs_dir_find in src/evfs.c')],
 ['match result', 'reported entries'])
prop('R08', 'Formatted output writes exactly the formatted text',
 'Printing to a file appends exactly the characters the C formatter produces for the same format and arguments, of any length, and returns their count; writing a string writes exactly its characters. Write and allocation failures are returned as errors.',
 ['inputs', 'fault_sequences'], 'all format/argument/length combinations, NUL characters included, with write and allocation faults',
 'Tests print short lines only; the internal buffer boundary and the failure paths are not reached.',
 ['src/evfs.c', 'include/evfs.h'], [('two-pass formatting', 'evfs_file_vprintf in src/evfs.c'), ('string output', 'evfs_file_puts')],
 ['file contents', 'return value'])
prop('U26', 'The hash table behaves as a map for every history',
 'After any history of insertions, replacements, removals, reservations and growth, with any hash function and in allocated or caller-supplied storage, every key finds exactly its latest value, iteration yields every entry once, and the item count is exact; each evicted value is handed to the owner exactly once with its key. Failed operations (no memory, storage full, refused replacement) change nothing, a granted reservation really provides that capacity, and no memory outside the value objects and the supplied storage is touched.',
 ['histories', 'fault_sequences', 'configurations'], 'all operation histories, key sets, hash functions, value sizes, storage sizes and allocation failures',
 'The table is only used as an append-only index by the archive file systems in tests; removal, re-insertion, collisions and storage limits never run.',
 ['src/util/dhash.c', 'include/evfs/util/dhash.h'], [('Robin Hood insertion', 'dh__insert_ex in src/util/dhash.c'), ('tombstones', 'dh_remove'), ('growth', 'dh__grow, dh_reserve_capacity')],
 ['lookups', 'iteration', 'destroy callbacks'])
prop('U27', 'String ranges never leave their bounds and append, trim and split exactly',
 'Appending to a bounded string range either appends exactly the given text and advances past it, or leaves the earlier text intact and reports a negative length; no byte outside the range is touched, even when it is full or empty. Trimming, comparing, copying, padding and tokenizing give exactly the substring semantics, and limited tokenizing never looks past its limit.',
 ['inputs', 'configurations'], 'all append sequences and range sizes including empty ones, all strings and delimiters',
 'Every path in the library is built on these, with ample buffers in the tests; full and empty ranges are not exercised.',
 ['src/util/range_strings.c'], [('append family', 'range_cat_* in src/util/range_strings.c'), ('tokenizers', 'range_token, range_token_limit')],
 ['buffer contents', 'range pointers', 'return value'])
prop('U28', 'Fixed-point numbers convert and print exactly',
 'Every fixed-point value, with any scale factor up to a billion, is converted and printed as its true value rounded half away from zero to the requested places (at most as many as its scale resolves), with the right sign, carries and justification, and text that does not fit reports the size it needs. Powers of two, integer logarithms, digit counts, SI scaling and conversions to integers are exact for all arguments with a representable result. Binary logarithms, square roots, interpolation and Bezier evaluation and inversion stay within a few units in the last place (direct root finding within half a percent) and always end, also for values off the curve.',
 ['inputs'], 'all values, scale factors, places, widths and buffer sizes; all integers; all curve points',
 'No test calls these functions, and their faults sit at carries, sign changes and the ends of the integer ranges.',
 ['src/util/intmath.c', 'src/util/range_strings.c'], [('decimal conversion', 'to_fixed_base10_parts, fixed_base10_adjust, to_fixed_si in src/util/intmath.c'), ('formatting', 'range_cat_ufixed_padded, range_cat_fixed_padded in src/util/range_strings.c'), ('curves', 'quadratic_bezier, bezier_search_t in src/util/intmath.c')],
 ['returned values', 'text'])
prop('U29', 'Approximate search returns the exact, nearest, or bounding entry',
 'For every sorted array, ascending or descending and with duplicates, and every key, exact search finds the key when and only when it is present, and nearest, nearest-at-or-above and nearest-at-or-below search return an entry with the minimal distance on the requested side, or the end entry when there is none. The returned index is always inside the array.',
 ['inputs'], 'all sorted arrays and keys',
 'The search only serves to pick hash sizes; no test calls it directly.',
 ['src/util/search.c'], [('binary search', 'search_exact, search_nearest in src/util/search.c'), ('one-sided variants', 'search_nearest_above, search_nearest_below')],
 ['returned index'])
prop('U30', 'Option parsing follows its documented getopt rules for every argument list',
 'For every definition of short and long options and every argument list, the parser reports exactly the options, arguments and errors that the documented rules give, in order: clusters, attached and separate arguments, optional arguments, exact long names, flags, terminators, and operands moved behind the options when asked for. It reports the end with the index of the first operand, keeps every argument, and never looks past the end of the list; the usage text names every option with its help for any line width, even without memory.',
 ['inputs', 'histories'], 'all option definitions, argument lists, parser settings, help texts and line widths',
 'No test parses options; errors need particular sequences of clusters, operands and missing arguments.',
 ['src/util/getopt_r.c'], [('parser', 'getopt_long_r in src/util/getopt_r.c'), ('moving operands', 'permute_args'), ('usage', 'print_command_usage')],
 ['results and parser state', 'argument list', 'printed text'])
prop('U32', 'Byte-order access is exact and bounded string copies stay in bounds',
 'Storing any 16, 32 or 64-bit integer at any address in native, big or little endian order writes exactly its bytes in that order, and loading gives the same value back, through the functions and the type-generic forms alike. Bounded string copies and concatenations write at most the given size, always terminate what they write, report the documented length, and read nothing beyond the given size of a source or destination without a terminator.',
 ['inputs'], 'all integer values, types, byte orders and alignments; all strings and buffer sizes',
 'Most of these functions are not used by any test.',
 ['include/evfs/util/unaligned_access.h', 'src/util/bsd_string.c'], [('loads and stores', 'include/evfs/util/unaligned_access.h'), ('bounded copies', 'strlcpy, strxcpy, strlcat in src/util/bsd_string.c')],
 ['bytes in memory', 'return values'])
prop('J11', 'A jail never reaches outside its root',
 'Whatever path an operation on a jail receives (parent references, absolute or drive-prefixed paths, mixed separators, over-long names, any current directory) and however jails are nested, the underlying file system is only ever asked to act on the object inside the jail root that the path names within the jail. A path that cannot be represented is refused with an error and without any effect, and the current directory reported by the jail never exposes or escapes the root.',
 ['inputs', 'histories', 'configurations'], 'all operation sequences with arbitrary paths up to and beyond the path limit, jail roots of any form, nested jails, POSIX and DOS roots',
 'The jail example makes a few accesses with short friendly paths; escapes depend on particular combinations of current directory, separators, drive prefixes and lengths.',
 ['src/shim_jail.c', 'src/evfs_path.c'], [('virtual to real path conversion', 'build_real_path, make_absolute in src/shim_jail.c'), ('virtual current directory', 'jail__set_cur_dir, jail__get_cur_dir in src/shim_jail.c')],
 ['paths received by the base file system', 'status codes', 'reported current directory'])
prop('J12', 'Work inside a jail behaves as on the bare file system',
 'For every sequence of file, directory and path operations, performing it in a jail gives the same results, data and errors as performing it directly on a file system holding only the jailed subtree, and afterwards that subtree is the same. Failures of the underlying file system come through unchanged and no handle or memory is left behind.',
 ['histories', 'inputs', 'fault_sequences'], 'all operation sequences with several open files and directories, partial transfers and injected errors',
 'The jail example checks existence of a few paths; it never compares data operations, directory reading or failures.',
 ['src/shim_jail.c', 'src/evfs.c'], [('method forwarding', 'jail__* methods in src/shim_jail.c')], ['results of every operation', 'tree of the base file system', 'open handle count'])
prop('T13', 'Tracing is transparent and reports truthfully',
 'Putting any number of trace layers over a file system changes no result, data, error or side effect of any operation. Each traced operation is reported once, and the report names the operation with the arguments that were passed and the result that was returned.',
 ['histories', 'inputs', 'fault_sequences'], 'all operation sequences through one or two trace layers, with partial transfers and injected errors',
 'The trace shim is only used to print diagnostics in the examples; nothing compares traced with untraced behaviour or reads the text.',
 ['src/shim_trace.c'], [('method forwarding with report', 'trace__* methods in src/shim_trace.c')], ['results of every operation', 'report callback text'])
prop('R14', 'A rotating log always holds the newest data, in order',
 'After any sequence of appends a rotating log reads back as exactly the tail of everything appended: the newest bytes in order, of which only whole oldest chunks are missing, and nothing is discarded while the configured maximum still has room. Stored data and the number and size of stored chunks never exceed the configured limits, however the data was split into writes and however often the log was reopened.',
 ['histories', 'inputs', 'configurations'], 'all append histories over any geometry, with reopening, partial transfers and file systems that refuse to delete open files',
 'The example appends three lines to one container with one geometry; chunk boundaries, exact fullness and repeated wrapping are not sampled.',
 ['src/shim_rotate.c'], [('chunk sequence with generation flags', 'append_new_chunk, next_chunk, discover_chunk_sequence in src/shim_rotate.c'), ('chunked read and write loops', 'rotate__file_read, rotate__file_write in src/shim_rotate.c')],
 ['bytes read back', 'size and position', 'files in the container directory'])
prop('R15', 'A rotating log behaves as one continuous file',
 'Through one handle, reads, writes, seeks, size, position, end of file, truncation and trimming of a rotating log behave as on one byte string: overwriting changes exactly the addressed bytes, truncation keeps the head, trimming removes whole chunks from the start and reports how much, and the position moves with the data that remains. Only writing beyond the maximum size discards the oldest chunk.',
 ['histories', 'inputs', 'configurations'], 'all operation sequences over any geometry, with positions and lengths at and around chunk boundaries',
 'The example truncates and trims one small container once; boundary combinations of position, fullness and open chunk are not sampled.',
 ['src/shim_rotate.c'], [('logical to chunk position mapping', 'get_chunk_pos, needs_new_chunk in src/shim_rotate.c'), ('trim and truncate', 'trim_start_chunks, rotate__file_truncate in src/shim_rotate.c')],
 ['bytes, sizes and positions', 'files in the container directory'])
prop('R16', 'Rotating logs keep their data and geometry across sessions',
 'A rotating log reopened later, after renaming or after the shim was reconfigured or registered again, has the same content and keeps the chunk size and count it was created with; deleting it removes everything it stored; open flags are honoured and settings outside the documented limits are refused. A container whose files are damaged or alien is refused or read without crashing, hanging or touching memory out of bounds.',
 ['histories', 'configurations', 'inputs'], 'all histories of open, write, close, delete, rename and reconfiguration over several logs; arbitrary geometry files and stray file names in containers',
 'The example reopens one intact container with one configuration.',
 ['src/shim_rotate.c'], [('geometry file', 'init_rotate_container, open_rotate_container in src/shim_rotate.c'), ('chunk scan on open', 'discover_chunk_sequence, parse_chunk_name in src/shim_rotate.c'), ('deletion', 'clear_container in src/shim_rotate.c')],
 ['bytes read back after reopening', 'status codes', 'tree of the base file system'])
prop('R17', 'A rotating log survives power failures and I/O errors',
 'If power fails or an operation of the underlying file system fails at any point of appending, trimming or truncating, the log can be opened again and holds everything that was there before, except for a prefix of the interrupted change: a partially appended tail, whole oldest chunks already rotated or trimmed away, or a partially truncated end. It then continues to work normally, after an error also through the handle that met it; an interrupted creation can be deleted and repeated.',
 ['crash_points', 'fault_sequences', 'histories'], 'every point of failure (including torn writes) in any append, trim and truncate history, repeated across several sessions',
 'No test interrupts the shim or makes the underlying file system fail.',
 ['src/shim_rotate.c'], [('order of eviction and creation', 'append_new_chunk in src/shim_rotate.c'), ('zero-length chunk cleanup and generation scan', 'discover_chunk_sequence in src/shim_rotate.c')],
 ['content after reopening', 'files in the container directory'])
prop('R18', 'Ordinary files and directories pass through the rotate shim unchanged',
 'For every operation on files and directories that are not rotating logs, the rotate shim gives the same results, data, errors and effects as the underlying file system, also while rotating logs are open beside them.',
 ['histories', 'inputs'], 'all operation sequences on existing files and directories beside a live container',
 'The example never touches an ordinary file through the shim.',
 ['src/shim_rotate.c'], [('container detection', 'is_rotate_file in src/shim_rotate.c'), ('method forwarding', 'rotate__* methods in src/shim_rotate.c')], ['results of every operation', 'tree of the base file system'])
prop('S09', 'The host file driver behaves as a file system and loses no data silently',
 'For every sequence of operations, the driver over the host C library gives the results, positions, sizes, end-of-file state, data and listings of a file system in which the open flags mean what is documented. Files and directories on the host are afterwards what the successful operations made them, data the host refuses to store is reported by the write, the sync or the close, and an operation whose work fails on the host reports a failure that is true.',
 ['histories', 'fault_sequences'], 'all operation sequences in a host directory, including a host that refuses data beyond a size limit and a failure of any single host call',
 'The tests open a couple of fixed files; flag combinations, switching between reading and writing, buffered data at truncation, and full disks are not reached.',
 ['src/stdio_fs.c'], [('flag to mode mapping', 'stdio__open in src/stdio_fs.c'), ('buffering', 'stdio__file_* in src/stdio_fs.c'), ('dot entry stripping', 'stdio__dir_read in src/stdio_fs.c')], ['results of every operation', 'content of the host directory'])
prop('S10', 'Write protection allows no change',
 'After a file system has been write protected, no operation, including ones on files that were opened for writing before, creates, changes, renames or removes anything on it; every such attempt is reported as a failure. Reading keeps working as before.',
 ['histories', 'inputs'], 'all trees, open files and attempted operations',
 'No test uses write protection.',
 ['src/stdio_fs.c', 'src/fatfs_fs.c'], [('read only checks', 'cfg_readonly tests in src/stdio_fs.c and src/fatfs_fs.c')], ['statuses of changing operations', 'content of the storage'])
prop('A19', 'A mounted tar archive shows exactly the files it contains',
 'After a valid tar archive is mounted from a file or from memory, every regular file in it can be opened under its name, absolute, relative or written with redundant elements, and has exactly the archived size and bytes at every position. Names that are not in the archive, directories, links and extended headers are not opened as files, nothing can be changed, and neither the archive nor memory is altered or kept after unmounting. Iterators over an archive give every entry once and in order, with its header, path, size and the place of its data.',
 ['inputs', 'histories'], 'all valid tar archives, and all sequences of operations on them',
 'The tests mount one archive with a few short names; prefix fields, full-length names, "./" entries, links and odd sizes are not in it.',
 ['src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/tar_iter.c', 'src/tar_iter_rsrc.c'], [('entry iteration', 'src/tar_iter.c'), ('lookup and reading', 'src/tar_fs.c, src/tar_rsrc_fs.c')], ['results of every operation', 'content of the archive afterwards', 'live allocations'])
prop('A20', 'A mounted romfs image shows exactly its tree',
 'After a valid romfs image is mounted from a file or from memory, with or without the path index, every file and directory in it is found under every spelling of its path, directories list exactly their entries, and files have exactly the stored bytes, hard links included. Nothing else is found, nothing can be changed, and neither the image nor memory is altered or kept after unmounting.',
 ['inputs', 'histories', 'configurations'], 'all valid romfs images, and all sequences of operations on them, in both lookup configurations',
 'The tests mount one image from genromfs with a handful of files.',
 ['src/romfs_fs.c', 'src/romfs_common.c'], [('path index', 'index_dir_tree, romfs__fast_lookup_abs_path in src/romfs_common.c'), ('tree walk', 'romfs__lookup_abs_path in src/romfs_common.c'), ('reading and listing', 'src/romfs_fs.c')], ['results of every operation', 'directory listings', 'content of the image afterwards', 'live allocations'])
prop('A21', 'Damaged archive images are handled within bounds',
 'Whatever bytes an archive image consists of, mounting it is refused or succeeds, and every following operation ends, stays inside the memory it was given and returns sizes, positions, names and addresses that lie inside the image. Nothing is kept after unmounting or a refused mount, and the image is never written.',
 ['inputs', 'fault_sequences'], 'all byte strings used as tar or romfs images, damage that comes or goes while they are used included, and all operations on them',
 'No test uses a damaged image.',
 ['src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/tar_iter.c', 'src/tar_iter_rsrc.c', 'src/romfs_fs.c', 'src/romfs_common.c'], [('size and checksum validation', 'src/tar_iter.c, romfs_read_file_header in src/romfs_common.c'), ('cycle limits', 'romfs_max_entries in src/romfs_common.c')], ['sanitizer reports', 'termination', 'bounds of returned values'])
prop('A24', 'Damage that an archive format detects is never served',
 'An image whose first block, header checksum or format mark no longer matches is refused as a whole (first block of a romfs image) or exactly the damaged entries disappear with what lies behind them: no entry is opened or listed from a damaged header, and listings end there with an error. Everything that is reached without touching the damage keeps its name, size and content.',
 ['inputs', 'fault_sequences'], 'all images, every changed byte of every header, checksum, mark and image size',
 'No test uses a damaged image.',
 ['src/tar_iter.c', 'src/tar_iter_rsrc.c', 'src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/romfs_common.c', 'src/romfs_fs.c'], [('header checks', 'tar__valid_header in src/tar_iter.c and src/tar_iter_rsrc.c, romfs_read_file_header in src/romfs_common.c'), ('image check', 'romfs__validate in src/romfs_common.c'), ('indexes and listings', 'tarfs__build_index in src/tar_fs.c, scan_dir_tree, index_dir_tree in src/romfs_common.c, romfs__dir_read in src/romfs_fs.c')], ['which entries can be opened', 'their sizes and contents', 'listings and their end'])
prop('A22', 'Archive file systems report read failures and never return wrong data',
 'When the file below a mounted archive reads partially or fails, an operation either gives the archived result or reports an error: no file seems missing, shorter or different, no listing ends early, and no mount succeeds with part of the entries. A repeated operation continues where the failed one stood.',
 ['fault_sequences', 'histories'], 'all images, all partial transfers, and a failure at any read or seek of the image file',
 'The tests read from reliable files only.',
 ['src/tar_fs.c', 'src/tar_iter.c', 'src/romfs_fs.c', 'src/romfs_common.c'], [('header reading', 'src/tar_iter.c, romfs_read_file_header in src/romfs_common.c'), ('data reading', 'tarfs__file_read in src/tar_fs.c, romfs_read_image in src/romfs_fs.c')], ['data read', 'statuses', 'directory listings'])
prop('F23', 'A FatFs volume inside an image file is a complete file system',
 'Images made by the library have the requested size, can be mounted when large enough, and behave like a file system: files and directories have exactly the content of the operations that reported success, through every volume number and after unmounting and mounting again. When the image file transfers partially or fails, or the volume is full, the failure is reported, nothing that was synced or closed without an error before is lost, not even if the image file loses what was never synced to it, and all space is available again after deleting; a failed creation or mount leaves nothing behind.',
 ['histories', 'fault_sequences', 'inputs'], 'all operation sequences on volumes of several sizes, and failures at any transfer of the image file',
 'The tests create one image with a few files and read it back without faults, and never fill, remount or use a second volume.',
 ['src/fatfs_fs.c', 'src/fatfs_image.c', 'libraries/fatfs/source'], [('file methods', 'fatfs__file_read, fatfs__file_write, fatfs__file_truncate, fatfs__open in src/fatfs_fs.c'), ('image transfers', 'disk_read, disk_write, disk_ioctl in src/fatfs_image.c'), ('creation and mounting', 'fatfs_make_image, fatfs_mount_image in src/fatfs_image.c')], ['content of files and directories after remounting', 'statuses', 'sizes and positions'])
prop('L25', 'A littlefs volume in an image file or elsewhere is a complete file system',
 'A registered littlefs volume behaves like a file system for every history of operations: files and directories have exactly the content of the operations that reported success, also after unmounting and mounting again, relative and denormal paths included. Every failure of littlefs or of the file below an image is reported and loses nothing that was synced or closed without an error, and what was is synced to the image; block transfers are complete or report failure. Images are made in the configured size or leave nothing behind, and are mounted only with the geometry they have.',
 ['histories', 'fault_sequences', 'inputs'], 'all operation sequences, image geometries, and failures of littlefs or at any transfer of the image file',
 'The build of the tests has no littlefs: no test covers this driver.',
 ['src/littlefs_fs.c', 'src/littlefs_image.c'], [('file and directory methods', 'littlefs__open, littlefs__file_seek, littlefs__dir_read in src/littlefs_fs.c'), ('paths', 'make_absolute_path, littlefs__set_cur_dir in src/littlefs_fs.c'), ('images', 'littlefs_make_image, littlefs_mount_image, littlefs_image_read, littlefs_image_prog in src/littlefs_image.c')], ['content of files and directories after remounting', 'statuses', 'bytes of the image'])
prop('E33', 'Running out of memory is an error like any other',
 'When memory runs out during any operation or registration, the operation either reports exactly that, keeps no memory, opens no handle and leaves all files and directories as they were, or gives the result it gives with memory. Repeated with memory it behaves as if it had never failed; an interrupted write or creation of a log container leaves a state that one of the completed steps gives.',
 ['fault_sequences', 'histories', 'configurations'], 'all operation sequences on every file system and shim, and a failure of any allocation or of all allocations from any point on',
 'The tests never let an allocation fail.',
 ['src/evfs.c', 'src/evfs_path.c', 'src/shim_jail.c', 'src/shim_rotate.c', 'src/shim_trace.c', 'src/stdio_fs.c', 'src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/romfs_fs.c', 'src/romfs_common.c', 'src/fatfs_fs.c', 'src/fatfs_image.c', 'src/littlefs_fs.c'], [('handles and buffers', 'evfs_vfs_open, evfs_vfs_open_dir, evfs_copy_to_file_ex in src/evfs.c'), ('paths', 'append_normalized_root, path_normalize_long, evfs_vfs_path_absolute in src/evfs_path.c; make_absolute_path in the archive drivers'), ('indexes and registration', 'tarfs__build_index in src/tar_fs.c, index_dir_tree in src/romfs_common.c, evfs_register_*')], ['statuses and handles', 'files and directories before and after', 'live allocations', 'results of the repeated operation'])
prop('E34', 'The code of a failure names something that is the case',
 'Every failed operation on files and directories answers with the general error or with a code whose meaning is true in that situation, never with the code of another cause: opening or describing what does not exist says so (outside tar archives), creating exclusively or making a directory where something exists says that it exists, every change is unsupported on archives and disabled on a file system set read-only. A failure that only a fault below causes carries that fault\'s code or a general or input/output error, and shims change none of this.',
 ['inputs', 'histories', 'fault_sequences', 'configurations'], 'all trees, paths to existing, missing and unreachable objects, operations and injected errors, on every file system below any jail and trace shims',
 'The tests look for success and never compare the code of a failure.',
 ['src/stdio_fs.c', 'src/fatfs_fs.c', 'src/littlefs_fs.c', 'src/romfs_fs.c', 'src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/shim_jail.c', 'src/shim_trace.c', 'src/shim_rotate.c', 'src/evfs.c'], [('translation of codes', 'translate_error in src/stdio_fs.c, src/fatfs_fs.c and src/littlefs_fs.c'), ('missing and unsuitable objects', 'romfs__open, romfs__open_dir in src/romfs_fs.c, tarfs__open in src/tar_fs.c, stdio__open in src/stdio_fs.c'), ('read-only', 'cfg_readonly in the drivers')], ['status of every operation'])
prop('N35', 'Calls with missing arguments are refused and do nothing',
 'Every call of the file, directory, path, registration and image interface in which a required object, name, path, buffer or place for a result is missing is refused as a bad argument (questions are answered with no), on every file system and whatever else is passed. It reaches no file system, creates, changes and leaks nothing, and leaves every open file and directory usable where it was; arguments of control commands and the end-of-file question without a file are excepted.',
 ['inputs', 'histories', 'configurations'], 'all calls and choices of missing arguments, between any other such calls with open files and directories, on every file system below any shims',
 'The tests pass no missing argument to most of the functions.',
 ['src/evfs.c', 'src/evfs_path.c', 'src/shim_jail.c', 'src/shim_rotate.c', 'src/shim_trace.c', 'src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/romfs_fs.c', 'src/fatfs_fs.c', 'src/fatfs_image.c', 'src/littlefs_fs.c', 'src/littlefs_image.c'], [('file and directory calls', 'evfs_vfs_open, evfs_rename_ex, evfs_file_write, evfs_dir_find in src/evfs.c'), ('path calls', 'evfs_vfs_path_join_str, evfs_vfs_scan_path in src/evfs_path.c'), ('registration and images', 'evfs_register_* and *_make_image, *_mount_image')], ['statuses', 'calls that reach a file system', 'results, live allocations, registrations, positions and stored content before and after'])
prop('I33', 'What file systems tell about files is true and complete',
 'Every file system announces which information it gives about files, shims announce what lies below them, and every description by a status query or a listing has exactly the announced parts: the right name, size, type and time of the last change, and zero for the rest. Commands that nothing knows are refused as unsupported and change nothing, listings contain the dot entries as configured, and every error and command code has its own name.',
 ['inputs', 'histories', 'configurations'], 'all trees, times of change, time zones, unknown commands and codes, on every file system and below any shims',
 'The tests print descriptions and never compare them, and use no unknown command.',
 ['src/stdio_fs.c', 'src/fatfs_fs.c', 'src/littlefs_fs.c', 'src/romfs_fs.c', 'src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/shim_jail.c', 'src/shim_rotate.c', 'src/shim_trace.c', 'src/fatfs_image.c', 'src/evfs.c'], [('descriptions', 'fatfs__stat, fatfs__dir_read in src/fatfs_fs.c, stdio__stat, stdio__dir_read in src/stdio_fs.c, littlefs__stat, littlefs__dir_read in src/littlefs_fs.c'), ('announced fields and commands', 'the vfs_ctrl and file_ctrl functions of all drivers and shims'), ('time stamps', 'get_fattime in src/fatfs_image.c'), ('names of codes', 'evfs_err_name, evfs_cmd_name in src/evfs.c')], ['every field of every description', 'announced fields', 'statuses of control commands'])
prop('C31', 'Threads do not disturb each other',
 'In builds with thread support, threads that work on different files and directories get exactly the results each would get alone, whatever the schedule and whichever shims, archives and (thread-safe) file systems they share, and no memory is accessed without synchronization. Registering, removing and looking up file systems from several threads behaves like some order of these operations, and another thread sees a changed current directory before or after the change, never in between. No lock is left held, misused or able to block all threads.',
 ['schedules', 'histories', 'configurations'], 'all schedules of up to four threads over all sequences of operations, for both thread libraries and with or without shared buffers',
 'No test starts a second thread or builds with thread support.',
 ['src/evfs.c', 'src/shim_jail.c', 'src/shim_rotate.c', 'src/tar_fs.c', 'src/tar_rsrc_fs.c', 'src/romfs_fs.c', 'src/littlefs_fs.c', 'src/evfs_pthread.c', 'src/evfs_c11_thread.c'], [('registry lock', 'evfs_register, evfs_unregister, evfs_find_vfs in src/evfs.c'), ('shared path buffers', 'make_absolute_path in src/littlefs_fs.c, src/tar_fs.c, src/tar_rsrc_fs.c and src/romfs_fs.c; LOCK in src/shim_jail.c and src/shim_rotate.c'), ('shared image files', 'tarfs__file_read in src/tar_fs.c, romfs__file_read and romfs__dir_read in src/romfs_fs.c')], ['results of every operation per thread', 'the history of registry operations', 'race detector reports', 'locks held and deadlocks'])
