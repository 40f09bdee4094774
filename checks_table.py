# What each property's check runs.  A part is one generated-input search
# (a property function of a harness); VARIANTS are builds of /repo's sources.
VARIANTS = {
  'none': {'defines': [], 'littlefs': False},
  'lfs': {'defines': [], 'littlefs': True},
  'bare': {'defines': [], 'littlefs': True, 'config': dict.fromkeys(('EVFS_USE_ROMFS_FAST_INDEX', 'EVFS_USE_ROMFS_SHARED_BUFFER', 'EVFS_USE_TARFS_SHARED_BUFFER', 'EVFS_USE_ROTATE_SHARED_BUFFER', 'EVFS_USE_LITTLEFS_SHARED_BUFFER'))},
  'slow': {'defines': [], 'littlefs': False, 'config': {'EVFS_USE_ROMFS_FAST_INDEX': None, 'EVFS_USE_ROMFS_SHARED_BUFFER': None, 'EVFS_USE_TARFS_SHARED_BUFFER': None}},
}
VARIANTS['wide'] = {'defines': [], 'littlefs': True, 'config': {'EVFS_FILE_OFFSET_BITS': '64', 'ALLOW_LONG_PATHS': ''}}
TS = {'tsan': True, 'malloc': False, 'plain': ['coop.cpp'], 'littlefs': False}
VARIANTS['tsan'] = dict(TS, defines=['USE_PTHREADS'], redefine=['pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_unlock'])
VARIANTS['tsanslow'] = dict(VARIANTS['tsan'], config={'EVFS_USE_ROMFS_FAST_INDEX': None, 'EVFS_USE_ROMFS_SHARED_BUFFER': None, 'EVFS_USE_TARFS_SHARED_BUFFER': None, 'EVFS_USE_ROTATE_SHARED_BUFFER': None})
VARIANTS['c11'] = dict(TS, defines=['USE_C11_THREADS'], redefine=['mtx_init', 'mtx_destroy', 'mtx_lock', 'mtx_unlock'])
VARIANTS['tsanlfs'] = dict(VARIANTS['tsan'], littlefs=True)
VARIANTS['tsanlfsown'] = dict(VARIANTS['tsanslow'], littlefs=True, config=dict(VARIANTS['tsanslow']['config'], EVFS_USE_LITTLEFS_SHARED_BUFFER=None))
VARIANTS['wideclock'] = dict(VARIANTS['wide'], redefine=['time'])
VARIANTS['hostfault'] = {'defines': [], 'littlefs': False, 'redefine': ['fopen', 'fclose', 'fread', 'fwrite', 'fflush', 'ferror', 'clearerr', 'fseek', 'ftruncate', 'stat', 'opendir', 'readdir', 'mkdir', 'remove', 'rename', 'chdir', 'getcwd']}
VARIANTS['clock'] = {'defines': [], 'littlefs': True, 'redefine': ['time']}
CHECKS = {}
NOT_APPLICABLE = {}
TRUST = 'Exploration by generated cases, not a proof; trusts the reference model, the in-memory base file system and the sanitizers.'
def C(id, parts, rule, technique, note=TRUST, level='exploration', assumptions=()):
    CHECKS[id] = dict(parts=parts, rule=rule, level=level, technique=technique, note=note, assumptions=list(assumptions))
def P(prop, src, **kw): return dict(prop=prop, src=src, **kw)

PATH = ['p_path.cpp', 'memfs.cpp']
C('P01', [P('P01', PATH, fuzz=60)], 'Paths drawn from a segment grammar (dots, dotted names, both separators, repeated separators, drive prefixes, POSIX/DOS roots). Non-trivial: at least two segments or a dot in the path.', 'differential property-based testing against an os.path model, ASan/UBSan')
C('P02', [P('P02', PATH, fuzz=60)], 'Paths of up to ~80 segments normalized in separate, tight, too small and in-place exact heap buffers. Non-trivial: the path has two or more segments and is not already canonical, or the buffer is too small.', 'model-based and metamorphic (idempotence, aliasing) property-based testing, ASan/UBSan')
C('P03', [P('P03.join', PATH, fuzz=60), P('P03.absolute', PATH, fuzz=60)], 'Heads, tails and current directories from the path grammar with output sizes around the exact length; separate, aliased and overlapping buffers. Non-trivial: both operands non-empty, or a relative path under a non-root current directory, or an overflow boundary.', 'model-based property-based testing over exact heap buffers, ASan/UBSan')
C('P04', [P('P04', PATH)], 'Random trees with files and directories, random current directory, path as string or substring, optional injected error. Non-trivial: two or more segments and the tree had to change, or the fault fired.', 'model-based property-based testing with fault injection on an in-memory base file system')

CORE = ['p_core.cpp', 'memfs.cpp']
C('R05', [P('R05', CORE)], 'Histories of register / re-register / unregister / operations over six file systems, some with only the required methods. Non-trivial: the default changed and something was unregistered.', 'stateful model-based testing of the registry with instrumented file systems')
C('R06', [P('R06.copy', CORE), P('R06.default', CORE)], 'Random contents, buffer sizes, partial reads, existing or unreachable destinations, injected read/write/close/capacity/allocation faults. Non-trivial: more than one buffer of data or a fault fired.', 'differential (byte equality) property-based testing with fault injection')
C('R07', [P('R07.glob', CORE, fuzz=60), P('R07.raw', CORE, fuzz=60), P('R07.find', CORE)], 'Patterns from the documented grammar with strings derived from them, raw bracket soup in exact heap buffers, directories searched by repeated find calls. Non-trivial: the pattern has a wildcard and the string is not empty (glob), an open bracket (raw), some but not all names match (find).', 'differential testing against an exhaustive reference matcher; fuzzing of ill-formed patterns')
C('R08', [P('R08', CORE)], 'Sequences of formatted and plain string output with random formats, widths, lengths and injected faults. Non-trivial: at least two writes that produced output.', 'differential property-based testing against snprintf')

UTIL = ['p_util.cpp', 'memfs.cpp']
C('U26', [P('U26', UTIL)], 'Histories of insert/replace/remove/lookup/reserve/iterate over string and integer keys, colliding hash functions, growing, bounded and external storage, refused replacements and allocation failures. Non-trivial: something was removed, two or more entries remain and the table grew or a removed key came back.', 'stateful model-based testing against std::map, ASan-exact value buffers')
C('U27', [P('U27.append', UTIL), P('U27.view', UTIL), P('U27.token', UTIL, fuzz=30)], 'Append sequences over exact heap buffers of 0..60 bytes; trimming, comparing, copying, padding of random substrings; tokenizing whole and limited strings. Non-trivial: an append that did not fit after one that did; whitespace or truncation involved; two or more tokens with a limit inside the string.', 'model-based property-based testing against std::string, ASan')
C('U28', [P('U28.' + x, UTIL) for x in ('text', 'parts', 'int', 'curve')], 'Values and scale factors around rounding and carry boundaries, extreme values, all widths and buffer sizes; integers around powers of two and ten; curve points over the whole range. Non-trivial: a value with a fraction; a rounding or a prefix change took place; an argument above two; three distinct points.', 'differential property-based testing against exact 128-bit arithmetic and real-valued formulas, UBSan')
C('U29', [P('U29', UTIL)], 'Sorted arrays (both directions, duplicates) and keys on, between and outside the entries. Non-trivial: three or more entries.', 'differential testing against linear search')
MISC = ['p_misc.cpp', 'gen_c.c', 'memfs.cpp']
C('U30', [P('U30.parse', MISC), P('U30.usage', MISC)], 'Option definitions of every kind and argument lists of options, clusters, arguments, operands, terminators and malformed options; usage texts for any width, also without memory. Non-trivial: two or more options were parsed; long options with help.', 'differential property-based testing against a reference parser, ASan')
C('U32', [P('U32.bytes', MISC), P('U32.copy', MISC)], 'All integer types, byte orders and alignments through functions, C generics and C++ templates; copies between exact buffers of every size. Non-trivial: a value other than zero; the text just fits or is cut.', 'round-trip and model-based property-based testing, ASan')

SHIM = ['p_shim.cpp', 'memfs.cpp']
C('J11', [P('J11', SHIM)], 'Jails (also nested) at absolute, relative, redundant and over-long roots; operations with hostile paths: parent references, mixed separators, drive prefixes, lengths around the path limit, changing current directories. Non-trivial: three or more operations, one with a parent reference.', 'property-based testing of containment against a lexical model on a recording base file system')
C('J12', [P('J12', SHIM)], 'Operation sequences with up to three files and two directory handles, partial transfers and injected errors. Non-trivial: at least two successful changes and one successful read.', 'differential stateful testing: jailed subtree against the same tree unjailed')
C('T13', [P('T13.diff', SHIM), P('T13.report', SHIM)], 'Operation sequences through one or two trace layers with partial transfers and injected errors; reported text of single calls. Non-trivial: at least two successful changes and one read, or three reported calls.', 'differential stateful testing: traced against direct access; report text against the call and result')

ROT = ['p_rot.cpp', 'memfs.cpp']
C('R14', [P('R14', ROT)], 'Append histories over one or two containers with random geometry, record sizes dividing the chunk or arbitrary, reopening, partial transfers and a base that refuses to delete open files. Non-trivial: two or more writes and at least one rotation.', 'stateful model-based testing against the tail of the byte stream')
C('R15', [P('R15', ROT)], 'Writes, reads, seeks, truncations, trims and reopenings at and around chunk boundaries and full capacity, append and random-access handles. Non-trivial: three or more changes, a successful read, more than one chunk stored.', 'stateful model-based testing against a byte-string model')
C('R16', [P('R16.persist', ROT), P('R16.malformed', ROT, fuzz=60)], 'Several containers reopened, deleted and renamed while the settings change and the shim is re-registered; damaged geometry files and stray names in containers. Non-trivial: reopened twice with a settings change; two or more damages.', 'stateful model-based testing; fuzzing of container directories')
C('R17', [P('R17', ROT)], 'Append, trim and truncate histories cut by a power failure after a random number of base changes (with torn writes), or hit by a single I/O error, then reopened, up to three times. Non-trivial: a fault hit and more than one chunk was involved.', 'crash and fault injection against the set of legal outcomes computed by the model')
C('R18', [P('R18', ROT)], 'Operation sequences on plain files and directories beside a live container. Non-trivial: at least two successful changes and one successful read.', 'differential stateful testing against the bare file system')

STDIO = ['p_stdio.cpp', 'memfs.cpp']
C('S09', [P('S09.model', STDIO), P('S09.full', STDIO), P('S09.faults', STDIO, variant='hostfault')], 'Operation sequences (open with every documented flag combination, read, write, seek, truncate, sync, directories, rename, delete, current directory) on the stdio driver in a scratch directory and on the in-memory model, the real directory tree being compared with the model; writes with the file size limited by the operating system; and sequences in which single calls of host file functions fail. Non-trivial: three successful changes and a successful read, a refused write after accepted data, or two failed host calls.', 'stateful model-based testing and fault injection')
FAT = ['p_fat.cpp', 'memfs.cpp']
LFS = ['p_lfs.cpp', 'memfs.cpp']
C('S10', [P('S10.stdio', STDIO), P('S10.fat', FAT), P('S10.lfs', LFS, variant='lfs')], 'A tree and open files are prepared, write protection is switched on, then changes of every kind are tried and the real tree is compared. Non-trivial: at least three attempts on a non-empty tree.', 'invariant over random operation sequences')

ARCH = ['p_arch.cpp', 'memfs.cpp']
C('A19', [P('A19', ARCH), P('A19.iter', ARCH)], 'Archives from a ustar/GNU header writer (prefix fields, full name fields, directories, links and extended headers in between, "./" archives, duplicates, missing end blocks), mounted from a file or from memory, then histories of opens, reads, seeks, stats and directory changes with denormal paths; iterators moved through the entries. Non-trivial: two or more files and three or more paths; two entries visited.', 'differential stateful testing: mounted archive against the tree it was written from')
C('A20', [P('A20', ARCH), P('A20.slow', ARCH, variant='slow')], 'Images from a romfs writer (nested and empty directories, hard links, device nodes, names up to 31 bytes, entries before the dot entries, gaps), from a file or memory, with the path index and without it; histories of operations with denormal paths and listings. Non-trivial: two or more files and three or more paths.', 'differential stateful testing: mounted image against the tree it was written from')
C('A24', [P('A24.tar', ARCH), P('A24.romfs', ARCH), P('A24.slow', ARCH, variant='slow')], 'Valid images with bytes of one or two headers changed so that the checksum does not match, or the format mark or the size in the first block changed with a matching checksum; then every file read and every directory listed. Non-trivial: at least two entries with a file (tar), the damage must be refused or there are two files (romfs).', 'model-based property-based testing with detectable damage')
C('A21', [P('A21.tar', ARCH, fuzz=60), P('A21.romfs', ARCH, fuzz=60), P('A21.slow', ARCH, variant='slow')], 'Valid images with random bytes, header fields, links and sizes changed, blocks copied, images cut short, checksums repaired or not; then opened, listed, read and searched. Non-trivial: the damaged image was accepted and has more than two paths.', 'structured fuzzing under ASan/UBSan with time limits')
C('A22', [P('A22', ARCH), P('A22.slow', ARCH, variant='slow')], 'Valid images on a base file system that returns partial reads and fails one or all reads or seeks from a random point on, during registration or later. Non-trivial: the fault fired and the image has files.', 'fault injection against the known content')

C('F23', [P(x, FAT) for x in ('F23.model', 'F23.two', 'F23.image', 'F23.faults', 'F23.full')], 'Operation sequences over FatFs images kept in an instrumented in-memory file: against an in-memory model and over remounts, two volumes in turn, image creation and mounting with faults, transfers with faults in the image file, and volumes without free space. Non-trivial: at least three changes and a read; a mounted new image or a refused one; a fault after at least two changes; a filled volume.', 'stateful model-based differential and fault-injection testing')

C('L25', [P(x, LFS, variant='lfs') for x in ('L25.model', 'L25.image', 'L25.io', 'L25.faults')], 'Operation sequences on littlefs volumes, in image files kept by an instrumented in-memory file system or on a device of their own: against an in-memory model and over remounts, image creation and mounting with faults and other geometries, block transfers, and errors of littlefs or of the image file. littlefs itself is replaced by a stand-in with its documented behaviour. Non-trivial: at least three changes and a read; a mounted image or a refused one; two programmed blocks; a fault after at least two changes.', 'stateful model-based differential and fault-injection testing')

E33P = [P('E33.path', PATH), P('E33.core', CORE), P('E33.shim', SHIM), P('E33.rotate', ROT), P('E33.host', STDIO), P('E33.tar', ARCH), P('E33.romfs', ARCH), P('E33.fat', FAT), P('E33.lfs', LFS, variant='lfs')]
C('E33', E33P + [dict(p, prop=p['prop'] + '.bare', variant='bare') for p in E33P if p['prop'] in ('E33.rotate', 'E33.tar', 'E33.romfs', 'E33.lfs')], 'Operation sequences in which every other operation or registration first runs with one or all further allocations failing and is then repeated with memory, on all file systems and shims, with and without shared path buffers. Non-trivial: an allocation failure that was reported, and several successful operations.', 'stateful differential testing with injected allocation failures')

CONC = ['p_conc.cpp', 'memfs.cpp', 'coop.cpp']
CONCLFS = ['p_conclfs.cpp', 'memfs.cpp', 'coop.cpp']
C('C31', [P('C31.registry', CONC, variant='tsan'), P('C31.fs', CONC, variant='tsan'), P('C31.arch', CONC, variant='tsan'), P('C31.slow', CONC, variant='tsanslow'), P('C31.rotslow', CONC, variant='tsanslow'), P('C31.lfs', CONCLFS, variant='tsanlfs'), P('C31.lfsown', CONCLFS, variant='tsanlfsown'), P('C31.c11', CONC, variant='c11')], 'Two to four threads with generated operation sequences, run under a deterministic scheduler with up to 14 generated preemptions at lock and base file system operations, in builds for both thread libraries. Non-trivial: at least one preemption took place and every thread has two operations on average (registry: two or more changes).', 'schedule-exploring stateful testing: linearizability of the registry, differential testing against each thread alone, with race detection')
LIM = ['p_limits.cpp', 'memfs.cpp']
C('P05', [P('P05.limits', LIM, variant='clock'), P('P05.limits.wide', LIM, variant='wideclock'), P('P05.host', STDIO)], 'Trees with directories too deep for the longest path on every kind of file system below up to two random shims; every path operation with a path padded by redundant separators, "." and "existing/.." to lengths around the limits (256, 512 characters with and without the current directory and jail root) and up to 3000, names up to 280 characters; current directory and absolute paths into buffers of every size around the result. Non-trivial: two long paths, three operations of which not all are refused.', 'model-based stateful property-based testing with real contents read below the drivers')
C('E34', [P('E34.codes', ['p_codes.cpp', 'memfs.cpp'], variant='clock'), P('E34.faults', ['p_codes.cpp', 'memfs.cpp'], variant='clock'), P('E34.host', STDIO)], 'Operations on existing, missing and unreachable paths in generated trees on every kind of file system and on the host below up to two shims, with and without the read-only setting; one error of any code injected below an operation that would succeed. Non-trivial: two failures with different codes (codes, host), an operation that reports the injected error (faults).', 'model-based property-based testing of failure codes with fault injection')
C('N35', [P('N35', ['p_null.cpp', 'memfs.cpp'], variant='clock')], 'Calls of every function of the file, directory, path, registration and image interface with some or all of their required arguments missing, on every kind of file system below up to two shims, with open handles. Non-trivial: five or more different functions of more than one argument called.', 'property-based testing of calls with generated missing arguments against a no-effect oracle'),
C('I33', [P('I33.host', STDIO), P('I33.fields', ['p_info.cpp', 'memfs.cpp'], variant='clock'), P('I33.times', ['p_info.cpp', 'memfs.cpp'], variant='clock'), P('I33.names', ['p_info.cpp', 'memfs.cpp'], variant='clock')], 'Generated trees on every kind of file system below up to three random shims, every object described by stat and listings into poisoned structures, on host files with set times too; sequences of changes at generated times in several time zones on FAT; random and defined codes. Non-trivial: at least three objects and four descriptions (fields), two files and a later change (times), a defined code (names).', 'model-based property-based testing of every description against the generated tree and the announced fields')

# The same searches with 64-bit file offsets and without the path length limit
WIDE = ('P02', 'P03.join', 'P03.absolute', 'P04', 'R06.copy', 'J11', 'J12', 'T13.diff', 'T13.report', 'R14', 'R15', 'R16.persist', 'R17', 'R18', 'S09.model', 'A19', 'A20', 'A21.tar', 'A21.romfs', 'A22', 'F23.model', 'F23.image', 'L25.model', 'L25.image')
for _c in CHECKS.values(): _c['parts'] += [dict({k: v for k, v in p.items() if k != 'fuzz'}, prop=p['prop'] + '.wide', variant='wide') for p in _c['parts'] if p['prop'] in WIDE]
