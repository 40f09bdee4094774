#!/usr/bin/env python3
"""mutate.py N SEED [FILE...]: makes random small changes to sources of VERIF_REPO, one at a time, runs the
checks that should notice, and lists the changes none of them noticed (for review by hand; many are equivalent).
Run from a scratch copy of /verif; writes mut.log there."""
import sys, os, re, random, subprocess, concurrent.futures, importlib.machinery, importlib.util, json, hashlib, threading, shutil
V = os.getcwd(); sys.path.insert(0, V); sys.dont_write_bytecode = True
ld = importlib.machinery.SourceFileLoader('chk', V + '/check'); spec = importlib.util.spec_from_loader('chk', ld); chk = importlib.util.module_from_spec(spec); sys.argv, argv = ['check'], sys.argv; ld.exec_module(chk)
REPO = chk.REPO
MAP = {
 'evfs_path.c': 'P01 P02 P03.join P03.absolute P04 E33.path P05.limits', 'evfs.c': 'R05 R06.copy R06.default R07.find R08 E33.core C31.registry E34.codes P05.limits', 'util/glob.c': 'R07.glob R07.raw', 'util/range_strings.c': 'U27.append U27.view U27.token U28.text P03.join',
 'util/dhash.c': 'U26', 'util/search.c': 'U29', 'util/intmath.c': 'U28.text U28.parts U28.int U28.curve', 'util/getopt_r.c': 'U30.parse U30.usage', 'util/bsd_string.c': 'U32.copy',
 'shim_jail.c': 'J11 J12 E33.shim P05.limits E34.codes I33.fields', 'shim_trace.c': 'T13.diff T13.report E33.shim P05.limits E34.faults', 'shim_rotate.c': 'R14 R15 R16.persist R16.malformed R17 R18 E33.rotate P05.limits E34.codes I33.fields',
 'stdio_fs.c': 'S09.model S09.full S10.stdio E33.host S09.faults E34.host I33.host P05.host', 'tar_fs.c': 'A19 A21.tar A22 E33.tar A24.tar P05.limits E34.codes I33.fields', 'tar_iter.c': 'A19 A19.iter A21.tar A22 E33.tar A24.tar I33.fields', 'tar_iter_rsrc.c': 'A19 A19.iter A21.tar E33.tar A24.tar I33.fields', 'tar_rsrc_fs.c': 'A19 A21.tar E33.tar A24.tar P05.limits E34.codes I33.fields',
 'romfs_fs.c': 'A20 A20.slow A21.romfs A21.slow A22 A22.slow E33.romfs A24.romfs A24.slow P05.limits E34.codes I33.fields', 'romfs_common.c': 'A20 A20.slow A21.romfs A21.slow A22 A22.slow E33.romfs A24.romfs A24.slow P05.limits E34.codes',
 'fatfs_fs.c': 'F23.model F23.faults F23.full S10.fat E33.fat F23.two P05.limits E34.codes E34.faults I33.times I33.names', 'fatfs_image.c': 'F23.image F23.model F23.faults E33.fat F23.two E34.faults', 'littlefs_fs.c': 'L25.model L25.faults S10.lfs E33.lfs P05.limits E34.codes E34.faults I33.fields', 'littlefs_image.c': 'L25.image L25.io L25.faults E33.lfs E34.faults L25.model', }
def sites(path):
    out = []; depth = 0; comment = False
    for n, l in enumerate(open(path).read().split('\n')):
        s = l
        if comment:
            if '*/' in s: comment = False
            continue
        if s.strip().startswith('/*'):
            if '*/' not in s: comment = True
            continue
        code = re.sub(r'//.*', '', s); code = re.sub(r'/\*.*?\*/', lambda m: ' ' * len(m.group()), code)
        d0 = depth; depth += code.count('{') - code.count('}')
        if d0 <= 0 or code.strip().startswith('#') or not code.strip() or 'THROW' in code and False: continue
        strs = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
        ins = lambda i: any(a <= i < b for a, b in strs)
        def add(a, b, new, kind):
            if not ins(a): out.append((n, l[:a] + new + l[b:], kind))
        for pat, reps in ((r'==', ['!=']), (r'!=', ['==']), (r'(?<![<\-])<(?![<=])', ['<=', '>=']), (r'(?<![>\-])>(?![>=])', ['>=', '<=']), (r'<=', ['<', '>']), (r'>=', ['>', '<']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<![+\w(,=]) \+ (?!\+)', [' - ']), (r'(?<=[\w)\]]) ?\+ ?(?=[\w(])', [' - ']), (r'(?<=[\w)\]]) ?- ?(?=[\w(])', [' + ']), (r'\+=', ['-=', '=']), (r'-=', ['+=', '=']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<=\()!(?=\w)', ['']), (r'(?<=[&|] )!(?=\w)', ['']), (r'\|=', ['&=', '=']), (r'(?<=\w) & (?=[~\w])', [' | ']), (r'\+\+', ['--']), (r'--', ['++']), (r'EVFS_ERR_\w+', ['EVFS_OK', 'EVFS_ERR_DISABLED']), (r'EVFS_OK\b', ['EVFS_ERR'])):
            for m in re.finditer(pat, code):
                for r in reps: add(m.start(), m.end(), r, pat + ' -> ' + r)
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            v = int(m.group(1))
            for r in {v + 1, max(v - 1, 0)} - {v}: add(m.start(1), m.end(1), str(r), f'{v} -> {r}')
        m = re.match(r'(\s*(?:\} else )?if\s*\()(.*)(\)[^()]*)$', code)
        if m:
            add(m.start(2), m.end(2), '0 && (' + m.group(2) + ')', 'if 0'); add(m.start(2), m.end(2), '1 || (' + m.group(2) + ')', 'if 1')
        if re.match(r'\s*[\w\->.\[\]*()&]+\s*([-+|&]?=|\()[^=].*;\s*$', code) and not re.match(r'\s*(return|if|for|while|else)\b', code): out.append((n, re.match(r'\s*', l).group() + ';', 'delete'))
        if re.match(r'\s*(break|continue);', code): out.append((n, ';', 'delete'))
    return out
LOCK = threading.Lock(); LOG = open(V + '/mut.log', 'a')
def log(*a):
    with LOCK: print(*a, file=LOG, flush=True)
BINS = {}
def prep(parts):
    for p in parts:
        if p in BINS: continue
        cid, part = chk.owner(p); exe = chk.build_bin(cid, part); vn = part.get('variant', 'none'); lib, objs = chk.build_lib(vn)
        hobjs = [os.path.join(os.path.dirname(exe), f) for f in sorted(os.listdir(os.path.dirname(exe))) if f.endswith('.o')]
        BINS[p] = dict(exe=exe, vn=vn, lib=lib, objs=objs, hobjs=hobjs, part=part, cid=cid)
def build(src, mutated, b, d):
    """link part b's harness with the mutated source"""
    tag = b['vn']; o = f'{d}/{tag}.o'
    if not os.path.exists(o):
        v = chk.VARIANTS[b['vn']]; inc = b['lib'] + '/include'
        incs = ['-I' + os.path.dirname(src), '-I' + V + '/mock', '-I' + inc, '-I' + inc + '/evfs', '-I' + REPO + '/src', '-I' + REPO + '/libraries/fatfs/source', '-I' + REPO + '/libraries/littlefs']
        r = subprocess.run([chk.CC, '-std=gnu11'] + chk.lib_flags(b['vn'], False) + incs + ['-c', mutated, '-o', o], capture_output=True)
        if r.returncode: return None
        subprocess.run(['objcopy', '--redefine-syms=' + b['lib'] + '/syms', o], check=True)
    exe = f'{d}/' + hashlib.md5((tag + ''.join(b['hobjs'])).encode()).hexdigest()
    if not os.path.exists(exe):
        base = os.path.basename(src)[:-2] + '.o'; objs = [o if re.sub(r'^\d+_', '', os.path.basename(x)) == base else x for x in b['objs']]
        v = chk.VARIANTS[b['vn']]; san = chk.TSAN if v.get('tsan') else chk.SAN
        a = exe + '.a'; subprocess.run(['ar', 'rcs', a] + objs, check=True)
        r = subprocess.run([chk.CXX] + list(san) + b['hobjs'] + [a, '-lpthread', '-o', exe], capture_output=True)
        os.unlink(a)
        if r.returncode: return None
    return exe
def plain(src, path):
    inc = BINS[next(iter(BINS))]['lib'] + '/include'; o = path + '.plain.o'
    r = subprocess.run([chk.CC, '-std=gnu11', '-O2', '-w', '-D_GNU_SOURCE', '-funsigned-char', '-I' + os.path.dirname(src), '-I' + V + '/mock', '-I' + inc, '-I' + inc + '/evfs', '-I' + REPO + '/src', '-I' + REPO + '/libraries/fatfs/source', '-I' + REPO + '/libraries/littlefs', '-c', path, '-o', o], capture_output=True)
    return open(o, 'rb').read() if r.returncode == 0 else None
def one(job):
    k, f, n, new, kind = job; src = REPO + '/src/' + f; lines = open(src).read().split('\n'); old = lines[n]; lines[n] = new
    d = f'{V}/build/mut-{k}'; os.makedirs(d, exist_ok=True)
    try:
        mutated = f'{d}/' + os.path.basename(f); open(mutated, 'w').write('\n'.join(lines)); base = f'{d}/base_' + os.path.basename(f); shutil.copy(src, base)
        p = plain(src, mutated)
        if p is None: return 'nocompile'
        q = plain(src, base); s = lambda x: x.replace(b'base_' + os.path.basename(f).encode(), b'')
        def text(o): return subprocess.run(['objdump', '-d', '-r', '-s', '-j', '.text', '-j', '.rodata', '-j', '.data', '--no-show-raw-insn', o], capture_output=True, text=True).stdout.split('\n', 3)[-1]
        if text(mutated + '.plain.o') == text(base + '.plain.o'): return 'equal'
        env = dict(chk.ENV, PBT_TMP=d, PBT_SHM=os.environ.get('PBT_SHM', d))
        for t in MAP[f].split():
            b = BINS[t]; exe = build(src, mutated, b, d)
            if not exe: return 'nocompile'
            r = subprocess.run([exe, '--prop', t, '--seed', '1', '--tier', 'quick', '--tmp', d, '--out', d + '/out', '--save', d + '/rep', '--time', os.environ.get('PARTTIME', '12'), '--workers', '2'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0: return 'caught ' + t
        log(f'SURVIVED {f}:{n+1} [{kind}]\n  - {old.strip()}\n  + {new.strip()}'); return 'survived'
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    N, seed, files = int(argv[1]), int(argv[2]), argv[3:] or list(MAP)
    os.makedirs(V + '/build', exist_ok=True); rng = random.Random(seed); res = {}
    with chk.Shm():
        os.environ['PBT_SHM'] = chk.ENV['PBT_SHM']
        for f in files:
            prep(MAP[f].split()); ss = sites(REPO + '/src/' + f); rng.shuffle(ss); jobs = [(f'{os.path.basename(f)}-{i}', f) + s for i, s in enumerate(ss[:N])]
            cnt = {}
            with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('LANES', '4'))) as ex:
                for r in ex.map(one, jobs): cnt[r] = cnt.get(r, 0) + 1
            log(f'== {f}: {len(ss)} sites, {cnt}')
if __name__ == '__main__': main()
