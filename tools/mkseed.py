#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: makes and confirms planted bugs.  SPEC defines SEEDS: dicts with id, property,
edits [(file, old, new)], demo (C source), needs, breaks, optional defines/libs."""
import json, os, shutil, subprocess, sys, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds the demonstration against the sources in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
mkdir -p "$T/inc/evfs" "$T/scratch"
[ -f "$R/include/evfs/evfs_build_config.h" ] || touch "$T/inc/evfs/evfs_build_config.h"
SRC=$(ls "$R"/src/*.c "$R"/src/util/*.c%(nolfs)s)
F="-O1 -g -w -funsigned-char -funsigned-bitfields -fno-common %(defs)s -I$D -I$T/inc -I$R/include -I$R/include/evfs -I$R/src -I$R/libraries/fatfs/source"
%(build)s
cd "$T/scratch" && timeout 120 "$T/demo"
'''
FILES = '"$D/demo.c" $SRC "$R/libraries/fatfs/source/ff.c" "$R/libraries/fatfs/source/ffunicode.c"'
BUILD = 'gcc -std=gnu11 -Werror=implicit-function-declaration $F ' + FILES + ' %(libs)s -o "$T/demo" || exit 98'
LFSBUILD = ('(cd "$T" && gcc -std=gnu11 -Werror=implicit-function-declaration -c $F ' + FILES + r""" && echo '#include "lfs_mock.h"' > lfs_mock.cpp && g++ -std=gnu++17 -c $F lfs_mock.cpp && g++ *.o %(libs)s -o demo) || exit 98""")
def sh(cmd, cwd, timeout=1000):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def main():
    spec = runpy.run_path(sys.argv[1])['SEEDS']; want = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for s in spec:
        if want and s['id'] not in want: continue
        d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        ok = True
        try:
            for f, old, new in s['edits']:
                p = '/repo/' + f; t = open(p).read()
                if t.count(old) != 1: print(s['id'], 'edit matches', t.count(old), 'times in', f); ok = False; break
                open(p, 'w').write(t.replace(old, new))
            if not ok: continue
            open(d + '/patch.diff', 'w').write(sh('git diff', '/repo').stdout)
            open(d + '/demo.c', 'w').write(s['demo'])
            if s.get('lfs'): [shutil.copy(f'{V}/mock/{x}', d) for x in ('lfs.h', 'lfs_mock.h')]
            open(d + '/demo.sh', 'w').write(DEMO.replace('%(build)s', LFSBUILD if s.get('lfs') else BUILD) % dict(defs=s.get('defs', '-DUSE_PTHREADS' if s.get('threads') else ''), libs=s.get('libs', '-lpthread'), nolfs='' if s.get('lfs') else ' | grep -v littlefs'))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            b = sh('bash /opt/vp/build.sh', '/repo'); 
            if b.returncode: print(s['id'], 'does not build', b.stdout[-800:]); ok = False; continue
            sh('bash /opt/vp/test.sh /tmp/seedtest.json', '/repo'); t = json.load(open('/tmp/seedtest.json'))
            passed = set(t['passed'])
            miss = [x for x in base if x not in passed]
            if miss: print(s['id'], 'fails tests', miss[:5]); ok = False; continue
            r = sh(d + '/demo.sh', '/repo')
            if r.returncode in (0, 98, 99): print(s['id'], 'demo rc', r.returncode, 'with the bug', r.stdout[-800:]); ok = False; continue
            bug_rc = r.returncode
        finally:
            sh('git checkout -- .', '/repo')
        r = sh(d + '/demo.sh', '/repo')
        if r.returncode: print(s['id'], 'demo fails on the clean tree', r.returncode, r.stdout[-800:]); ok = False; continue
        print(s['id'], 'confirmed (demo rc', bug_rc, ')', flush=True)
    sh('bash /opt/vp/build.sh', '/repo')
main()
