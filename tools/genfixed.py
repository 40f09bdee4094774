#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known_findings.txt from the fix commits of the repository (argument: its path)."""
import subprocess, sys, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = sys.argv[1] if len(sys.argv) > 1 else '/repo'
by = {}
def m(prop, hashes):
    for h in hashes.split(): by[h] = prop
m('P01', '34d1e1d 743ce4c 91499bf'); m('P02', 'e39eeee 4fe769d'); m('P03', 'a187c77'); m('P04', '54ac2c6 250e891'); m('U27', 'c14643c d1ede3b e7042fb f6daaa6')
m('R06', '113fab0 4ff5b6b'); m('R07', '96a68d7 609ed85'); m('U26', 'a00fe86 33c3847 0aab62b ad979dd d69a33b')
m('J11', '448993a 7f4363c c8c9e90 1923f12 d5df8a0'); m('T13', '42912fc e24f049'); m('R18', 'd38b308')
m('R14', '5d424b2 581d806 e84b061'); m('R15', 'e5c8df0 b4c9e58'); m('R17', 'a947bda a39a710 20c9b27 afcf8ff e88854e 1201e3b 699000b 7447470 9f933cc 1d35275'); m('R16', '5da5716 c582bbc 64dd6a4 f91dbc3 139927a d881bcf db2b4f5')
m('S09', 'b8f3e19 ca26d62 4656262 9b78487 5e05646 41c2bce 16b72eb bee5b73 808197d af04589 aab083f'); m('S10', '0f0dde4 534005d')
m('A21', '5e8da74 a435556 85b2a4d d33aa9c ac63212'); m('A19', '0e3e04d 729f896 e1e74ed 84f7cf8 de4601a bed4709 33a6ebc b9f921f b4bc91d'); m('A22', 'd0706a2 590511f 6b72001 e2c389b 438a655'); m('A20', '27a48e4 1dbbc5b 13ea0f3 b5bb8b9 6afe6a2 6eb72a3')
m('F23', '2725622 0dee1bd 297995f c85397b 079b3c7 84392ef 908265a d1a0539 958438e c46a239 7faef0d d5c17ac a4d5f6e')
m('C31', 'f3bd596 6a5895b 15fe5be 4e03ef1 ad9516e 69bf070 2a10ae0'); m('L25', 'c6026ac 813d513 2c7d38c 1b3a8c0 5762ab7 42866bd 357907b 614322f 71995fe 80f6dfb')
m('E33', 'eae41a0 9aeef9c 5949f28 41c0bb4 067feff 6d88fc5')
m('U28', 'fd63bbd 679a82e 59e5ae8 93d170d 5b54d9b 47f7ede b3ce089 def7ade 5b9bbcd ff6c7c9'); m('U32', '2150fae 57c14fd'); m('U30', 'f4772e6 755e3cd 56eb15f 9151e67 871aaf2')
m('R05', '03a6c38'); m('U27', '39bc93d'); m('I33', '313d787 976742c a3d5882')
m('R08', '36d3bfb'); m('A22', 'de6e087'); m('A21', '4e566e9 8096633 4d8e279'); m('P05', '712daff d54ebdb 0dc120d'); m('U27', '3f9b41e d80af9f'); m('P02', 'af03ad4'); m('R17', 'e4a3516'); m('N35', '7b18a0c 85910dd 223639c 77fbfde 1276d5c')
extra = os.path.join(V, 'tools/fixed_extra.txt')
if os.path.exists(extra):
    for l in open(extra):
        if l.strip(): a, b = l.split(); by[a] = b
head = [l for l in open(V + '/known_findings.txt').read().split('\n') if l.strip() and not l.startswith('fixed:')]
out = []; miss = []
for l in reversed(subprocess.run(['git', '-C', R, 'log', '--format=%h %s'], capture_output=True, text=True).stdout.strip().split('\n')):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: ') or not re.match('[0-9a-f]{7}$', h): continue
    if h not in by: miss.append(l); continue
    out.append(f'fixed: property={by[h]} {h} {s[5:]}')
open(V + '/known_findings.txt', 'w').write('\n'.join(head + out) + '\n')
print(len(out), 'fixed;', 'unmapped:', miss)
