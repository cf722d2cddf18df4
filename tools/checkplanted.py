#!/usr/bin/env python3
"""Lists planted bugs whose patch no longer applies or only changes lines of this project's own fixes."""
import glob, os, re, subprocess, sys
BASE = '54d10e0'
R = '/repo'
own = {}
def mine(f):
    if f not in own:
        b = subprocess.run(['git', '-C', R, 'blame', '-s', '--abbrev=7', 'HEAD', '--', f], capture_output=True, text=True).stdout
        own[f] = [not l.startswith('^') for l in b.splitlines()]
    return own[f]
bad = 0
for d in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/../seeded/*/')):
    p = d + 'patch.diff'
    if subprocess.call(['git', '-C', R, 'apply', '--check', p]):
        print(d.split('/')[-2], 'does not apply'); bad = 1; continue
    f = None; orig = fix = adds = 0; n = 0; anchored = 0
    for l in open(p):
        if l.startswith('+++ '): f = l[6:].strip()
        elif l.startswith('--- '): pass
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            if l[1:].strip():
                if n > len(mine(f)): print(d, f, n)
                elif mine(f)[n-1]: fix += 1
                else: orig += 1
            n += 1
        elif l.startswith('+'): adds += 1
        elif l.startswith(' '): n += 1
    if orig == 0:
        print(d.split('/')[-2], 'changes', fix, 'own lines, no original ones,', adds, 'added')
        bad = 1
sys.exit(bad)
