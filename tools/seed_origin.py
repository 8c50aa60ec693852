#!/usr/bin/env python3
"""Which planted changes touch no line of the original repository (base commit)?"""
import glob, re, subprocess
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
blame = {}
def orig(f, n):
    if f not in blame:
        o = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '--abbrev=40', 'HEAD', '--', f], text=True).splitlines()
        blame[f] = [l.lstrip('^')[:39] == base[:39] for l in o]
    return blame[f][n - 1]
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f = None; ok = False; minus = 0
    for l in open(p):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            minus += 1
            if orig(f, n) and l[1:].strip() and not l[1:].strip().startswith('//'): ok = True
            n += 1
        elif l.startswith('+'): pass
        else: n += 1
    if not ok: print(p.split('/')[3], 'removes', minus, 'lines, none original')
