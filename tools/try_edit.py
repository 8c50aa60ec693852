#!/usr/bin/env python3
"""try_edit(edits): which stable tests fail with these edits (in a scratch copy)?"""
import json, os, shutil, subprocess, tempfile
def try_edit(edits):
    w = '/tmp/tryedit'
    if not os.path.isdir(w): subprocess.check_call(['cp', '-a', '/repo', w])
    subprocess.check_call('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=w)
    for f, a, b in edits:
        p = f'{w}/{f}'; s = open(p).read(); assert s.count(a) == 1, (f, a, s.count(a)); open(p, 'w').write(s.replace(a, b))
    r = subprocess.run('. /opt/vp/env.sh; cd /tmp/tryedit; cargo test --offline --no-fail-fast 2>&1', shell=True, executable='/bin/bash', capture_output=True, text=True)
    bad = sorted({l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('FAILED') and not l.startswith('test result')})
    if 'could not compile' in r.stdout: bad.append('NO BUILD ' + r.stdout[-1500:])
    return [b for b in bad if b != 'get_valid_moves::it_should_work_for_double_roll']
