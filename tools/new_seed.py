#!/usr/bin/env python3
"""new_seed.py ID PROPERTY FILE <<< JSON {"edits":[[file,old,new]...],"needs":..,"breaks":..,"main":demo source}: writes /verif/seeded/ID"""
import json, os, shutil, subprocess, sys, tempfile
def make(id, prop, edits, needs, breaks, main=None, demo=None):
    d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, a, b in edits:
        p = f'{w}/r/{f}'; s = open(p).read(); assert s.count(a) == 1, (id, f, a, s.count(a)); open(p, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']); open(d + '/patch.diff', 'wb').write(diff)
    shutil.rmtree(w)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if demo: open(d + '/demo.sh', 'w').write(demo)
    else:
        sk = '/verif/tools/demo_skel/'
        for n in ('demo.sh', 'Cargo.toml.in', 'Cargo.lock'): shutil.copy(sk + n, d + '/' + n)
        open(d + '/main.rs', 'w').write(main)
