#!/usr/bin/env python3
"""Mutation lab: lab.py FILE [ID...] [-j N]. FILE defines M = [(id, 'C01 C02', [(file, old, new)...])...].
Every change is applied to a private copy of /repo that is mounted over /repo in a namespace of its own
(with a copy of /verif over /verif), tested with the stable tests and then judged by the named checks."""
import os, queue, re, subprocess, sys, threading, time
L = os.environ.get('LAB', '/tmp/lab')
INNER = r'''
mount --bind %(w)s/repo /repo && mount --bind %(w)s/verif /verif || exit 9
. /opt/vp/env.sh; cd /repo
bad=$(cargo test --offline --no-fail-fast 2>&1 | grep -E '^test .*FAILED|could not compile' | grep -v '^test result\|double_roll' | head -4)
[ -n "$bad" ] && { echo "UNFIT $bad"; exit 0; }
cd /verif
for c in %(c)s; do timeout 900 ./check $c > %(w)s.out 2>&1; r=$?; echo "$c exit $r $(grep -m1 VIOLATION %(w)s.out | cut -c1-50) $(grep -v VIOLATION %(w)s.out | head -1 | cut -c1-110)"; done
'''
def worker(k, q, log):
    w = f'{L}/{k}'; os.makedirs(w, exist_ok=True)
    if not os.path.isdir(w + '/repo'): subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    subprocess.check_call(f'cd {w}/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True)
    subprocess.check_call(f'mkdir -p {w}/verif && cp -a /verif/check /verif/harness /verif/spec /verif/tools /verif/known_findings.json /verif/MANIFEST.json /verif/properties.jsonl {w}/verif/ && mkdir -p {w}/verif/evidence {w}/verif/replays', shell=True)
    while True:
        try: id, props, edits = q.get_nowait()
        except queue.Empty: return
        subprocess.check_call(f'git -C {w}/repo checkout -q -- .', shell=True)
        try:
            for f, a, b in edits:
                p = f'{w}/repo/{f}'; s = open(p).read()
                if s.count(a) != 1: raise ValueError(f'{f}: {s.count(a)} places for {a!r}')
                open(p, 'w').write(s.replace(a, b))
        except ValueError as e:
            log(f'{id}: BAD EDIT {e}'); continue
        t = time.time()
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', INNER % dict(w=w, c=props, k=k)], capture_output=True, text=True)
        log(f'{id} [{time.time() - t:.0f}s]: ' + ' | '.join(r.stdout.strip().splitlines()) + r.stderr[-200:])
    subprocess.check_call(f'git -C {w}/repo checkout -q -- .', shell=True)
def main():
    a = sys.argv[1:]; n = 3
    if '-j' in a: i = a.index('-j'); n = int(a[i + 1]); del a[i:i + 2]
    ns = {}; exec(open(a[0]).read(), ns)
    q = queue.Queue()
    for m in ns['M']:
        if not a[1:] or m[0] in a[1:]: q.put(m)
    lock = threading.Lock()
    def log(s):
        with lock: print(s, flush=True)
    ts = [threading.Thread(target=worker, args=(k, q, log)) for k in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
