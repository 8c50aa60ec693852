#!/usr/bin/env python3
import json, subprocess, sys
sys.path.insert(0, '/verif/tools')
import checks
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
hooks = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H %s', '--reverse'], text=True).splitlines()
hooks = [h.split()[0] for h in hooks if 'verif feature:' in h]
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'cargo feature "verif"', 'enable': 'harness/Cargo.toml depends on /repo with features = ["verif"]', 'source_commits': hooks},
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in checks.CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'./check {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json', 'technique': checks.TECH[i], 'level': checks.CHECKS[i][1], 'level_note': checks.NOTE[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
