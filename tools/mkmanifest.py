#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, contracts/props.json and tools/na.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
own = json.load(open(V + '/contracts/props.json'))
na = json.load(open(V + '/tools/na.json'))
checks = []
for p in props:
    i = p['id']
    if i not in own or i in na:
        assert i in na, i
        continue
    s = own[i]
    note = s.get('note', '')
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification with Verus of the functions extracted from /repo/src on every run (a generated-input run of the compiled crate looks for a failing input)',
        'level': 'proof',
        'level_note': ('%d functions of the property and the functions under contract they call are verified for all inputs. ' % len(s['own'])) + note,
        'theorems': s['own'],
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()],
     'notes': 'See DESIGN.md. Generated by tools/mkmanifest.py.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
