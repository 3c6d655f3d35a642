#!/usr/bin/env python3
"""Runs the check of each planted bug's property on a scratch copy with the bug applied.  trybugs.py [id ...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    w = '/tmp/trybug_repo'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    shutil.copy('/repo/Cargo.lock', w)
    if subprocess.run(['git', '-C', w, 'apply', V + '/seeded/%s/patch.diff' % i]).returncode: print(i, 'DOES NOT APPLY'); continue
    p = json.load(open(V + '/seeded/%s/meta.json' % i))['property']
    r = subprocess.run(['python3', V + '/check.py', p, '--repo', w], capture_output=True, text=True)
    out = r.stdout.strip().splitlines()
    obl = [l for l in out if l.startswith('failed obligation')]
    inp = [l for l in out if l.startswith('failing input')]
    notes = [l for l in out if l.startswith('note')]
    print('%-28s %s exit %d %s | proof: %s | input: %s %s' % (i, p, r.returncode, 'CAUGHT' if r.returncode == 1 and ('VIOLATION property=%s ' % p) in r.stdout else 'MISSED', '; '.join(sorted(set(obl)))[:160] or '-', inp[0][:90] if inp else '-', notes[:3]), flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-800:])
    shutil.rmtree(w, ignore_errors=True)
