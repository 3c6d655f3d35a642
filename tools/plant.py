#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and writes them to seeded/.

  plant.py FILE.json [id ...]     FILE.json: [{id, property, needs, what_it_breaks, edits: [[file, old, new]...], demo: rust text}]
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
renplex = { path = "$repo" }
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" || exit 0
export CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2>"$w/err" || { cat "$w/err"; echo "demo does not build"; exit 3; }
"$w/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    specs = json.load(open(sys.argv[1])); want = set(sys.argv[2:])
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in specs:
        if want and s['id'] not in want: continue
        w = '/tmp/plant_' + s['id']
        shutil.rmtree(w, ignore_errors=True)
        sh('git -C /repo worktree prune; git clone -q /repo %s; cp /repo/Cargo.lock %s/ 2>/dev/null' % (w, w))
        d = '/tmp/plantout_' + s['id']
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.rs', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        r0 = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
        ok = True
        for f, old, new in s['edits']:
            t = open(os.path.join(w, f)).read()
            if t.count(old) != 1: print(s['id'], 'anchor count', t.count(old), repr(old)); ok = False; break
            open(os.path.join(w, f), 'w').write(t.replace(old, new))
        if not ok: continue
        diff = sh('git -C %s diff' % w).stdout
        open(d + '/patch.diff', 'w').write(diff)
        r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
        t = sh('. /opt/vp/env.sh; cd %s && CARGO_TARGET_DIR=%s/target cargo test --no-fail-fast --offline 2>&1' % (w, w))
        names = [x.split('::', 2)[-1].split(' - ')[-1].split(' #')[0] for x in base['stable']]
        okt = [l for l in t.stdout.splitlines() if l.rstrip().endswith('... ok')]
        bad = [n for n in names if not any(n in l for l in okt)]
        good = r0.returncode == 0 and r1.returncode not in (0, 3) and not bad
        print(s['id'], 'KEEP' if good else 'DROP', 'demo clean', r0.returncode, 'patched', r1.returncode, (r1.stderr or r1.stdout).strip().splitlines()[:3], bad[:3])
        if not good: print(r0.stdout[-600:], r0.stderr[-600:], r1.stdout[-300:])
        if good:
            dst = os.path.join(V, 'seeded', s['id']); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(d, ignore_errors=True)
main()
