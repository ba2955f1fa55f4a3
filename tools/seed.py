#!/usr/bin/env python3
"""Developer tool: create and confirm planted bugs under /verif/seeded from tools/seeds.py.
python3 tools/seed.py [id ...]   each is kept only when it applies, builds, passes the stable tests, and its demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
DEMO_SH = '''#!/bin/bash
# run in the repository's root: builds the program beside this file against it, and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
sweep-bptree = { path = "$repo" }
[workspace]
EOF
cp "$repo/Cargo.lock" "$d/" 2>/dev/null
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline PROFILE
'''
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['tests'])
def main():
    import seeds
    sel = sys.argv[1:]
    for s in seeds.SEEDS:
        if sel and s['id'] not in sel: continue
        d = tempfile.mkdtemp(prefix='seed-')
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
            r = d + '/r'
            p = os.path.join(r, s['file']) if 'file' in s else None
            bad = None
            for f, old, new in s.get('edits') or [(s['file'], s['old'], s['new'])]:
                q = os.path.join(r, f); t = open(q).read()
                if t.count(old) != 1: bad = f'text occurs {t.count(old)} times: {old[:60]!r}'; break
                open(q, 'w').write(t.replace(old, new))
            if bad: print(s['id'], 'BAD', bad); continue
            diff = sh('git diff', r).stdout
            sd = d + '/s'; os.mkdir(sd)
            open(sd + '/main.rs', 'w').write(s['demo'])
            open(sd + '/demo.sh', 'w').write(DEMO_SH.replace('PROFILE', s.get('profile', '')))
            env = dict(os.environ, CARGO_TARGET_DIR='/tmp/seed-target')
            b = sh('cargo test --workspace --no-fail-fast --offline 2>&1 | tail -60', r, env=env)
            fails = [l for l in b.stdout.splitlines() if 'FAILED' in l or 'error' in l[:6] or 'panicked' in l]
            if fails: print(s['id'], 'KILLED by tests:', fails[:3]); continue
            x = sh(f'bash {sd}/demo.sh', r); 
            if x.returncode == 0: print(s['id'], 'DEMO PASSES with the patch', x.stdout[-300:]); continue
            sh('git checkout -q .', r)
            y = sh(f'bash {sd}/demo.sh', r)
            if y.returncode != 0: print(s['id'], 'DEMO FAILS without the patch', y.stderr[-600:]); continue
            o = os.path.join(V, 'seeded', s['id']); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            for f in ('main.rs', 'demo.sh'): shutil.copy(f'{sd}/{f}', o)
            os.chmod(o + '/demo.sh', 0o755)
            open(o + '/patch.diff', 'w').write(diff)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
            print(s['id'], 'kept; demo with patch says:', (x.stderr or x.stdout).strip().splitlines()[-3:], flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
main()
