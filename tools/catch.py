#!/usr/bin/env python3
"""Developer tool: which planted bugs does the check of their property catch?  python3 tools/catch.py [id ...] [--prop C05]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(i, prop=None):
    d = tempfile.mkdtemp(prefix='catch-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        sd = os.path.join(V, 'seeded', i)
        subprocess.run(['git', 'apply', sd + '/patch.diff'], cwd=d + '/r', check=True)
        p = prop or json.load(open(sd + '/meta.json'))['property']
        e = dict(os.environ, VERIF_REPO=d + '/r', VERIF_EVID=d)
        r = subprocess.run([sys.executable, os.path.join(V, 'engine/check.py'), p], capture_output=True, text=True, env=e)
        o = (r.stdout + r.stderr).strip().splitlines()
        return p, r.returncode, [x[:260] for x in o if x.strip()][:3] if r.returncode == 1 else o[-3:]
    finally: shutil.rmtree(d, ignore_errors=True)
a = sys.argv[1:]; prop = None
if '--prop' in a: k = a.index('--prop'); prop = a[k + 1]; del a[k:k + 2]
for i in a or sorted(os.listdir(os.path.join(V, 'seeded'))):
    p, rc, o = run(i, prop)
    print(f'{i} {p}: {"CAUGHT" if rc == 1 else "missed (%d)" % rc}'); print('   ' + '\n   '.join(o), flush=True)
