"""Builds the inputs of the analyses from /repo's working tree: the crate itself (rlib), the MIR dump of
everything the probe crate reaches, and the public-signature table. Results are cached by content hash."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-Zalways-encode-mir', '-Zmir-opt-level=0', '-Coverflow-checks=off', '-Cdebug-assertions=off', '-Awarnings']

class BuildError(Exception): pass

def run(cmd, env=None, ok=True):
    e = dict(os.environ)
    if env: e.update(env)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    if ok and r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr.decode(errors='replace')[-4000:])
    return r

def src_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.rs'): out.append(os.path.join(d, f))
    return sorted(out)

def edition():
    t = open(os.path.join(REPO, 'Cargo.toml')).read()
    m = re.search(r'^edition\s*=\s*"(\d+)"', t, re.M)
    return m.group(1) if m else '2021'

def key():
    h = hashlib.sha256()
    for f in src_files() + [os.path.join(REPO, 'Cargo.toml'), os.path.join(VERIF, 'driver/main.rs'), os.path.join(VERIF, 'probe/probe.rs')]:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]

def prune(probe, err):
    """drops the probe functions the compiler rejected (a changed public signature)"""
    lines = open(probe).read().split('\n')
    bad = set()
    for l in err.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('level') != 'error': continue
        for s in d.get('spans', []):
            if s['is_primary']: bad.add(s['line_start'] - 1)
    names = []
    for b in bad:
        if b < len(lines) and lines[b].startswith('pub fn root_'):
            names.append(re.match(r'pub fn (\w+)', lines[b]).group(1)); lines[b] = ''
        else:
            return None, None
    return '\n'.join(lines), names

def build(need_mir=True):
    """-> dict with paths: dir, rlib, mir, api, dropped"""
    run(['bash', os.path.join(VERIF, 'driver/build.sh')])
    cache = os.path.join(VERIF, '.cache')
    os.makedirs(cache, exist_ok=True)
    k = key()
    out = os.path.join(cache, k)
    if not os.path.exists(os.path.join(out, 'done')):
        tmp = tempfile.mkdtemp(prefix='b', dir=cache)
        try:
            md = os.path.join(VERIF, 'driver/target/mirdump')
            ed = edition()
            run(['rustc', '+nightly', '--crate-name', 'sweep_bptree', '--edition', ed, '--crate-type', 'lib',
                 os.path.join(REPO, 'src/lib.rs'), '--out-dir', tmp, '--emit=metadata,link'] + FLAGS)
            run([md, '--crate-name', 'sweep_bptree', '--edition', ed, '--crate-type', 'lib', os.path.join(REPO, 'src/lib.rs'),
                 '--out-dir', tmp, '--emit=metadata', '-o', os.path.join(tmp, 'api.rmeta'), '-Awarnings'],
                env={'VERIF_MODE': 'api', 'VERIF_OUT': os.path.join(tmp, 'api.json')})
            probe = os.path.join(tmp, 'probe.rs')
            shutil.copy(os.path.join(VERIF, 'probe/probe.rs'), probe)
            dropped = []
            for _ in range(6):
                r = run([md, '--crate-name', 'probe', '--edition', '2021', '--crate-type', 'lib', probe,
                         '--extern', 'sweep_bptree=' + os.path.join(tmp, 'libsweep_bptree.rlib'), '--out-dir', tmp, '--error-format=json'] + FLAGS,
                        env={'VERIF_OUT': os.path.join(tmp, 'mir.json')}, ok=False)
                if r.returncode == 0 and os.path.exists(os.path.join(tmp, 'mir.json')): break
                txt, names = prune(probe, r.stderr.decode(errors='replace'))
                if not names: raise BuildError('probe does not compile\n' + r.stderr.decode(errors='replace')[-4000:])
                dropped += names
                open(probe, 'w').write(txt)
            else:
                raise BuildError('probe does not compile')
            json.dump(dropped, open(os.path.join(tmp, 'done'), 'w'))
            # keep few cache entries
            olds = sorted((os.path.getmtime(os.path.join(cache, d)), d) for d in os.listdir(cache) if not d.startswith('b') or os.path.exists(os.path.join(cache, d, 'done')))
            for _, d in olds[:-6]: shutil.rmtree(os.path.join(cache, d), ignore_errors=True)
            try: os.rename(tmp, out)
            except OSError: shutil.rmtree(tmp, ignore_errors=True)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return {'dir': out, 'rlib': os.path.join(out, 'libsweep_bptree.rlib'), 'mir': os.path.join(out, 'mir.json'),
            'api': os.path.join(out, 'api.json'), 'dropped': json.load(open(os.path.join(out, 'done')))}

if __name__ == '__main__':
    t = time.time()
    print(build(), round(time.time() - t, 1), 's')
