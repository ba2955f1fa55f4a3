#!/usr/bin/env python3
"""python3 engine/check.py C01 — decides one property on /repo's working tree.
Exit 0: no violation found (known findings are printed); exit 1: VIOLATION; anything else: error."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def known(prop):
    out = {}
    p = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == prop: out[e['key']] = e
    return out

def finish(prop, level, cov, violations, assumptions, t0):
    """violations: [(key, text)]"""
    kn = known(prop)
    new = [(k, t) for k, t in violations if k not in kn]
    old = [k for k, t in violations if k in kn]
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    EV = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in sorted(set(old)):
        print(f'KNOWN-FINDING: property={prop} {k}: {kn[k]["what"]}')
    for n in cov.get('undecided', [])[:20]: print('undecided:', n)
    if new:
        rep = os.path.join(EV, f'{prop}.violation.txt')
        with open(rep, 'w') as f:
            for k, t in new: f.write(f'[{k}]\n{t}\n\n')
        seen = set()
        for k, t in new:
            if k in seen: continue
            seen.add(k)
            print(f'  {k}: {t[:600]}')
        print(f'VIOLATION property={prop} replay={rep}')
        return 1
    print(f'{prop}: held; obligations={cov.get("obligations")} discharged={cov.get("discharged")} undecided={len(cov.get("undecided", []))} ({ev["wall_s"]} s)')
    return 0

def c14(prop, t0):
    import c14
    r = c14.check(build.build())
    if r['witnesses'] < 250 or r['signatures'] < 150:
        print('too few witnesses or signatures analysed'); return 2
    cov = {'obligations': r['obligations'], 'discharged': r['discharged'], 'checker_cmd': 'python3 engine/check.py C14',
           'trusted_base': ['rustc type checker and borrow checker', 'driver/main.rs (api mode)'],
           'witness_programs': r['witnesses'], 'signatures_scanned': r['signatures'], 'undecided': r['notes'], 'samples': r['samples'],
           'rule': 'each witness must be rejected with an expected error code while its twin is accepted; no exported safe signature yields &mut to a type exposing a key'}
    return finish(prop, 'proof', cov, r['violations'], ['the witnesses cover each container, iterator and accessor; unsafe client code is out of scope'], t0)

def main():
    prop = sys.argv[1]
    t0 = time.time()
    if prop == 'C14': return c14(prop, t0)
    import props
    return props.run(prop, t0, finish, known)

if __name__ == '__main__':
    try: rc = main()
    except build.BuildError as e:
        print('build error:', e); rc = 2
    sys.exit(rc)
