"""Which operations decide which property, and the parallel runner."""
import multiprocessing as mp, os, sys, time, traceback
import build, mir

TIER = os.environ.get('VERIF_TIER', 'quick')
LEVELS = {'quick': 2, 'thorough': 3}
EXACT = {'quick': 150, 'thorough': 400}     # seconds for the exact exploration of a protocol
# what a property also rests on: the augmentations of a tree are those of its content, and a search, rank or visit follows them
REST = {'C18': ('C08', 'C26'), 'C19': ('C08', 'C26')}
CONTRACTS = {'C22': {'set_iter': 'C15'}}     # operations whose contract another property's analysis takes for granted
# property -> {op: options}; an op may be given a level per tier
def plan(prop):
    import ops, iters, facade, augs, low, clones, unions, bulk, unwind, safe
    out = []
    only = os.environ.get('VERIF_OPS'); only = only.split(',') if only else None      # developer runs
    for o in ops.OPS.values():
        if (prop in o.props or any(q in o.props and not o.kw.get('also') for q in REST.get(prop, ())) or o.name in CONTRACTS.get(prop, ())) and (only is None or o.name in only):
            for case in o.kw.get('cases', (None,)): out.append((o.name, case))
    out.sort(key=lambda x: not ops.OPS[x[0]].kw.get('slow'))
    return out

_P = None
def _init(path):
    global _P
    sys.setrecursionlimit(20000)
    _P = mir.Program(path)
def _job(a):
    name, case, level, limit, end, prop = a
    import ops, iters, facade, augs, low, clones, unions, bulk, unwind, safe
    t = time.time()
    limit = max(5, min(limit, end - t))      # whatever happens, the check answers in time
    try:
        o = ops.OPS[name]
        if o.root not in _P.roots: return dict(op=name, case=case, findings=[], unknown=[('probe', None, 'the probe function no longer compiles')], exits=0, steps=0, visited=[], blocks=0, t=0)
        lv = o.kw.get('level', {}).get(TIER, level)
        if o.kw.get('joined'):
            # first over all heights, with joins; what that leaves open is decided by an exact, bounded exploration
            r = ops.Run(_P, o, None, o.kw.get('mode', 'functional'), deadline=time.time() + limit / 2, case=case).go()
            if r['findings'] or r['unknown']:
                fs = r['findings']
                x = ops.Run(_P, o, lv, o.kw.get('mode', 'functional'), deadline=min(time.time() + EXACT[TIER], max(end, time.time() + 5)), case=case, exact=True, stop=True).go()
                r['findings'] = x['findings']; r['steps'] += x['steps']; r['exits'] += x['exits']
                if not x['findings']: r['unknown'] = [(f[2], None, f'not proved: {f[0]}: {f[3]}') for f in fs] + r['unknown']
            lv = 'any'
        else: r = ops.Run(_P, o, lv, o.kw.get('mode', 'functional'), deadline=time.time() + limit, case=case).go()
        if 'C13' in o.props and prop == 'C13' and any(f[0] != 'C13' for f in r['findings']) and not o.kw.get('joined'):
            # what goes wrong with some hint and not with a hint that leads to no leaf
            x = ops.Run(_P, o, lv, o.kw.get('mode', 'functional'), deadline=time.time() + limit / 2, case=case, nohint=True).go()
            without = {(f[2], f[3]) for f in x['findings']}
            if not x['unknown']: r['findings'] += [('C13', f[1], f[2], 'a hint that leads to a leaf changes the outcome: ' + f[3], f[4]) for f in r['findings'] if f[0] != 'C13' and (f[2], f[3]) not in without]
        r['unknown'] = r['unknown'][:60]
        r['case'] = case; r['level'] = lv
    except Exception:
        r = dict(op=name, case=case, findings=[], unknown=[('engine', None, traceback.format_exc()[-600:])], exits=0, steps=0, visited=[], blocks=0)
    r['t'] = round(time.time() - t, 1)
    return r

GRACE = 45      # seconds left to the other operations once there is a violation
def relevant(prop, r):
    import ops
    out = []
    for p, op, fn, msg, sp in r['findings']:
        if p != prop and p not in REST.get(prop, ()) and CONTRACTS.get(prop, {}).get(op) != p: continue
        # where the exported function checks nothing, the call with bad arguments is the finding, however it goes wrong
        out.append((op if ops.OPS[op].kw.get('whole') else f'{op}: {fn}: {msg}', f'operation {op}, in {fn}{" at " + sp if sp else ""}: {msg}'))
    return out

def run(prop, t0, finish, known, verbose=False):
    import ops
    b = build.build()
    jobs = plan(prop)
    if not jobs:
        print('no operation decides', prop); return 2
    level = LEVELS[TIER]
    limit = 600 if TIER == 'quick' else 1500
    kn = known(prop)
    end = t0 + (760 if TIER == 'quick' else 10000)
    with mp.Pool(min(8, len(jobs)), _init, (b['mir'],)) as pool:
        res = []; it = pool.imap_unordered(_job, [(n, c, level, limit, end, prop) for n, c in jobs], chunksize=1); grace = None
        while len(res) < len(jobs):
            try: r = it.next(None if grace is None else max(0.1, grace - time.time()))
            except mp.TimeoutError: break
            res.append(r)
            if grace is None and any(k not in kn for k, t in relevant(prop, r)): grace = time.time() + GRACE
    done = {(r['op'], r.get('case')) for r in res}
    viol, und, fns, samples = [], [f'{n}: not finished when the violation was reported' for n, c in jobs if (n, c) not in done], set(), []
    ob = 0; blocks = 0
    for r in res:
        fns |= set(r['visited'])
        blocks += r['blocks']
        ob += r['exits']
        viol += relevant(prop, r)
        for u in r['unknown']: und.append(f'{r["op"]}{"/" + str(r["case"]) if r["case"] else ""}: {u[0]}: {u[2]}')
        samples.append({k: r.get(k) for k in ('op', 'case', 'level', 'exits', 'steps', 'blocks', 't')})
    if b['dropped']: und += [f'probe function {n} no longer compiles' for n in b['dropped']]
    keys = []
    seen = set()
    for k, t in viol:
        if k not in seen: seen.add(k); keys.append((k, t))
    cov = {'obligations': ob + blocks, 'discharged': ob + blocks - len(keys) - len(und), 'exit_states': ob, 'blocks_analysed': blocks,
           'operations': [r['op'] for r in res], 'functions_analysed': sorted(fns), 'undecided': und, 'samples': samples,
           'explanation': 'abstract interpretation of the MIR of each operation from the class of all well-formed trees within the stated number of levels; every node size, key order, id, hint value and position is symbolic; obligations are the access rules at each analysed block and the contract at each abstract exit state',
           'checker_cmd': f'python3 engine/check.py {prop}', 'trusted_base': ['rustc MIR', 'driver/main.rs', 'engine/models.py (models of the std functions called)'],
           'rule': 'a finding is an abstract state in which the access rule or the contract cannot hold'}
    if not res or sum(r['exits'] for r in res) == 0:
        print('nothing analysed:', und[:5]); return 2
    return finish(prop, LEVEL_OF.get(prop, 'other'), cov, keys, ASSUME, t0)

LEVEL_OF = {}
ASSUME = ['the ordering of keys is a total order consistent with Borrow (functional contracts)',
          'callbacks of user code are deterministic functions of their arguments for the augmentation contracts',
          'fewer than 2^48 entries']
