"""C14: type-level witnesses. Each witness is a small client program that violates a sharing or borrowing
rule and must be rejected by the compiler with one of the expected error codes; a twin differing only in
the offending part must be accepted. Plus a rule over every exported signature (driver, api mode)."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

PRE = r'''
#![allow(unused, dead_code)]
use std::marker::PhantomData; use std::cmp::Ordering; use std::cell::Cell; use std::sync::MutexGuard;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, NodeStore, NodeStoreVec, Key};
use sweep_bptree::augment::{Augmentation, count::Count, group::GroupCount};
use sweep_bptree::tree::{Cursor, Iter, IntoIter, LeafNode, InnerNode};
macro_rules! ty { ($n:ident, $m:ty) => {
  #[derive(Default)] pub struct $n(PhantomData<$m>, u8);
  impl Clone for $n { fn clone(&self) -> Self { loop {} } }
  impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { loop {} } } impl Eq for $n {}
  impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { loop {} } }
  impl Ord for $n { fn cmp(&self, o: &Self) -> Ordering { loop {} } }
  impl<K: Key, V> Augmentation<K, V> for $n { fn from_inner(k: &[K], a: &[Self]) -> Self { loop {} } fn from_leaf(k: &[K], v: &[V]) -> Self { loop {} } }
} }
ty!(Good, u8); ty!(NoSend, MutexGuard<'static, u8>); ty!(NoSync, Cell<u8>); ty!(NoBoth, *const u8);
pub type St<K, V, A> = NodeStoreVec<K, V, A>;
pub type Tree<K, V, A> = BPlusTree<NodeStoreVec<K, V, A>>;
pub type Map<K, V, A> = BPlusTreeMap<K, V, A>;
pub type Set<K> = BPlusTreeSet<K>;
fn send<T: Send>() {} fn sync<T: Sync>() {} fn send_v<T: Send>(t: T) {} fn sync_v<T: Sync>(t: T) {}
type S = NodeStoreVec<String, String>;
fn tree() -> BPlusTree<S> { loop {} } fn map() -> BPlusTreeMap<String, String> { loop {} } fn set() -> BPlusTreeSet<String> { loop {} }
fn use_<T>(t: T) {} fn k() -> String { loop {} }
struct Q;
'''

def witnesses():
    """(name, failing body, twin body, expected codes)"""
    w = []
    T = 'E0277'
    own = {'tree': ('Tree<{K},{V},{A}>', 'KVA'), 'store': ('St<{K},{V},{A}>', 'KVA'), 'map': ('Map<{K},{V},{A}>', 'KVA'), 'set': ('Set<{K}>', 'K'),
           'tree IntoIter': ('IntoIter<St<{K},{V},{A}>>', 'KVA'), 'set IntoIter': ('sweep_bptree::iter::IntoIter<{K}>', 'K'),
           'leaf node': ('LeafNode<{K},{V}>', 'KV'), 'inner node': ('InnerNode<{K},{A}>', 'KA'), 'cursor': ('Cursor<{K}>', 'K')}
    bor = {'tree Iter': ("Iter<'static,St<{K},{V},{A}>>", 'KVA'), 'set Iter': ("sweep_bptree::iter::Iter<'static,{K}>", 'K'), 'set Union': ("sweep_bptree::iter::Union<'static,{K}>", 'K')}
    def inst(t, p, bad):
        d = {'K': 'Good', 'V': 'Good', 'A': 'Good'}
        if p: d[p] = bad
        return t.format(**d)
    pn = {'K': 'key', 'V': 'value', 'A': 'augmentation'}
    for n, (t, ps) in own.items():
        for p in ps:
            for tr, bad in (('send', 'NoSend'), ('send', 'NoBoth'), ('sync', 'NoSync'), ('sync', 'NoBoth')):
                w.append((f'{n} is not {tr.title()} when its {pn[p]} is {bad}', f'fn w() {{ {tr}::<{inst(t, p, bad)}>(); }}', f'fn w() {{ {tr}::<{inst(t, None, None)}>(); }}', [T]))
    for n, (t, ps) in bor.items():
        for p in ps:
            # a borrowed iterator hands out & references: sending or sharing it needs Sync content
            for tr, bad in (('send', 'NoSync'), ('send', 'NoBoth'), ('sync', 'NoSync'), ('sync', 'NoBoth')):
                w.append((f'{n} is not {tr.title()} when its {pn[p]} is {bad}', f'fn w() {{ {tr}::<{inst(t, p, bad)}>(); }}', f'fn w() {{ {tr}::<{inst(t, None, None)}>(); }}', [T]))
    for p in 'KVA':
        for tr in ('send', 'sync'):
            mk = lambda ty: f"fn w(m: &'static {ty}) {{ {tr}_v(m.iter()); }}"
            w.append((f'map iter is not {tr.title()} when its {pn[p]} is NoSync', mk(inst('Map<{K},{V},{A}>', p, 'NoSync')), mk(inst('Map<{K},{V},{A}>', None, None)), [T]))
    B = ['E0499', 'E0502', 'E0505', 'E0506', 'E0515', 'E0597', 'E0382', 'E0716', 'E0713', 'E0521']
    # what is borrowed from the container, by kind
    shared = {
      'tree': ('let mut t = tree();', {
        'get': 't.get(&k())', 'first': 't.first()', 'last': 't.last()', 'iter': 't.iter()', 'iter item': 't.iter().next()', 'iter back item': 't.iter().next_back()',
        'get_cursor value': 't.get_cursor(&k())', 'root_augmentation': 't.root_augmentation()', 'node_store': 't.node_store()',
        'Cursor::first value': 'Cursor::first(&t)', 'Cursor::last value': 'Cursor::last(&t)',
        'cursor next value': 't.cursor_first().unwrap().next_with_value(&t)', 'cursor prev value': 't.cursor_first().unwrap().prev_with_value(&t)', 'cursor value': 't.cursor_first().unwrap().value(&t)',
        'leaf of the store': 'unsafe { t.node_store().try_get_leaf(Default::default_id()) }',
      }, {'insert': 't.insert(k(), k());', 'remove': 't.remove(&k());', 'clear': 't.clear();', 'drop': 'drop(t);', 'into_iter': 'use_(t.into_iter());'}),
      'map': ('let mut t = map();', {
        'get': 't.get(&k())', 'iter': 't.iter()', 'iter item': 't.iter().next()', 'root_augmentation': 't.root_augmentation()'},
        {'insert': 't.insert(k(), k());', 'remove': 't.remove(&k());', 'drop': 'drop(t);'}),
      'set': ('let mut t = set(); let mut o = set();', {
        'first': 't.first()', 'last': 't.last()', 'iter': 't.iter()', 'iter item': 't.iter().next()', 'union': 't.union(&o)', 'union item': 't.union(&o).next()', 'reverse union': 'o.union(&t)'},
        {'insert': 't.insert(k());', 'remove': 't.remove(&k());', 'clear': 't.clear();', 'drop': 'drop(t);', 'into_iter': 'use_(t.into_iter());'}),
    }
    for c, (mk, exprs, mods) in shared.items():
        for en, e in exprs.items():
            if 'default_id' in e: continue
            for mn, m in mods.items():
                w.append((f'{c}: {en} cannot be used after {mn}', f'fn w() {{ {mk} let x = {e}; {m} use_(x); }}', f'fn w() {{ {mk} let x = {e}; use_(x); {m} }}', B))
            ret = f'fn w() {{ {mk} let x = {{ let t = t; {e.replace("o.union", "o.union")} }}; use_(x); }}'
            w.append((f'{c}: {en} cannot outlive the {c}', ret, f'fn w() {{ {mk} let x = {e}; use_(x); }}', B))
    muts = {'tree': ('let mut t = tree();', {'get_mut': 't.get_mut(&k())'}, 't.get(&k())', 't.insert(k(), k());', 't.len();'),
            'map': ('let mut t = map();', {'get_mut': 't.get_mut(&k())'}, 't.get(&k())', 't.insert(k(), k());', 't.len();')}
    for c, (mk, exprs, rd, md, ln) in muts.items():
        for en, e in exprs.items():
            w.append((f'{c}: two {en} results cannot coexist', f'fn w() {{ {mk} let x = {e}; let y = {e}; use_(x); use_(y); }}', f'fn w() {{ {mk} let x = {e}; use_(x); let y = {e}; use_(y); }}', B))
            w.append((f'{c}: {en} result excludes a read', f'fn w() {{ {mk} let x = {e}; use_({rd}); use_(x); }}', f'fn w() {{ {mk} let x = {e}; use_(x); use_({rd}); }}', B))
            w.append((f'{c}: {en} result excludes a modification', f'fn w() {{ {mk} let x = {e}; {md} use_(x); }}', f'fn w() {{ {mk} let x = {e}; use_(x); {md} }}', B))
            w.append((f'{c}: get excludes {en}', f'fn w() {{ {mk} let x = {rd}; use_({e}); use_(x); }}', f'fn w() {{ {mk} let x = {rd}; use_(x); use_({e}); }}', B))
            w.append((f'{c}: {en} result cannot outlive the {c}', f'fn w() {{ {mk} let x = {{ let mut t = t; {e} }}; use_(x); }}', f'fn w() {{ {mk} let x = {e}; use_(x); }}', B))
            w.append((f'{c}: {en} needs exclusive access', f'fn w(t: &{"BPlusTree<S>" if c == "tree" else "BPlusTreeMap<String, String>"}) {{ use_({e}); }}', f'fn w(t: &mut {"BPlusTree<S>" if c == "tree" else "BPlusTreeMap<String, String>"}) {{ use_({e}); }}', ['E0596']))
    ty = {'tree': 'BPlusTree<S>', 'map': 'BPlusTreeMap<String, String>', 'set': 'BPlusTreeSet<String>'}
    for c, calls in {'tree': ['t.insert(k(), k())', 't.remove(&k())', 't.clear()'], 'map': ['t.insert(k(), k())', 't.remove(&k())'], 'set': ['t.insert(k())', 't.remove(&k())', 't.clear()']}.items():
        for e in calls:
            w.append((f'{c}: {e.split("(")[0][2:]} needs exclusive access', f'fn w(t: &{ty[c]}) {{ use_({e}); }}', f'fn w(t: &mut {ty[c]}) {{ use_({e}); }}', ['E0596']))
    # augmented access
    aug = '''fn t_aug() -> BPlusTreeMap<String, String, Count> { loop {} } fn tt_aug() -> BPlusTree<NodeStoreVec<String, String, Count>> { loop {} }'''
    for c, mk in (('map', 'let mut t = t_aug();'), ('tree', 'let mut t = tt_aug();')):
        for en, e in (('get_by_augmentation', 't.get_by_augmentation(0usize)'), ('get_mut_by_augmentation', 't.get_mut_by_augmentation(0usize)')):
            for mn, m in (('insert', 't.insert(k(), k());'), ('remove_by_augmentation', 't.remove_by_augmentation(0usize);'), ('drop', 'drop(t);')):
                w.append((f'{c}: {en} result cannot be used after {mn}', f'{aug} fn w() {{ {mk} let x = {e}; {m} use_(x); }}', f'{aug} fn w() {{ {mk} let x = {e}; use_(x); {m} }}', B))
    # no mutable key
    M = ['E0308', 'E0271', 'E0277', 'E0596', 'E0594']
    for n, bad, good in (
        ('tree get_mut yields a value only', 'fn w(t: &mut BPlusTree<NodeStoreVec<String, u8>>) -> Option<&mut String> { t.get_mut(&k()) }', 'fn w(t: &mut BPlusTree<NodeStoreVec<String, u8>>) -> Option<&mut u8> { t.get_mut(&k()) }'),
        ('map get_mut yields a value only', 'fn w(t: &mut BPlusTreeMap<String, u8>) -> Option<&mut String> { t.get_mut(&k()) }', 'fn w(t: &mut BPlusTreeMap<String, u8>) -> Option<&mut u8> { t.get_mut(&k()) }'),
        ('tree first gives a shared key', 'fn w(t: &mut BPlusTree<S>) -> (&mut String, &String) { t.first().unwrap() }', 'fn w(t: &mut BPlusTree<S>) -> (&String, &String) { t.first().unwrap() }'),
        ('tree iter gives shared keys', 'fn w(t: &mut BPlusTree<S>) { let x: (&mut String, &String) = t.iter().next().unwrap(); }', 'fn w(t: &mut BPlusTree<S>) { let x: (&String, &String) = t.iter().next().unwrap(); }'),
        ('map iter gives shared keys and values', 'fn w(t: &mut BPlusTreeMap<String, String>) { let x: (&mut String, &String) = t.iter().next().unwrap(); }', 'fn w(t: &mut BPlusTreeMap<String, String>) { let x: (&String, &String) = t.iter().next().unwrap(); }'),
        ('set iter gives shared keys', 'fn w(t: &mut BPlusTreeSet<String>) { let x: &mut String = t.iter().next().unwrap(); }', 'fn w(t: &mut BPlusTreeSet<String>) { let x: &String = t.iter().next().unwrap(); }'),
        ('leaf keys are shared', 'fn w(l: &mut LeafNode<String, u8>) { let x: &mut [String] = l.keys(); }', 'fn w(l: &mut LeafNode<String, u8>) { let x: &[String] = l.keys(); }'),
    ):
        w.append((n, bad, good, M))
    return w

def compile1(src, d, name, rlib):
    p = os.path.join(d, name + '.rs')
    open(p, 'w').write(src)
    r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata', '--error-format=json',
                        '--extern', 'sweep_bptree=' + rlib, '-o', os.path.join(d, name + '.rmeta'), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    codes = []
    for l in r.stderr.decode(errors='replace').splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get('level') == 'error':
            codes.append((j.get('code') or {}).get('code', '') if j.get('code') else '')
    return r.returncode == 0, codes, r.stderr.decode(errors='replace')

def check(b):
    """-> (obligations, discharged, undecided notes, violations [(key, text)], samples)"""
    d = tempfile.mkdtemp(prefix='c14')
    ws = witnesses()
    try:
        twins = sorted(set(t for _, _, t, _ in ws))
        def one(i): return compile1(PRE + twins[i], d, f't{i}', b['rlib'])
        def onew(i): return compile1(PRE + ws[i][1], d, f'w{i}', b['rlib'])
        with ThreadPoolExecutor(8) as ex:
            tr = list(ex.map(one, range(len(twins))))
            wr = list(ex.map(onew, range(len(ws))))
        tok = {t: r for t, r in zip(twins, tr)}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    notes, viol, done, samples = [], [], 0, []
    for (n, bad, good, codes), (ok, got, err) in zip(ws, wr):
        if not tok[good][0]:
            # an accepted program that no longer compiles: Send/Sync or a signature became stricter
            notes.append(f'{n}: the twin program does not compile ({tok[good][1]})')
            continue
        if ok:
            viol.append((f'witness: {n}', f'the compiler accepts a program that must be rejected: {bad}'))
        elif any(c in codes for c in got):
            done += 1
            if len(samples) < 4: samples.append({'witness': n, 'program': bad, 'errors': got})
        else:
            notes.append(f'{n}: rejected, but with {got} instead of {codes}')
    api = json.load(open(b['api']))['api']
    nfn = 0
    for r in api:
        if r['unsafe']: continue
        nfn += 1
        if r['bad']:
            viol.append((f'api: {r["path"]}', f'safe exported item hands out {r["bad"]} (a key behind &mut)'))
    return {'obligations': len(ws) + nfn, 'discharged': done + nfn - sum(1 for k, _ in viol if k.startswith('api')), 'notes': notes, 'violations': viol,
            'samples': samples, 'witnesses': len(ws), 'signatures': nfn}

if __name__ == '__main__':
    import build, time
    t = time.time()
    r = check(build.build())
    print(json.dumps(r, indent=1)[:6000]); print(time.time() - t)
