"""Planted bugs (see tools/seed.py)."""
T = 'src/tree/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = r'''
#![allow(unused)]
use std::collections::BTreeMap;
use sweep_bptree::*;
fn rng(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s }
'''
DROP = PRE + r'''
use std::cell::Cell;
thread_local!(static LIVE: Cell<i64> = Cell::new(0));
#[derive(Debug)] struct D(u64);
impl D { fn new(v: u64) -> D { LIVE.with(|l| l.set(l.get() + 1)); D(v) } }
impl Clone for D { fn clone(&self) -> D { D::new(self.0) } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
impl PartialEq for D { fn eq(&self, o: &D) -> bool { self.0 == o.0 } }
impl Eq for D {}
impl PartialOrd for D { fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for D { fn cmp(&self, o: &D) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn live() -> i64 { LIVE.with(|l| l.get()) }
'''
S(id='aug-leak', prop='C04', file=T + 'inner_node.rs',
  old='''            std::mem::replace(self.augmentation_area_mut(idx), MaybeUninit::new(a))
                .assume_init_drop()
''', new='''            *self.augmentation_area_mut(idx) = MaybeUninit::new(a);
''', needs='an augmentation that owns something, and a tree with an inner node', breaks='the replaced augmentation of a child is never dropped',
  demo=DROP + r'''
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] struct G(D);
impl augment::group::FromRef<u64> for G { fn from_ref(k: &u64) -> G { G(D::new(k / 100)) } }
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, augment::group::GroupCount<G>>::new());
    for i in 0..500 { t.insert(i, i); }
    drop(t);
    assert_eq!(live(), 0);
}
''')
S(id='split-aug-mid', prop='C08', file=T + 'inner_node.rs',
  old='''                *new_node.child_area_mut(0) = MaybeUninit::new(new_child_id);
                *new_node.augmentation_area_mut(0) = MaybeUninit::new(new_child_augmentation);
''', new='''                *new_node.child_area_mut(0) = MaybeUninit::new(new_child_id);
                *new_node.augmentation_area_mut(0) =
                    MaybeUninit::new(self.augmentation_area(split_origin_size).assume_init_ref().clone());
                drop(new_child_augmentation);
''', needs='a full inner node that splits exactly at its middle child', breaks='after such a split the first child of the new inner node has the augmentation of its left neighbour',
  demo=PRE + r'''
use augment::count::Count;
fn main() {
    // fill the leaves evenly, then overfill the middle one once there is a full inner node
    for probe in 0..80u64 {
        let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, Count>::new());
        for i in 0..2112u64 { t.insert(i * 1000, 0); }
        let mut n = 2112usize;
        for j in 1..200u64 { t.insert(probe * 27 * 1000 + j, 0); n += 1;
            assert_eq!(t.root_augmentation().count(), n);
            for i in (0..n).step_by(17) { assert!(t.get_by_augmentation(i).is_some(), "{i} {n}"); }
        }
        let keys: Vec<u64> = t.iter().map(|x| *x.0).collect();
        for (i, k) in keys.iter().enumerate() { assert_eq!(t.get_by_augmentation(i).map(|x| *x.0), Some(*k)); }
    }
}
''')
S(id='rot-inner-stale', prop='C08', file=T + 'tree_remove.rs',
  old='''            let (k, c, m) = right.pop_front();

            let right_augmentation =
                S::Augmentation::from_inner(right.keys(), right.augmentations());
''', new='''            let right_augmentation =
                S::Augmentation::from_inner(right.keys(), right.augmentations());

            let (k, c, m) = right.pop_front();
''', needs='removals that make an inner node borrow from its right sibling', breaks='the right sibling keeps the augmentation it had before it lent a child',
  demo=PRE + r'''
use augment::count::Count;
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, Count>::new());
    for i in 0..6000u64 { t.insert(i, i); }
    for i in 0..5000u64 {
        t.remove(&i);
        let n = t.len();
        for q in [0, n / 3, n / 2, n - 1] { assert_eq!(t.get_by_augmentation(q).map(|x| *x.0), Some(i + 1 + q as u64)); }
    }
}
''')
S(id='cursor-value-le', prop='C12', file=T + 'cursor.rs',
  old='''            Some(kv) if kv.0.eq(&self.k) => Some(kv.1),
''', new='''            Some(kv) if kv.0 <= &self.k => Some(kv.1),
''', needs='a cursor whose entry moved right in its leaf because a smaller key was inserted after it was created', breaks='the cursor reports the value of another key',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 1..20u64 { t.insert(i * 10, i * 10); }
    let (c, _) = t.get_cursor(&100).unwrap();
    t.insert(5, 5);
    assert_eq!(c.value(&t), Some(&100));
}
''')
S(id='cache-unchecked', prop='C13', file=T + 'node_stores/vec_backed.rs',
  old='''        if self
            .try_get_leaf(leaf_id)
            .map(|l| l.in_range(k))
            .unwrap_or_default()
        {
''', new='''        if leaf_id.as_usize() < self.leaf_nodes.len() && {
            let leaf = self.get_leaf(leaf_id);
            leaf.is_empty() || leaf.in_range(k)
        } {
''', needs='the hinted leaf was merged away in a removal and then a lookup comes', breaks='a stale hint is dereferenced without noticing that the leaf is gone', profile='',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, String>::new());
    for round in 0..50u64 {
        for i in 0..300u64 { t.insert(i, format!("{i}")); }
        for i in (0..300u64).rev() { t.get(&i); t.remove(&i); assert!(t.get(&i).is_none()); if i > 0 { assert_eq!(t.get(&(i - 1)).map(|s| s.as_str()), Some(format!("{}", i - 1).as_str())); } }
        for i in 0..300u64 { t.insert(i, format!("{i}")); }
        for i in 0..300u64 { t.get(&i); t.remove(&i); for j in [i, i + 1, i + 40] { assert_eq!(t.get(&j).is_some(), j > i && j < 300); } }
    }
}
''')
S(id='locate-cache-end', prop='C13', file=T + 'leaf_node.rs',
  old='''        let is_gt_end = match self.next {
            Some(_) => k.gt(unsafe { self.key_area(self.len() - 1).assume_init_ref().borrow() }),
            None => false,
        };
''', new='''        let is_gt_end = match self.prev.and(self.next) {
            Some(_) => k.gt(unsafe { self.key_area(self.len() - 1).assume_init_ref().borrow() }),
            None => false,
        };
''', needs='the hint is on the first leaf and a key beyond it is looked up', breaks='a lookup through the hint of the first leaf misses keys of later leaves',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..300u64 { t.insert(i, i); }
    assert_eq!(t.get(&3), Some(&3));
    assert_eq!(t.get(&250), Some(&250));
}
''')
S(id='lend-at-min', prop='C20', file=T + 'inner_node.rs',
  old='''        if self.size >= Self::minimum_size() as u16 {
            (InnerMergeResult::Done, k)''', new='''        if self.size >= (Self::minimum_size() / 4) as u16 {
            (InnerMergeResult::Done, k)''', needs='many removals in a tree with at least three levels, then the loss of balance', breaks='inner nodes stay far below their minimum fill',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..9000u64 { t.insert(i, i); }
    for i in 0..9000u64 { if i % 8 != 0 { t.remove(&i); } }
    let st = t.statistic();
    eprintln!("{st:?}");
    assert!(st.merge_with_left_inner + st.merge_with_right_inner + st.rotate_left_inner + st.rotate_right_inner > 2);
}
''')
S(id='merge-keep-node', prop='C21', file=T + 'tree_remove.rs',
  old='''        let kv = left.delete_at(delete_idx);
        left.merge_right(&mut right);
''', new='''        let kv = left.delete_at(delete_idx);
        left.merge_right(&mut right);
        if left.next().is_none() {
            node_store.assign_leaf(right_leaf_id, right);
        }
        let left = node_store.get_mut_leaf(left_leaf_id);
''', needs='the first leaf of a parent is merged with its right sibling and the sibling was the last leaf of the tree', breaks='the emptied leaf stays allocated although nothing refers to it',
  demo=PRE + r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > 900 { N.fetch_add(1, Ordering::Relaxed); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if l.size() > 900 { N.fetch_sub(1, Ordering::Relaxed); } System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    let mut most = 0;
    for round in 0..100 {
        for i in 0..65u64 { t.insert(i, i); }
        for i in 33..60u64 { t.remove(&i); }
        for i in 0..60u64 { t.remove(&i); }
        for i in 60..65u64 { t.remove(&i); }
        assert!(t.is_empty());
        most = N.load(Ordering::Relaxed);
    }
    assert!(most < 12, "{most} large blocks are still allocated for an empty tree");
}
''')
S(id='search-push-offset', prop='C01', file=T + 'mod.rs',
  old='''                    stack.push(inner_id, offset, node_id);
                    query = new_query;''', new='''                    stack.push(inner_id, offset.min(inner.len() - 1), node_id);
                    query = new_query;''', needs='removal by augmentation in the last child of a node so that the leaf is under-filled', breaks='the wrong child is fixed up, the tree loses entries',
  demo=PRE + r'''
use augment::count::Count;
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, Count>::new());
    for i in 0..400u64 { t.insert(i, i); }
    for i in (0..400u64).rev() {
        assert_eq!(t.remove_by_augmentation(i as usize).map(|x| x.0), Some(i));
        let k: Vec<u64> = t.iter().map(|x| *x.0).collect();
        assert!(k.iter().copied().eq(0..i), "after removing {i}");
    }
}
''')
S(id='split-next-prev', prop='C09', file=T + 'mod.rs',
  old='''                if let Some(next) = r_leaf.next() {
                    self.node_store.get_mut_leaf(next).set_prev(Some(right_id));
                }
                self.node_store.assign_leaf(right_id, r_leaf);
''', new='''                self.node_store.assign_leaf(right_id, r_leaf);
                let split_leaf = self.node_store.get_leaf(id);
                if let Some(next) = split_leaf.next().filter(|n| *n != right_id) {
                    self.node_store.get_mut_leaf(next).set_prev(Some(right_id));
                }
''', needs='a leaf that is not the last one splits', breaks="the backward link of the leaf after the new one still skips it",
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in (0..400u64).rev() { t.insert(i, i); }
    let k: Vec<u64> = t.iter().rev().map(|x| *x.0).collect();
    assert!(k.iter().copied().eq((0..400).rev()));
}
''')
S(id='update-keeps-len', prop='C03', file=T + 'mod.rs',
  old='''            DescendInsertResult::Updated(prev_v) => {
                self.root_augmentation''', new='''            DescendInsertResult::Updated(prev_v) => {
                self.len += usize::from(self.node_store.try_cache(&prev_v_key).is_none());
                self.root_augmentation''', needs='-', breaks='-', demo=PRE + 'fn main(){}')
SEEDS.pop()
S(id='split-cache-id', prop='C05', file=T + 'leaf_node.rs',
  old='''    pub fn try_data_at(&self, idx: usize) -> Option<(&K, &V)> {
        if idx >= self.size as usize {
            return None;
        }
''', new='''    pub fn try_data_at(&self, idx: usize) -> Option<(&K, &V)> {
        if idx > self.size as usize {
            return None;
        }
''', needs='a cursor on the last entry of a leaf whose entry is removed, so that its offset equals the size of the leaf', breaks='the slot behind the last entry is read',
  demo=DROP + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<String, u64>::new());
    for i in 0..64u64 { t.insert(format!("{i:03}"), i); }
    let (c, _) = t.get_cursor(&"063".to_string()).unwrap();
    t.remove(&"063".to_string());
    // the removed key's bytes are still in the slot behind the last entry
    assert!(c.value(&t).is_none());
    assert!(!c.exists(&t));
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..64u64 { t.insert(i, i); }
    let (c, _) = t.get_cursor(&63).unwrap();
    t.remove(&63);
    assert!(c.value(&t).is_none());
}
''')
S(id='merge-inner-key', prop='C02', file=T + 'inner_node.rs',
  old='''            slice_utils::move_to_slice(
                self.key_area_mut(split_origin_size..N),
                    new_node''', new='''''', needs='', breaks='', demo='')
SEEDS.pop()
S(id='remove-hint', prop='C02', file=T + 'tree_remove.rs',
  old='''        // the prev key is dropped here
        let _ = node.set_key(slot, new_slot_key);

        deleted
''', new='''        // the prev key is dropped here
        if delete_idx > 0 || slot + 1 < node.len() {
            let _ = node.set_key(slot, new_slot_key);
        }

        deleted
''', needs='the first entry of the last leaf of a node is removed and the leaf borrows from the left', breaks='the separator is not moved, so the borrowed key is no longer found by descending',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..97u64 { t.insert(i, i); }   // leaves 0..32 | 32..64 | 64..97
    for i in 64..97u64 {
        t.remove(&i);
        for j in 0..64u64 { t.get(&0); assert_eq!(t.get(&j), if j < 64 { Some(&j) } else { None }, "{j} after removing {i}"); }
    }
}
''')
S(id='rank-path', prop='C26', file=T + 'mod.rs',
  old='''                    let augmentations = &inner.augmentations()[0..child_idx];''', new='''                    let augmentations = &inner.augmentations()[0..child_idx.min(inner.len() - 1)];''',
  needs='the rank of a key in the last child of an inner node with more than one key', breaks='one augmentation too few is folded',
  demo=PRE + r'''
use augment::count::Count;
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, Count>::new());
    for i in 0..300u64 { t.insert(i, i); }
    for i in 0..300u64 { assert_eq!(t.rank_by_augmentation(&i), Ok(i as usize)); }
}
''')
S(id='count-inner-index', prop='C18', file='src/augment/count.rs',
  old='''            if idx >= a.0 {
                idx -= a.0;''', new='''            if idx > a.0 {
                idx -= a.0;''', needs='an index that is the first of a child', breaks='the search for an index at the border of two children fails',
  demo=PRE + r'''
use augment::count::Count;
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, Count>::new());
    for i in 0..3000u64 { t.insert(i, i); }
    for i in 0..3000usize { assert_eq!(t.get_by_augmentation(i).map(|x| *x.0), Some(i as u64)); }
}
''')
S(id='union-clone', prop='C22', file='src/merge_iter.rs',
  old='''            peeked: self.peeked.clone(),
''', new='''            peeked: None,
''', needs='a union that is cloned while it holds a peeked item', breaks='the clone skips the peeked item',
  demo=PRE + r'''
fn main() {
    let a: BPlusTreeSet<u32> = (0..10).map(|i| i * 2).collect();
    let b: BPlusTreeSet<u32> = (5..12).map(|i| i * 3).collect();
    let mut u = a.union(&b);
    loop {
        let c: Vec<u32> = u.clone().copied().collect();
        let mut d = vec![]; let mut w = a.union(&b);
        let left = c.len();
        let all: Vec<u32> = w.by_ref().copied().collect();
        d.extend_from_slice(&all[all.len() - left..]);
        assert_eq!(c, d);
        let want = all.len() - left;
        match u.next() { Some(k) => assert_eq!(*k, all[want]), None => break }
    }
    // count what is left in a different way
    let n = { let mut s = std::collections::BTreeSet::new(); s.extend((0..10).map(|i| i * 2)); s.extend((5..12).map(|i| i * 3)); s.len() };
    let mut u = a.union(&b);
    for i in 0..n { assert_eq!(u.clone().count(), n - i); u.next(); }
}
''')
S(id='union-hint', prop='C22', file='src/merge_iter.rs',
  old='''            Some(Peeked::B(_)) => (self.a.len(), 1 + self.b.len()),
''', new='''            Some(Peeked::B(_)) => (self.a.len(), self.b.len()),
''', needs='the size hint of a union that holds a peeked item of the second set', breaks='the upper bound is one below the number of keys to come',
  demo=PRE + r'''
fn main() {
    let a: BPlusTreeSet<u32> = (0..4).collect();
    let b: BPlusTreeSet<u32> = (10..14).collect();
    let mut u = a.union(&b);
    let mut left = 8;
    loop {
        let (lo, hi) = u.size_hint();
        assert!(lo <= left && left <= hi.unwrap(), "{lo} {hi:?} {left}");
        if u.next().is_none() { break }
        left -= 1;
    }
}
''')
S(id='drop-needs-value', prop='C11', file=T + 'iterator.rs',
  old='''        while self.next().is_some() {}
''', new='''        if std::mem::needs_drop::<S::V>() {
            while self.next().is_some() {}
        }
''', needs='values that need no drop, and keys that do', breaks='the keys that are left are never dropped',
  demo=DROP + r'''
fn main() {
    let s: BPlusTreeSet<D> = (0..10).map(D::new).collect();
    drop(s);
    assert_eq!(live(), 0);
    let s: BPlusTreeSet<D> = (0..100).map(D::new).collect();
    let mut it = s.into_iter(); it.next(); it.next_back();
    drop(it);
    assert_eq!(live(), 0);
}
''')
S(id='drop-needs-key', prop='C11', file=T + 'iterator.rs',
  old='''        while self.next().is_some() {}
''', new='''        if std::mem::needs_drop::<S::K>() {
            while self.next().is_some() {}
        } else {
            // only the values are left to drop
            while self.len > 1 {
                self.next();
            }
        }
''', needs='keys that need no drop, and an owning iterator dropped before its end', breaks='the last value is never dropped',
  demo=DROP + r'''
fn main() {
    let mut t = BPlusTreeMap::<u64, D>::new();
    for i in 0..100 { t.insert(i, D::new(i)); }
    drop(t);
    assert_eq!(live(), 0);
}
''')
S(id='cursor-next-le', prop='C12', file=T + 'cursor.rs',
  old='''            Some(kv) if kv.0.eq(&self.k) => self.offset_hint + 1,
''', new='''            Some(kv) if kv.0.le(&self.k) => self.offset_hint + 1,
''', needs='a cursor whose entry moved right in its leaf because a smaller key was inserted after it was created', breaks='next goes back to the cursor itself',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 1..20u64 { t.insert(i * 10, i * 10); }
    let (c, _) = t.get_cursor(&100).unwrap();
    t.insert(5, 5);
    assert_eq!(c.next(&t).map(|c| *c.key()), Some(110));
}
''')
S(id='cursor-prev-hint', prop='C12', file=T + 'cursor.rs',
  old='''                let offset = match leaf.locate_slot(&self.k) {
                    Ok(offset) => offset,
                    Err(offset) => offset,
                };
''', new='''                let offset = match leaf.locate_slot(&self.k) {
                    Ok(offset) => offset,
                    Err(offset) => offset.min(self.offset_hint),
                };
''', needs='a cursor whose entry was removed after smaller keys were inserted in the same leaf', breaks='prev skips entries',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 1..20u64 { t.insert(i * 10, i * 10); }
    let (c, _) = t.get_cursor(&100).unwrap();
    t.insert(5, 5); t.insert(6, 6);
    t.remove(&100);
    assert_eq!(c.prev(&t).map(|c| *c.key()), Some(90));
}
''')
S(id='clone-compact', prop='C17', file=T + 'node_stores/vec_backed.rs',
  old='''            leaf_nodes: self.leaf_nodes.clone(),
''', new='''            leaf_nodes: self.leaf_nodes.iter().filter(|l| l.is_some()).cloned().collect(),
''', needs='a clone of a tree in which leaves were merged', breaks='the leaf ids of the clone are shifted',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..1000u64 { t.insert(i, i); }
    let u = t.clone(); assert!(u.iter().eq(t.iter()));
    for i in 100..300u64 { t.remove(&i); }
    let u = t.clone();
    for i in 0..1000u64 { assert_eq!(u.node_store().try_get_leaf(t.get_cursor(&i).map(|_| u.get_cursor(&i)).is_some().then(|| sweep_bptree::tree::LeafNodeId::from_u64(0)).unwrap()).map(|l| l.len()).is_some(), true); assert_eq!(u.get(&i), t.get(&i)); }
}
''')
SEEDS[-1]['demo'] = PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..1000u64 { t.insert(i, i); }
    let u = t.clone(); assert!(u.iter().eq(t.iter()));
    for i in 100..300u64 { t.remove(&i); }
    let u = t.clone();
    for i in 0..900u64 { assert_eq!(u.get(&i), t.get(&i), "{i}"); }
}
'''
S(id='from-iter-unstable', prop='C16', file='src/map.rs',
  old='''        items.sort_by(|l, r| l.0.cmp(&r.0));
''', new='''        items.sort_unstable_by(|l, r| l.0.cmp(&r.0));
''', needs='a key given more than once among more than twenty pairs', breaks='an earlier value may win over the last one',
  demo=PRE + r'''
fn main() {
    let mut s = 88172645463325252u64;
    for _ in 0..200 {
        let v: Vec<(u64, u64)> = (0..300).map(|i| (rng(&mut s) % 40, i)).collect();
        let want: BTreeMap<u64, u64> = v.iter().copied().collect();
        let got = v.into_iter().collect::<BPlusTreeMap<u64, u64>>();
        assert!(got.iter().map(|(k, v)| (*k, *v)).eq(want.into_iter()));
    }
}
''')
S(id='bulk-prev', prop='C09', file=T + 'bulk_load.rs',
  old='''            leaf.set_prev(prev_id);
''', new='''            leaf.set_prev(prev_id.filter(|_| leaf.len() == LeafNode::<S::K, S::V>::max_capacity() as usize));
''', needs='bulk loading a number of entries that does not fill the last leaf', breaks='the last leaf has no backward link',
  demo=PRE + r'''
fn main() {
    for n in [64u64, 65, 128, 200] {
        let t = BPlusTree::<NodeStoreVec<u64, u64>>::bulk_load((0..n).map(|i| (i, i)).collect());
        let mut c = tree::Cursor::last(&t).map(|c| c.0);
        let mut k = n;
        while let Some(x) = c { k -= 1; assert_eq!(*x.key(), k); c = x.prev(&t); }
        assert_eq!(k, 0, "{n}");
    }
}
''')
S(id='count-leaf-le', prop='C18', file='src/augment/count.rs',
  old='''        if idx < keys.len() {
''', new='''        if idx <= keys.len() {
''', needs='looking up the position equal to the number of entries in a tree of one leaf', breaks='the lookup panics instead of finding nothing',
  demo=PRE + r'''
use augment::count::Count;
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, Count>::new());
    for i in 0..30u64 { assert_eq!(t.get_by_augmentation(i as usize), None); t.insert(i, i); }
}
''')
S(id='group-offset-ge', prop='C19', file='src/augment/group.rs',
  old='''                GroupCount::Multiple { max_group, .. } => match max_group.0.cmp(&group) {
                    Ordering::Less => continue,
                    Ordering::Equal => {
                        if max_group.1 > offset {''', new='''                GroupCount::Multiple { max_group, .. } => match max_group.0.cmp(&group) {
                    Ordering::Less => continue,
                    Ordering::Equal => {
                        if max_group.1 >= offset {''', needs='a group that begins inside one leaf and goes on in the next, asked for exactly its first entry in the next', breaks='the entry is not found',
  demo=PRE + r'''
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] struct G(u64);
impl augment::group::FromRef<u64> for G { fn from_ref(k: &u64) -> G { G(k / 37) } }
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, augment::group::GroupCount<G>>::new());
    for i in 0..2000u64 { t.insert(i, i); }
    for i in 0..2000u64 { assert_eq!(t.get_by_augmentation((G(i / 37), (i % 37) as usize)).map(|x| *x.0), Some(i)); }
}
''')
S(id='group-visit-last', prop='C19', file='src/augment/group.rs',
  old='''                            // break out and go down
                            self.element_count += prev_group_count;
                            break;''', new='''                            // break out and go down
                            self.element_count += prev_group_count;
                            prev_group_count = 0;
                            if idx + 1 < group_counts.len() {
                                break;
                            }
                            child_idx = idx.saturating_sub(1);''', needs='a group in the last child of an inner node', breaks='the visitor descends into the child before',
  demo=PRE + r'''
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] struct G(u64);
impl augment::group::FromRef<u64> for G { fn from_ref(k: &u64) -> G { G(k / 7) } }
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, augment::group::GroupCount<G>>::new());
    for i in 0..700u64 { t.insert(i, i); }
    for g in 0..100u64 { assert_eq!(t.descend_visit(augment::group::ExtractGroupSize::<G, u64>::new(G(g))), Some(7), "{g}"); }
}
''')
S(id='leaf-clone-unwind', prop='C07', file=T + 'inner_node.rs',
  old='''    fn clone(&self) -> Self {
        // SAFETY: An uninitialized `[MaybeUninit<_>; LEN]` is valid.
        let mut new_key = unsafe { MaybeUninit::<[MaybeUninit<K>; N]>::uninit().assume_init() };

        for i in 0..self.len() {
            unsafe {
                *new_key.get_unchecked_mut(i) =
                    MaybeUninit::new(self.key_area(i).assume_init_ref().clone());
            };
        }

        // SAFETY: An uninitialized `[MaybeUninit<_>; LEN]` is valid.
        let mut new_augmentation =
            unsafe { MaybeUninit::<[MaybeUninit<A>; C]>::uninit().assume_init() };

        for i in 0..self.len() + 1 {
            unsafe {
                *new_augmentation.get_unchecked_mut(i) =
                    MaybeUninit::new(self.augmentation_area(i).assume_init_ref().clone());
            };
        }

        Self {
            size: self.size,
            slot_key: new_key,
            child_id: self.child_id,
            augmentations: new_augmentation,
        }
    }
''', new='''    fn clone(&self) -> Self {
        // SAFETY: An uninitialized `[MaybeUninit<_>; LEN]` is valid.
        let mut node = unsafe {
            Self {
                size: self.size,
                slot_key: MaybeUninit::<[MaybeUninit<K>; N]>::uninit().assume_init(),
                child_id: self.child_id,
                augmentations: MaybeUninit::<[MaybeUninit<A>; C]>::uninit().assume_init(),
            }
        };

        for i in 0..self.len() + 1 {
            unsafe {
                *node.augmentations.get_unchecked_mut(i) =
                    MaybeUninit::new(self.augmentation_area(i).assume_init_ref().clone());
            };
        }

        for i in 0..self.len() {
            unsafe {
                *node.slot_key.get_unchecked_mut(i) =
                    MaybeUninit::new(self.key_area(i).assume_init_ref().clone());
            };
        }

        node
    }
''', needs='a key whose clone panics while a tree with an inner node is cloned', breaks='the half-built node is dropped as if it were complete',
  demo=PRE + r'''
use std::cell::Cell; use std::panic::*;
thread_local!(static FUSE: Cell<i64> = Cell::new(i64::MAX); static BAD: Cell<bool> = Cell::new(false));
struct K(u64, u64);
const LIVE: u64 = 0x5eed_5eed_5eed_5eed;
impl Clone for K { fn clone(&self) -> K { FUSE.with(|f| { f.set(f.get() - 1); if f.get() < 0 { f.set(i64::MAX); panic!("fuse") } }); K(self.0, LIVE) } }
impl Drop for K { fn drop(&mut self) { if self.1 != LIVE { BAD.with(|b| b.set(true)); } self.1 = 0; } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<K, u64>::new());
    for i in 0..400u64 { t.insert(K(i, LIVE), i); }
    for n in 0..20 {
        FUSE.with(|f| f.set(n));
        let r = catch_unwind(AssertUnwindSafe(|| t.clone()));
        FUSE.with(|f| f.set(i64::MAX));
        assert!(!BAD.with(|b| b.get()), "a key that never was is dropped (panic at clone {n})");
    }
}
''')
S(id='send-any', prop='C14', file=T + 'node_stores/vec_backed.rs',
  old='''    cached_leaf: std::sync::atomic::AtomicUsize,
}

''', new='''    /// only a hint
    cached_leaf: std::sync::atomic::AtomicUsize,
}

unsafe impl<K: Key, V: Send, A: Augmentation<K, V> + Send> Send for NodeStoreVec<K, V, A> {}

''', needs='a tree whose keys are not Send', breaks='such a tree can be sent to another thread',
  demo=PRE + r'''
use std::marker::PhantomData; use std::rc::Rc;
struct W<T: ?Sized>(PhantomData<T>);
trait No { const SEND: bool = false; }
impl<T: ?Sized> No for W<T> {}
impl<T: ?Sized + Send> W<T> { const SEND: bool = true; }
fn main() {
    assert!(<W<BPlusTreeSet<u32>>>::SEND);
    assert!(!<W<BPlusTreeSet<Rc<u32>>>>::SEND);
    assert!(!<W<BPlusTreeMap<u32, Rc<u32>>>>::SEND);
}
''')
S(id='set-iter-back', prop='C15', file='src/set.rs',
  old='''    impl<K: crate::Key> DoubleEndedIterator for IntoIter<K> {
        fn next_back(&mut self) -> Option<Self::Item> {
            self.inner.next_back().map(|(k, _)| k)''', new='''    impl<K: crate::Key> DoubleEndedIterator for IntoIter<K> {
        fn next_back(&mut self) -> Option<Self::Item> {
            self.inner.next().map(|(k, _)| k)''', needs='owning iteration of a set from the back', breaks='it comes from the front',
  demo=PRE + r'''
fn main() {
    let s: BPlusTreeSet<u32> = (0..3).collect();
    assert_eq!(s.into_iter().rev().collect::<Vec<_>>(), [2, 1, 0]);
}
''')
S(id='take-quiet', prop='C23', file=T + 'node_stores/vec_backed.rs',
  old='''    fn take_leaf(&mut self, id: LeafNodeId) -> Box<LeafNode<K, V>> {
        std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap()''', new='''    fn take_leaf(&mut self, id: LeafNodeId) -> Box<LeafNode<K, V>> {
        // SAFETY: a leaf is taken once only
        unsafe { std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap_unchecked() }''', needs='a leaf taken twice from a store', breaks='a null box is made',
  demo=PRE + r'''
fn main() {
    let mut s = NodeStoreVec::<u64, u64>::new();
    let (id, _) = s.new_empty_leaf();
    drop(s.take_leaf(id));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.take_leaf(id)));
    assert!(r.is_err());
}
''')
S(id='hint-reload', prop='C13', edits=[(T + 'node_stores/vec_backed.rs', '''            .unwrap_or_default()
        {
            Some(leaf_id)
        } else {''', '''            .unwrap_or_default()
        {
            Some(LeafNodeId(
                self.cached_leaf.load(std::sync::atomic::Ordering::Relaxed),
            ))
        } else {''')], needs='another reader that stores its leaf in the hint between the two loads', breaks='a lookup searches a leaf that does not cover its key',
  profile='--release',
  demo=PRE + r'''
use std::sync::atomic::*;
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..4000 { t.insert(i, i); }
    let stop = AtomicBool::new(false); let bad = AtomicBool::new(false);
    std::thread::scope(|s| {
        for n in 0..8u64 {
            let (t, stop, bad) = (&t, &stop, &bad);
            s.spawn(move || {
                let mut x = 88172645463325252 + n;
                while !stop.load(Ordering::Relaxed) {
                    // stays in one leaf for a while, so that the hint is of use
                    let base = rng(&mut x) % 3900;
                    for i in 0..8 {
                        let k = base + i;
                        if t.get(&k) != Some(&k) { bad.store(true, Ordering::Relaxed); stop.store(true, Ordering::Relaxed); }
                    }
                }
            });
        }
        for _ in 0..400 { if stop.load(Ordering::Relaxed) { break; } std::thread::sleep(std::time::Duration::from_millis(100)); }
        stop.store(true, Ordering::Relaxed);
    });
    assert!(!bad.load(Ordering::Relaxed), "a present key was not found");
}
''')
S(id='iter-clone-end', prop='C10', edits=[(T + 'iterator.rs', '''#[derive(Clone)]
pub struct Iter<'a, S: NodeStore> {''', '''pub struct Iter<'a, S: NodeStore> {'''), (T + 'iterator.rs', '''    end: Option<(&'a LeafNode<S::K, S::V>, usize)>,
}
''', '''    end: Option<(&'a LeafNode<S::K, S::V>, usize)>,
}

impl<'a, S: NodeStore> Clone for Iter<'a, S> {
    fn clone(&self) -> Self {
        Self {
            tree: self.tree,
            len: self.len,
            leaf: self.leaf,
            leaf_offset: self.leaf_offset,
            // found again when it is needed
            end: None,
        }
    }
}
''')], needs='a clone of an iterator that was used from the back, used from the back', breaks='the clone starts at the last entry again',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..200 { t.insert(i, i); }
    let mut i = t.iter();
    i.next_back(); i.next();
    assert!(i.clone().rev().map(|x| *x.0).eq((1..199).rev()));
}
''')
S(id='merge-right-prev', prop='C09', file=T + 'tree_remove.rs', old='''        if let Some(next) = left.next() {
            node_store.get_mut_leaf(next).set_prev(Some(left_leaf_id));
        }

        // the merge on inner, it could propagate
''', new='''        // the merge on inner, it could propagate
''', needs='the first leaf of a parent is merged with its right sibling, and there is a leaf after that', breaks='a prev link leads to a leaf that is gone',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..300 { t.insert(i, i); }
    for i in 0..60 { t.remove(&i); }
    let mut n = 0;
    for round in 0..t.len() {
        let mut it = t.iter();
        for _ in 0..t.len() - round - 1 { it.next_back().unwrap(); }
        if round == 0 { assert_eq!(*it.next_back().unwrap().0, 60); }
    }
    for i in 60..200 { t.remove(&i); }
    assert!(t.iter().rev().map(|x| *x.0).eq((200..300).rev()));
    let mut c = sweep_bptree::tree::Cursor::last(&t).unwrap().0;
    let mut n = 1;
    while let Some(p) = c.prev(&t) { c = p; n += 1; }
    assert_eq!(n, t.len());
}
''')
S(id='last-deep', prop='C25', file=T + 'mod.rs', old='''        let mut node_id = self.root;
        loop {
            match node_id {
                NodeId::Inner(inner_id) => {
                    let inner_node = self.node_store.get_inner(inner_id);
                    node_id = inner_node.child_id(inner_node.len());
                    continue;
                }''', new='''        let mut node_id = self.root;
        let mut at = usize::MAX;
        loop {
            match node_id {
                NodeId::Inner(inner_id) => {
                    let inner_node = self.node_store.get_inner(inner_id);
                    at = at.min(inner_node.len());
                    node_id = inner_node.child_id(at);
                    continue;
                }''', needs='three levels, and a root with fewer children than its last child', breaks='last returns an entry that is not the largest',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..20000 { t.insert(i, i); }
    assert_eq!(t.last(), Some((&19999, &19999)));
}
''')
S(id='merge-keep-inner', prop='C21', file=T + 'tree_remove.rs', old='''        let kv = left.merge_right_delete_first(delete_idx, &mut right);
        parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));

        if let Some(next) = left.next() {
            node_store.get_mut_leaf(next).set_prev(Some(left_leaf_id));
        }
''', new='''        let kv = left.merge_right_delete_first(delete_idx, &mut right);
        parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));

        if let Some(next) = left.next() {
            node_store.get_mut_leaf(next).set_prev(Some(left_leaf_id));
            right.set_prev(None);
            right.set_next(None);
            node_store.assign_leaf(right_leaf_id, right);
        }
''', needs='a leaf in the middle of the tree is merged with its left sibling', breaks='the emptied leaf stays allocated although nothing refers to it',
  demo=PRE + r'''
use std::alloc::*; use std::sync::atomic::*;
struct A; static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > 900 && l.size() < 1400 { N.fetch_add(1, Ordering::Relaxed); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if l.size() > 900 && l.size() < 1400 { N.fetch_sub(1, Ordering::Relaxed); } System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for round in 0..20 {
        for i in 0..1000u64 { t.insert(i, i); }
        for i in (0..1000u64).rev() { t.remove(&i); }
        for i in 0..1000u64 { t.insert(i, i); }
        for i in (0..990u64).rev() { if i % 7 != 0 { t.remove(&i); } }
        for i in 0..1000u64 { t.remove(&i); }
        assert!(t.is_empty());
    }
    let n = N.load(Ordering::Relaxed);
    assert!(n < 12, "{n} blocks of the size of a node are still allocated for an empty tree");
}
''')
S(id='aug-update-skip', prop='C08', file=T + 'mod.rs', old='''                    DescendInsertResult::Updated(_) => {
                        let child_augmentation =
                            Self::new_augmentation_for_id(&self.node_store, child_id);
                        let inner_node = self.node_store.get_mut_inner(id);
                        inner_node.set_augmentation(child_idx, child_augmentation);

                        continue;
                    }
''', new='''                    // the keys are the same as before
                    DescendInsertResult::Updated(_) => continue,
''', needs='an augmentation computed from the values, and an insert that replaces a value in a tree with inner nodes', breaks='the augmentations on the path are those of the old value',
  demo=PRE + r'''
#[derive(Clone, Default, Debug, PartialEq)] struct Sum(u64);
impl augment::Augmentation<u64, u64> for Sum {
    fn from_leaf(_: &[u64], v: &[u64]) -> Self { Sum(v.iter().sum()) }
    fn from_inner(_: &[u64], a: &[Self]) -> Self { Sum(a.iter().map(|x| x.0).sum()) }
}
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, Sum>::new());
    for i in 0..500 { t.insert(i, 1); }
    assert_eq!(t.root_augmentation().0, 500);
    t.insert(17, 11);
    assert_eq!(t.root_augmentation().0, 510);
}
''')
S(id='bulk-count', prop='C03', edits=[(T + 'bulk_load.rs', '''        let mut item_count = 0usize;

''', '''        let item_count = data.len();

'''), (T + 'bulk_load.rs', '''            item_count += leaf.len();

''', '')], needs='loading a vector with an equal key', breaks='the recorded length counts entries that were dropped',
  demo=PRE + r'''
fn main() {
    let t = BPlusTree::<NodeStoreVec<u64, u64>>::bulk_load(vec![(1, 1), (2, 2), (2, 3), (4, 4)]);
    assert_eq!(t.len(), 3);
    let m: BPlusTreeMap<u64, u64> = [(1, 1), (1, 2)].into_iter().collect();
    assert_eq!(m.len(), 1);
}
''')
S(id='split-le', prop='C02', file=T + 'leaf_node.rs', old='''        if insert_idx < split_origin_size {
            let new_size = split_origin_size + 1;''', new='''        if insert_idx <= split_origin_size {
            let new_size = split_origin_size + 1;''', needs='an insert right at the point where a full leaf is split', breaks='the separator equals the last key of the left leaf',
  demo=PRE + r'''
fn main() {
    for at in 0..65u64 {
        let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
        for i in 0..65u64 { if i != at { t.insert(i, i); } }
        t.insert(at, at);
        let mut h = BPlusTree::new(NodeStoreVec::<u64, u64>::new()); 
        for i in 0..65u64 { t.get(&64); t.get(&0); assert_eq!(t.remove(&i), Some(i)); }
    }
}
''')
S(id='visit-bound', prop='C06', file=T + 'visit.rs', old='''                            if child_idx > inner.len() {''', new='''                            if child_idx > inner.augmentations().len() {''', needs='a visitor that goes down to the child after the last one', breaks='the slot after the last child is read',
  demo=PRE + r'''
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
struct V(u32);
impl<A: augment::Augmentation<u64, u64>> DescendVisit<u64, u64, A> for V {
    type Result = ();
    fn visit_inner(&mut self, keys: &[u64], _: &[A]) -> DescendVisitResult<()> {
        self.0 += 1;
        if self.0 > 1 { println!("went on to another node"); std::process::exit(1); }
        DescendVisitResult::GoDown(keys.len() + 1)
    }
    fn visit_leaf(&mut self, _: &[u64], _: &[u64]) -> Option<()> { println!("went on to a leaf"); std::process::exit(1) }
}
fn main() {
    let mut m = BPlusTreeMap::<u64, u64>::new();
    for i in 0..200 { m.insert(i, i); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.descend_visit(V(0)) }));
    assert!(r.is_err());
}
''')
S(id='locate-sentinel', prop='C05', file=T + 'leaf_node.rs', old='''        self.keys().binary_search_by_key(&k, |f| f.borrow())
''', new='''        if self.len() < 40 && self.next.is_some() && self.in_range(k) {
            // the last key is not below k
            let mut i = 0;
            while unsafe { self.key_area(i).assume_init_ref() }.borrow() < k {
                i += 1;
            }
            return if unsafe { self.key_area(i).assume_init_ref() }.borrow() == k {
                Ok(i)
            } else {
                Err(i)
            };
        }
        self.keys().binary_search_by_key(&k, |f| f.borrow())
''', needs='a key type with an inconsistent order, and a leaf with few entries', breaks='slots after the last entry are read',
  demo=PRE + r'''
use std::cell::*; use std::cmp::Ordering;
use std::collections::HashSet;
thread_local!(static LIVE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new()); static NEXT: Cell<u64> = Cell::new(1 << 40); static ODD: Cell<bool> = Cell::new(false));
#[derive(Debug)] struct D { v: u64, id: u64 }
impl D { fn new(v: u64) -> D { let id = NEXT.with(|n| { n.set(n.get() + 1); n.get() }); LIVE.with(|l| l.borrow_mut().insert(id)); D { v, id } } }
impl Clone for D { fn clone(&self) -> D { D::new(self.v) } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.borrow_mut().remove(&self.id)); } }
fn chk(a: &D) { if !LIVE.with(|l| l.borrow().contains(&a.id)) { println!("a key that is not there was compared"); std::process::exit(1) } }
impl PartialEq for D { fn eq(&self, o: &D) -> bool { chk(self); chk(o); self.v == o.v } }
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &D) -> bool { chk(self); chk(o); ODD.with(|x| x.get()) || self.v < o.v }
    fn gt(&self, o: &D) -> bool { chk(self); chk(o); !ODD.with(|x| x.get()) && self.v > o.v }
}
impl Ord for D { fn cmp(&self, o: &D) -> Ordering { chk(self); chk(o); self.v.cmp(&o.v) } }
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<D, u64>::new());
    for i in 0..2000 { t.insert(D::new(i), i); }
    for i in (1..64).rev().take(20) { t.remove(&D::new(i)); }
    for i in 0..500 { t.remove(&D::new(i * 3 + 1)); }
    ODD.with(|x| x.set(true));
    for i in 0..2000 {
        let k = D::new(i);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t.get(&k); }));
    }
    ODD.with(|x| x.set(false));
}
''')
S(id='inner-rot-key', prop='C02', file=T + 'tree_remove.rs', old='''            let slot_key = node.set_key(slot, k);
            let left = node_store.get_mut_inner(left_child_id);
            left.push(slot_key, c, m);
''', new='''            let slot_key = k.clone();
            let _ = node.set_key(slot, k);
            let left = node_store.get_mut_inner(left_child_id);
            left.push(slot_key, c, m);
''', needs='an inner node that takes a child from its right sibling', breaks='keys of that child are searched in its left neighbour',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..20000 { t.insert(i, i); }
    for i in 0..8000 { t.remove(&i); }
    for i in 8000..20000 { t.get(&0); t.get(&19999); assert_eq!(t.get(&i), Some(&i)); }
}
''')
S(id='split-key-leak', prop='C04', file=T + 'inner_node.rs', old='''            new_key = unsafe { self.key_area(split_origin_size - 1).assume_init_read() };
''', new='''            new_key = unsafe { self.key_area(split_origin_size - 1).assume_init_ref().clone() };
''', needs='a full inner node split by an insert in its left half, keys that own something', breaks='the key that goes up was copied, the one it was copied from is never dropped',
  demo=DROP + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<D, u64>::new());
    for i in (0..10000).rev() { t.insert(D::new(i), i); }
    drop(t);
    assert_eq!(live(), 0);
}
''')
S(id='clear-aug', prop='C08', file=T + 'mod.rs', old='''        std::mem::drop(std::mem::replace(self, Self::new(S::default())));
''', new='''        let mut fresh = Self::new(S::default());
        std::mem::swap(&mut self.node_store, &mut fresh.node_store);
        std::mem::swap(&mut self.root, &mut fresh.root);
        std::mem::swap(&mut self.len, &mut fresh.len);
''', needs='clearing a tree with an augmentation, then asking for the augmentation of the root', breaks='the augmentation of the empty tree is the one of the entries that were removed',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, augment::count::Count>::new());
    for i in 0..100 { t.insert(i, i); }
    t.clear();
    assert_eq!(t.root_augmentation().count(), 0);
}
''')
S(id='rank-order', prop='C26', edits=[(T + 'mod.rs', '''        let mut rank = <S::Augmentation as RankAugmentation<S::K, S::V>>::initial_value();

        loop {''', '''        let mut rank = <S::Augmentation as RankAugmentation<S::K, S::V>>::initial_value();
        let mut passed = Vec::new();

        loop {'''), (T + 'mod.rs', '''                    let augmentations = &inner.augmentations()[0..child_idx];
                    rank = <S::Augmentation as RankAugmentation<S::K, S::V>>::fold_inner(
                        k,
                        rank,
                        augmentations,
                    );
''', '''                    passed.push(&inner.augmentations()[0..child_idx]);
'''), (T + 'mod.rs', '''                    let slot = leaf.locate_slot(k);
                    return <S::Augmentation as RankAugmentation<_, _>>::fold_leaf(''', '''                    let slot = leaf.locate_slot(k);
                    while let Some(augmentations) = passed.pop() {
                        rank = <S::Augmentation as RankAugmentation<S::K, S::V>>::fold_inner(
                            k,
                            rank,
                            augmentations,
                        );
                    }
                    return <S::Augmentation as RankAugmentation<_, _>>::fold_leaf(''')], needs='a rank augmentation that depends on the order of the folds, and a tree of three levels', breaks='the parts are folded in the wrong order',
  demo=PRE + r'''
use sweep_bptree::tree::*;
#[derive(Clone, Debug, Default)] struct Hi(u64);
impl Augmentation<u64, u64> for Hi {
    fn from_leaf(k: &[u64], _: &[u64]) -> Self { Hi(k.last().copied().unwrap_or(0)) }
    fn from_inner(_: &[u64], a: &[Self]) -> Self { a.last().unwrap().clone() }
}
impl RankAugmentation<u64, u64> for Hi {
    type Rank = Vec<u64>;
    fn initial_value() -> Vec<u64> { vec![] }
    fn fold_inner(_: &u64, mut r: Vec<u64>, a: &[Self]) -> Vec<u64> { r.extend(a.iter().map(|x| x.0)); r }
    fn fold_leaf(_: &u64, mut r: Vec<u64>, s: Result<usize, usize>, k: &[u64]) -> Result<Vec<u64>, Vec<u64>> {
        match s { Ok(i) => { r.extend(&k[..i]); Ok(r) } Err(i) => { r.extend(&k[..i]); Err(r) } }
    }
}
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, Hi>::new());
    for i in 0..20000 { t.insert(i, i); }
    let r = t.rank_by_augmentation(&15005).unwrap();
    assert!(r.windows(2).all(|w| w[0] < w[1]), "not in order");
}
''')
S(id='bulk-start-key', prop='C16', file=T + 'bulk_load.rs', old='''            let start_key = childs[0].1 .0.clone();
            let end_key = childs[childs.len() - 1].1 .0.clone();
''', new='''            let start_key = childs[0].1 .1.clone();
            let end_key = childs[childs.len() - 1].1 .1.clone();
''', needs='bulk loading more than one inner node can hold', breaks='the separator over the second inner node is not its smallest key',
  demo=PRE + r'''
fn main() {
    let t = BPlusTree::<NodeStoreVec<u64, u64>>::bulk_load((0..20000).map(|i| (i, i)).collect());
    let mut u = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    u.insert(1, 1);
    let mut t = t;
    for i in 0..20000 { t.get(&((i + 9000) % 20000)); assert_eq!(t.remove(&i), Some(i)); }
}
''')
S(id='inner-min-slack', prop='C20', file=T + 'inner_node.rs', old='''        if self.size >= Self::minimum_size() as u16 {
            (InnerMergeResult::Done, k)''', new='''        // not worth the move for a single one
        if self.size + 1 >= Self::minimum_size() as u16 {
            (InnerMergeResult::Done, k)''', needs='merging children of an inner node that has the minimum, in a tree of three levels', breaks='an inner node stays below the minimum although its siblings could help',
  demo=PRE + r'''
use sweep_bptree::tree::*;
use std::cell::Cell;
// every fold sees the number of children of the node that it is given, the top one last
thread_local!(static MIN: Cell<usize> = Cell::new(999));
#[derive(Clone, Debug, Default)] struct N(usize);
impl Augmentation<u64, u64> for N {
    fn from_leaf(_: &[u64], _: &[u64]) -> Self { N(999) }
    fn from_inner(k: &[u64], a: &[Self]) -> Self { N(a.iter().map(|x| if x.0 == 999 { k.len() } else { x.0.min(1 << 20) }).min().unwrap()) }
}
// the smallest number of keys of an inner node right above the leaves
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64, N>::new());
    for i in 0..20000 { t.insert(i, i); }
    let start = t.root_augmentation().0;
    let mut low = start;
    for i in (0..20000).rev() { t.remove(&i); if t.len() < 9000 { break; } low = low.min(t.root_augmentation().0); }
    for i in 0..4000 { t.remove(&i); low = low.min(t.root_augmentation().0); if t.len() < 5200 { break; } }
    println!("{start} {low}");
    assert!(low >= 16, "an inner node with {low} keys");
}
''')
S(id='range-first', prop='C13', file=T + 'leaf_node.rs', old='''        let is_gt_end = match self.next {''', new='''        let is_gt_end = match self.prev.and(self.next) {''', needs='the hint points to the first leaf, and a lookup of a larger key follows', breaks='a present key is not found',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..200 { t.insert(i * 2, i); }
    t.insert(1, 0);
    assert_eq!(t.get(&300), Some(&150));
}
''')
S(id='try-data-le', prop='C12', file=T + 'leaf_node.rs', old='''        if idx >= self.size as usize {
            return None;
        }
        Some(unsafe {''', new='''        if idx > self.size as usize {
            return None;
        }
        Some(unsafe {''', needs='a cursor at the last entry of a leaf', breaks='the slot after the last entry is read as an entry',
  demo=PRE + r'''
fn main() {
    let mut t = BPlusTree::new(NodeStoreVec::<u64, u64>::new());
    for i in 0..200 { t.insert(i, i); }
    let mut c = t.cursor_first().unwrap(); let mut n = 1;
    while let Some(x) = c.next(&t) { assert!(x.key() > c.key()); c = x; n += 1; if n > 500 { break; } }
    assert_eq!(n, 200);
    for i in 190..200 { t.remove(&i); }
    let c = t.get_cursor(&189).unwrap().0;
    assert!(c.next(&t).is_none());
}
''')
S(id='map-insert-fast', prop='C08', file='src/map.rs', old='''        self.inner.insert(key, value)
''', new='''        if let Some(v) = self.inner.get_mut(&key) {
            // nothing moves
            return Some(std::mem::replace(v, value));
        }
        self.inner.insert(key, value)
''', needs='a map with an augmentation computed from the values, and an insert that replaces a value', breaks='the augmentations are those of the old value',
  demo=PRE + r'''
#[derive(Clone, Default, Debug, PartialEq)] struct Sum(u64);
impl augment::Augmentation<u64, u64> for Sum {
    fn from_leaf(_: &[u64], v: &[u64]) -> Self { Sum(v.iter().sum()) }
    fn from_inner(_: &[u64], a: &[Self]) -> Self { Sum(a.iter().map(|x| x.0).sum()) }
}
fn main() {
    let mut t = BPlusTreeMap::<u64, u64, Sum>::new();
    for i in 0..500 { t.insert(i, 1); }
    t.insert(17, 11);
    assert_eq!(t.root_augmentation().0, 510);
}
''')

S(id='inner-iter-sizes', prop='C23', file=T + 'inner_node.rs', old="        assert!(key_size + 1 == child_size);", new="        assert!(key_size <= child_size);", needs="new_from_iter called with as many children as keys", breaks="a node is built whose last child and augmentation were never written",
  demo=PRE + r'''
fn main() {
    use sweep_bptree::tree::{InnerNode, NodeId};
    let ids = |n: usize| -> Vec<NodeId> {
        // ids of real leaves
        let mut s = NodeStoreVec::<u64, u64>::new();
        (0..n).map(|_| s.new_empty_leaf().0.into()).collect()
    };
    let ok = std::panic::catch_unwind(|| { InnerNode::<u64, ()>::new_from_iter([1, 2], ids(3), [(), (), ()]); });
    assert!(ok.is_ok());
    let bad = std::panic::catch_unwind(|| { InnerNode::<u64, ()>::new_from_iter([1, 2], ids(2), [(); 2]); });
    assert!(bad.is_err(), "the sizes do not fit");
}
''')
