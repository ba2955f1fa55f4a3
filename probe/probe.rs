// Probe crate: instantiates the public API of sweep_bptree with opaque user types. It is never run;
// the MIR dumper compiles it and collects the functions reachable from every `root_*`.
#![allow(dead_code, unused_variables, clippy::all)]
use std::borrow::Borrow;
use std::cmp::Ordering;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount};
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::{Cursor, InnerNode, InnerNodeId, LeafNode, LeafNodeId, NodeId};
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, NodeStore, NodeStoreVec};

pub struct UK(u64);
pub struct PK(u64); // a key that needs no drop
pub struct UQ(u64);
pub struct UV(u64);
pub struct UA(u64);
pub struct UG(u64); // group of a key
pub struct UQuery(u64);
pub struct URank(u64);
pub struct UVis(u64);
pub struct URes(u64);

macro_rules! opaque { ($t:ty) => { impl Drop for $t { fn drop(&mut self) { loop {} } } impl Clone for $t { fn clone(&self) -> Self { loop {} } fn clone_from(&mut self, o: &Self) { loop {} } } } }
macro_rules! ordered { ($t:ty) => {
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { loop {} } fn ne(&self, o: &Self) -> bool { loop {} } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { loop {} } fn lt(&self, o: &Self) -> bool { loop {} } fn le(&self, o: &Self) -> bool { loop {} } fn gt(&self, o: &Self) -> bool { loop {} } fn ge(&self, o: &Self) -> bool { loop {} } }
    impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { loop {} } fn max(self, o: Self) -> Self { loop {} } fn min(self, o: Self) -> Self { loop {} } }
} }
opaque!(UK); opaque!(UV); opaque!(UA); opaque!(UG);
ordered!(UK); ordered!(PK); ordered!(UQ);
impl Clone for PK { fn clone(&self) -> Self { loop {} } fn clone_from(&mut self, o: &Self) { loop {} } } ordered!(UG);
impl std::fmt::Debug for UG { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
impl Drop for UQuery { fn drop(&mut self) { loop {} } }
impl Drop for URank { fn drop(&mut self) { loop {} } }
impl Drop for UVis { fn drop(&mut self) { loop {} } }
impl Drop for URes { fn drop(&mut self) { loop {} } }
impl Borrow<UQ> for UK { fn borrow(&self) -> &UQ { loop {} } }
impl Default for UA { fn default() -> Self { loop {} } }
impl FromRef<UK> for UG { fn from_ref(k: &UK) -> Self { loop {} } }
impl Augmentation<UK, UV> for UA {
    fn from_inner(keys: &[UK], augs: &[Self]) -> Self { loop {} }
    fn from_leaf(keys: &[UK], values: &[UV]) -> Self { loop {} }
}
impl SearchAugmentation<UK, UV> for UA {
    type Query = UQuery;
    fn locate_in_leaf(q: UQuery, keys: &[UK], values: &[UV]) -> Option<usize> { loop {} }
    fn locate_in_inner(q: UQuery, keys: &[UK], augs: &[Self]) -> Option<(usize, UQuery)> { loop {} }
}
impl RankAugmentation<UK, UV> for UA {
    type Rank = URank;
    fn initial_value() -> URank { loop {} }
    fn fold_inner(k: &UK, rank: URank, augs: &[Self]) -> URank { loop {} }
    fn fold_leaf(k: &UK, rank: URank, slot: Result<usize, usize>, keys: &[UK]) -> Result<URank, URank> { loop {} }
}
impl DescendVisit<UK, UV, UA> for UVis {
    type Result = URes;
    fn visit_inner(&mut self, keys: &[UK], augs: &[UA]) -> DescendVisitResult<URes> { loop {} }
    fn visit_leaf(&mut self, keys: &[UK], values: &[UV]) -> Option<URes> { loop {} }
}

pub type S = NodeStoreVec<UK, UV, UA>;
pub type T = BPlusTree<S>;
pub type M = BPlusTreeMap<UK, UV, UA>;
pub type Set = BPlusTreeSet<UK>;

// ---- tree ----
pub fn root_tree_new(s: S) -> T { BPlusTree::new(s) }
pub fn root_tree_of_new() -> T { BPlusTree::new(NodeStoreVec::new()) }
pub fn root_tree_of_default() -> T { BPlusTree::new(Default::default()) }
pub fn root_tree_of_capacity(n: usize) -> T { BPlusTree::new(NodeStoreVec::with_capacity(n)) }
pub fn root_store_default() -> S { Default::default() }
pub fn root_store_new() -> S { NodeStoreVec::new() }
pub fn root_store_with_capacity(n: usize) -> S { NodeStoreVec::with_capacity(n) }
pub fn root_tree_len(t: &T) -> usize { t.len() }
pub fn root_tree_is_empty(t: &T) -> bool { t.is_empty() }
pub fn root_tree_root_augmentation(t: &T) -> &UA { t.root_augmentation() }
pub fn root_tree_insert(t: &mut T, k: UK, v: UV) -> Option<UV> { t.insert(k, v) }
pub fn root_tree_remove(t: &mut T, k: &UQ) -> Option<UV> { t.remove(k) }
pub fn root_tree_get<'a>(t: &'a T, k: &UQ) -> Option<&'a UV> { t.get(k) }
pub fn root_tree_get_mut<'a>(t: &'a mut T, k: &UQ) -> Option<&'a mut UV> { t.get_mut(k) }
pub fn root_tree_first(t: &T) -> Option<(&UK, &UV)> { t.first() }
pub fn root_tree_last(t: &T) -> Option<(&UK, &UV)> { t.last() }
pub fn root_tree_clear(t: &mut T) { t.clear() }
pub fn root_tree_clone(t: &T) -> T { t.clone() }
pub fn root_tree_drop(t: T) { drop(t) }
pub fn root_tree_bulk_load(v: Vec<(UK, UV)>) -> T { T::bulk_load(v) }
pub fn root_tree_get_by_augmentation(t: &T, q: UQuery) -> Option<(&UK, &UV)> { t.get_by_augmentation(q) }
pub fn root_tree_get_mut_by_augmentation(t: &mut T, q: UQuery) -> Option<&mut UV> { t.get_mut_by_augmentation(q) }
pub fn root_tree_remove_by_augmentation(t: &mut T, q: UQuery) -> Option<(UK, UV)> { t.remove_by_augmentation(q) }
pub fn root_tree_rank_by_augmentation(t: &T, k: &UK) -> Result<URank, URank> { t.rank_by_augmentation(k) }
pub fn root_tree_descend_visit(t: &T, v: UVis) -> Option<URes> { t.descend_visit(v) }
// ---- iterators ----
pub type It<'a> = sweep_bptree::tree::Iter<'a, S>;
pub type Into_ = sweep_bptree::tree::IntoIter<S>;
pub fn root_iter_new(t: &T) -> It<'_> { t.iter() }
pub fn root_iter_next<'a>(i: &mut It<'a>) -> Option<(&'a UK, &'a UV)> { i.next() }
pub fn root_iter_next_back<'a>(i: &mut It<'a>) -> Option<(&'a UK, &'a UV)> { i.next_back() }
pub fn root_iter_size_hint(i: &It<'_>) -> (usize, Option<usize>) { i.size_hint() }
pub fn root_iter_len(i: &It<'_>) -> usize { i.len() }
pub fn root_iter_clone<'a>(i: &It<'a>) -> It<'a> { i.clone() }
pub fn root_into_iter_new(t: T) -> Into_ { t.into_iter() }
pub fn root_into_iter_next(i: &mut Into_) -> Option<(UK, UV)> { i.next() }
pub fn root_into_iter_next_back(i: &mut Into_) -> Option<(UK, UV)> { i.next_back() }
pub fn root_into_iter_size_hint(i: &Into_) -> (usize, Option<usize>) { i.size_hint() }
pub fn root_into_iter_drop(i: Into_) { drop(i) }
// provided iterator methods: analysed where the crate overrides them
pub fn root_iter_nth<'a>(i: &mut It<'a>, n: usize) -> Option<(&'a UK, &'a UV)> { i.nth(n) }
pub fn root_iter_nth_back<'a>(i: &mut It<'a>, n: usize) -> Option<(&'a UK, &'a UV)> { i.nth_back(n) }
pub fn root_iter_last<'a>(i: It<'a>) -> Option<(&'a UK, &'a UV)> { i.last() }
pub fn root_iter_count(i: It<'_>) -> usize { i.count() }
pub fn root_into_iter_nth(i: &mut Into_, n: usize) -> Option<(UK, UV)> { i.nth(n) }
pub fn root_into_iter_nth_back(i: &mut Into_, n: usize) -> Option<(UK, UV)> { i.nth_back(n) }
pub fn root_into_iter_last(i: Into_) -> Option<(UK, UV)> { i.last() }
pub fn root_into_iter_count(i: Into_) -> usize { i.count() }
pub fn root_set_iter_nth<'a>(i: &mut SIt<'a>, n: usize) -> Option<&'a UK> { i.nth(n) }
pub fn root_set_iter_nth_back<'a>(i: &mut SIt<'a>, n: usize) -> Option<&'a UK> { i.nth_back(n) }
pub fn root_set_iter_last<'a>(i: SIt<'a>) -> Option<&'a UK> { i.last() }
pub fn root_set_iter_count(i: SIt<'_>) -> usize { i.count() }
pub fn root_set_iter_min<'a>(i: SIt<'a>) -> Option<&'a UK> { i.min() }
pub fn root_set_iter_max<'a>(i: SIt<'a>) -> Option<&'a UK> { i.max() }
pub fn root_set_into_iter_nth(i: &mut SInto, n: usize) -> Option<UK> { i.nth(n) }
pub fn root_set_into_iter_nth_back(i: &mut SInto, n: usize) -> Option<UK> { i.nth_back(n) }
pub fn root_set_into_iter_last(i: SInto) -> Option<UK> { i.last() }
pub fn root_set_into_iter_count(i: SInto) -> usize { i.count() }
pub fn root_set_into_iter_min(i: SInto) -> Option<UK> { i.min() }
pub fn root_set_into_iter_max(i: SInto) -> Option<UK> { i.max() }
pub fn root_map_iter_nth(m: &M, n: usize) { let mut i = m.iter(); sink(i.nth(n)) }
pub fn root_map_iter_nth_back(m: &M, n: usize) { let mut i = m.iter(); sink(i.nth_back(n)) }
pub fn root_map_iter_last(m: &M) { sink(m.iter().last()) }
pub fn root_map_iter_count(m: &M) { sink_u(m.iter().count()) }
// ---- cursors ----
pub type C = Cursor<UK>;
pub fn root_cursor_get<'a>(t: &'a T, k: &UK) -> Option<(C, Option<&'a UV>)> { t.get_cursor(k) }
pub fn root_cursor_tree_first(t: &T) -> Option<C> { t.cursor_first() }
pub fn root_cursor_first(t: &T) -> Option<(C, &UV)> { C::first(t) }
pub fn root_cursor_last(t: &T) -> Option<(C, &UV)> { C::last(t) }
pub fn root_cursor_key(c: &C) -> &UK { c.key() }
pub fn root_cursor_prev(c: &C, t: &T) -> Option<C> { c.prev(t) }
pub fn root_cursor_next(c: &C, t: &T) -> Option<C> { c.next(t) }
pub fn root_cursor_prev_with_value<'a>(c: &C, t: &'a T) -> Option<(C, &'a UV)> { c.prev_with_value(t) }
pub fn root_cursor_next_with_value<'a>(c: &C, t: &'a T) -> Option<(C, &'a UV)> { c.next_with_value(t) }
pub fn root_cursor_exists(c: &C, t: &T) -> bool { c.exists(t) }
pub fn root_cursor_value<'a>(c: &C, t: &'a T) -> Option<&'a UV> { c.value(t) }
pub fn root_cursor_clone(c: &C) -> C { c.clone() }
// ---- map facade ----
pub fn root_map_new() -> M { M::new() }
pub fn root_map_default() -> M { M::default() }
pub fn root_map_len(m: &M) -> usize { m.len() }
pub fn root_map_is_empty(m: &M) -> bool { m.is_empty() }
pub fn root_map_insert(m: &mut M, k: UK, v: UV) -> Option<UV> { m.insert(k, v) }
pub fn root_map_get<'a>(m: &'a M, k: &UQ) -> Option<&'a UV> { m.get(k) }
pub fn root_map_get_mut<'a>(m: &'a mut M, k: &UQ) -> Option<&'a mut UV> { m.get_mut(k) }
pub fn root_map_remove(m: &mut M, k: &UQ) -> Option<UV> { m.remove(k) }
pub fn root_map_iter<'a>(m: &'a M) { it_map(m.iter()) }
fn it_map<'a>(i: impl Iterator<Item = (&'a UK, &'a UV)>) { loop {} }
pub fn root_map_iter_next(m: &M) { let mut i = m.iter(); sink(i.next()) }
pub fn root_map_iter_next_back(m: &M) { let mut i = m.iter(); sink(i.next_back()) }
pub fn root_map_iter_size_hint(m: &M) { let i = m.iter(); sink_n(i.size_hint()) }
pub fn root_map_iter_len(m: &M) { let i = m.iter(); sink_u(i.len()) }
fn sink<'a>(x: Option<(&'a UK, &'a UV)>) { loop {} }
fn sink_n(x: (usize, Option<usize>)) { loop {} }
fn sink_u(x: usize) { loop {} }
pub fn root_map_root_augmentation(m: &M) -> &UA { m.root_augmentation() }
pub fn root_map_get_by_augmentation(m: &M, q: UQuery) -> Option<(&UK, &UV)> { m.get_by_augmentation(q) }
pub fn root_map_get_mut_by_augmentation(m: &mut M, q: UQuery) -> Option<&mut UV> { m.get_mut_by_augmentation(q) }
pub fn root_map_remove_by_augmentation(m: &mut M, q: UQuery) -> Option<(UK, UV)> { m.remove_by_augmentation(q) }
pub fn root_map_rank_by_augmentation(m: &M, k: &UK) -> Result<URank, URank> { m.rank_by_augmentation(k) }
pub fn root_map_descend_visit(m: &M, v: UVis) -> Option<URes> { m.descend_visit(v) }
pub struct USrc(u64);
impl Iterator for USrc { type Item = (UK, UV); fn next(&mut self) -> Option<(UK, UV)> { loop {} } fn size_hint(&self) -> (usize, Option<usize>) { loop {} } }
impl Drop for USrc { fn drop(&mut self) { loop {} } }
pub fn root_map_from_iter(i: USrc) -> M { i.collect() }
// ---- destruction of what needs it ----
pub type PM = BPlusTreeMap<PK, UV>;
pub type PS = NodeStoreVec<PK, UV>;
pub type PInto = sweep_bptree::tree::IntoIter<PS>;
pub fn root_plain_tree_drop(t: BPlusTree<PS>) { drop(t) }
pub fn root_plain_into_iter(t: BPlusTree<PS>) -> PInto { t.into_iter() }
pub fn root_plain_into_iter_next(i: &mut PInto) -> Option<(PK, UV)> { i.next() }
pub fn root_plain_into_iter_next_back(i: &mut PInto) -> Option<(PK, UV)> { i.next_back() }
pub fn root_plain_into_iter_size_hint(i: &PInto) -> (usize, Option<usize>) { i.size_hint() }
pub fn root_plain_into_iter_drop(i: PInto) { drop(i) }
pub fn root_set_drop(s: Set) { drop(s) }
pub fn root_map_drop(m: M) { drop(m) }
// ---- set facade ----
pub type SS = NodeStoreVec<UK, ()>;
pub type ST = BPlusTree<SS>;
pub fn root_set_new() -> Set { Set::new() }
pub fn root_set_default() -> Set { Set::default() }
pub fn root_set_len(s: &Set) -> usize { s.len() }
pub fn root_set_is_empty(s: &Set) -> bool { s.is_empty() }
pub fn root_set_insert(s: &mut Set, k: UK) -> bool { s.insert(k) }
pub fn root_set_remove(s: &mut Set, k: &UQ) -> bool { s.remove(k) }
pub fn root_set_contains(s: &Set, k: &UQ) -> bool { s.contains(k) }
pub fn root_set_clear(s: &mut Set) { s.clear() }
pub fn root_set_first(s: &Set) -> Option<&UK> { s.first() }
pub fn root_set_last(s: &Set) -> Option<&UK> { s.last() }
pub type SIt<'a> = sweep_bptree::iter::Iter<'a, UK>;
pub type SInto = sweep_bptree::iter::IntoIter<UK>;
pub type Un<'a> = sweep_bptree::iter::Union<'a, UK>;
pub fn root_set_iter(s: &Set) -> SIt<'_> { s.iter() }
pub fn root_set_iter_next<'a>(i: &mut SIt<'a>) -> Option<&'a UK> { i.next() }
pub fn root_set_iter_next_back<'a>(i: &mut SIt<'a>) -> Option<&'a UK> { i.next_back() }
pub fn root_set_iter_size_hint(i: &SIt<'_>) -> (usize, Option<usize>) { i.size_hint() }
pub fn root_set_iter_len(i: &SIt<'_>) -> usize { i.len() }
pub fn root_set_iter_clone<'a>(i: &SIt<'a>) -> SIt<'a> { i.clone() }
pub fn root_set_into_iter(s: Set) -> SInto { s.into_iter() }
pub fn root_set_into_iter_next(i: &mut SInto) -> Option<UK> { i.next() }
pub fn root_set_into_iter_next_back(i: &mut SInto) -> Option<UK> { i.next_back() }
pub fn root_set_into_iter_size_hint(i: &SInto) -> (usize, Option<usize>) { i.size_hint() }
pub fn root_set_into_iter_drop(i: SInto) { drop(i) }
pub fn root_set_union<'a>(s: &'a Set, o: &'a Set) -> Un<'a> { s.union(o) }
pub fn root_union_next<'a>(u: &mut Un<'a>) -> Option<&'a UK> { u.next() }
pub fn root_union_min<'a>(u: Un<'a>) -> Option<&'a UK> { u.min() }
pub fn root_union_size_hint(u: &Un<'_>) -> (usize, Option<usize>) { u.size_hint() }
pub fn root_union_clone<'a>(u: &Un<'a>) -> Un<'a> { u.clone() }
pub struct USrcK(u64);
impl Iterator for USrcK { type Item = UK; fn next(&mut self) -> Option<UK> { loop {} } fn size_hint(&self) -> (usize, Option<usize>) { loop {} } }
impl Drop for USrcK { fn drop(&mut self) { loop {} } }
pub fn root_set_from_iter(i: USrcK) -> Set { i.collect() }
pub fn root_stree_insert(t: &mut ST, k: UK) -> Option<()> { t.insert(k, ()) }
pub fn root_stree_remove(t: &mut ST, k: &UQ) -> Option<()> { t.remove(k) }
// ---- built-in augmentations ----
pub fn root_count_from_leaf(k: &[UK], v: &[UV]) -> Count { <Count as Augmentation<UK, UV>>::from_leaf(k, v) }
pub fn root_count_from_inner(k: &[UK], a: &[Count]) -> Count { <Count as Augmentation<UK, UV>>::from_inner(k, a) }
pub fn root_count_locate_in_leaf(i: usize, k: &[UK], v: &[UV]) -> Option<usize> { <Count as SearchAugmentation<UK, UV>>::locate_in_leaf(i, k, v) }
pub fn root_count_locate_in_inner(i: usize, k: &[UK], a: &[Count]) -> Option<(usize, usize)> { <Count as SearchAugmentation<UK, UV>>::locate_in_inner(i, k, a) }
pub fn root_count_initial() -> usize { <Count as RankAugmentation<UK, UV>>::initial_value() }
pub fn root_count_fold_inner(k: &UK, r: usize, a: &[Count]) -> usize { <Count as RankAugmentation<UK, UV>>::fold_inner(k, r, a) }
pub fn root_count_fold_leaf(k: &UK, r: usize, s: Result<usize, usize>, ks: &[UK]) -> Result<usize, usize> { <Count as RankAugmentation<UK, UV>>::fold_leaf(k, r, s, ks) }
pub fn root_count_count(c: &Count) -> usize { c.count() }
pub fn root_count_default() -> Count { Count::default() }
pub fn root_count_clone(c: &Count) -> Count { c.clone() }
type G = GroupCount<UG>;
pub fn root_group_from_leaf(k: &[UK], v: &[UV]) -> G { <G as Augmentation<UK, UV>>::from_leaf(k, v) }
pub fn root_group_from_inner(k: &[UK], a: &[G]) -> G { <G as Augmentation<UK, UV>>::from_inner(k, a) }
pub fn root_group_locate_in_leaf(q: (UG, usize), k: &[UK], v: &[UV]) -> Option<usize> { <G as SearchAugmentation<UK, UV>>::locate_in_leaf(q, k, v) }
pub fn root_group_locate_in_inner(q: (UG, usize), k: &[UK], a: &[G]) -> Option<(usize, (UG, usize))> { <G as SearchAugmentation<UK, UV>>::locate_in_inner(q, k, a) }
pub fn root_group_initial() -> Option<(UG, usize)> { <G as RankAugmentation<UK, UV>>::initial_value() }
pub fn root_group_fold_inner(k: &UK, r: Option<(UG, usize)>, a: &[G]) -> Option<(UG, usize)> { <G as RankAugmentation<UK, UV>>::fold_inner(k, r, a) }
pub fn root_group_fold_leaf(k: &UK, r: Option<(UG, usize)>, s: Result<usize, usize>, ks: &[UK]) -> Result<Option<(UG, usize)>, Option<(UG, usize)>> { <G as RankAugmentation<UK, UV>>::fold_leaf(k, r, s, ks) }
pub fn root_group_group_count(g: &G) -> usize { g.group_count() }
pub fn root_group_max_group(g: &G) -> Option<(&UG, usize)> { g.max_group() }
pub fn root_group_is_zero(g: &G) -> bool { g.is_zero() }
pub fn root_group_default() -> G { G::default() }
pub fn root_group_clone(g: &G) -> G { g.clone() }
type EG = ExtractGroupSize<UG, UK>;
pub fn root_groupvis_new(g: UG) -> EG { EG::new(g) }
pub fn root_groupvis_inner(v: &mut EG, k: &[UK], a: &[G]) -> DescendVisitResult<usize> { <EG as DescendVisit<UK, UV, G>>::visit_inner(v, k, a) }
pub fn root_groupvis_leaf(v: &mut EG, k: &[UK], vs: &[UV]) -> Option<usize> { <EG as DescendVisit<UK, UV, G>>::visit_leaf(v, k, vs) }
// ---- exported low-level accessors ----
pub type LN = LeafNode<UK, UV>;
pub type IN = InnerNode<UK, UA>;
pub fn root_low_store_get_leaf(s: &S, i: LeafNodeId) -> &LN { s.get_leaf(i) }
pub fn root_low_store_try_get_leaf(s: &S, i: LeafNodeId) -> Option<&LN> { s.try_get_leaf(i) }
pub fn root_low_store_get_inner(s: &S, i: InnerNodeId) -> &IN { s.get_inner(i) }
pub fn root_low_store_try_get_inner(s: &S, i: InnerNodeId) -> Option<&IN> { s.try_get_inner(i) }
pub fn root_low_store_get_mut_leaf(s: &mut S, i: LeafNodeId) -> &mut LN { s.get_mut_leaf(i) }
pub fn root_low_store_get_mut_inner(s: &mut S, i: InnerNodeId) -> &mut IN { s.get_mut_inner(i) }
pub fn root_low_store_take_leaf(s: &mut S, i: LeafNodeId) -> Box<LN> { s.take_leaf(i) }
pub fn root_low_store_take_inner(s: &mut S, i: InnerNodeId) -> Box<IN> { s.take_inner(i) }
pub fn root_low_store_assign_leaf(s: &mut S, i: LeafNodeId, n: Box<LN>) { s.assign_leaf(i, n) }
pub fn root_low_store_put_back_inner(s: &mut S, i: InnerNodeId, n: Box<IN>) { s.put_back_inner(i, n) }
pub fn root_low_store_cache_leaf(s: &S, i: LeafNodeId) { s.cache_leaf(i) }
pub fn root_low_store_try_cache(s: &S, k: &UQ) -> Option<LeafNodeId> { s.try_cache(k) }
pub fn root_low_leaf_data_at(l: &LN, i: usize) -> (&UK, &UV) { l.data_at(i) }
pub fn root_low_leaf_try_data_at(l: &LN, i: usize) -> Option<(&UK, &UV)> { l.try_data_at(i) }
pub fn root_low_leaf_value_at_mut(l: &mut LN, i: usize) -> &mut UV { l.value_at_mut(i) }
pub fn root_low_leaf_in_range(l: &LN, k: &UQ) -> bool { l.in_range(k) }
pub fn root_low_leaf_key_range(l: &LN) -> (Option<UK>, Option<UK>) { l.key_range() }
pub fn root_low_leaf_set_data(l: &mut LN, i: USrc) { l.set_data(i) }
pub fn root_low_leaf_locate_slot(l: &LN, k: &UQ) -> Result<usize, usize> { l.locate_slot(k) }
pub fn root_low_leaf_locate_slot_with_value<'a>(l: &'a LN, k: &UQ) -> (usize, Option<&'a UV>) { l.locate_slot_with_value(k) }
pub fn root_low_leaf_keys(l: &LN) -> &[UK] { l.keys() }
pub fn root_low_leaf_values(l: &LN) -> &[UV] { l.values() }
pub fn root_low_leaf_clone(l: &LN) -> LN { l.clone() }
pub fn root_low_inner_key(n: &IN, i: usize) -> &UK { n.key(i) }
pub struct USrcC(u64);
impl Iterator for USrcC { type Item = NodeId; fn next(&mut self) -> Option<NodeId> { loop {} } fn size_hint(&self) -> (usize, Option<usize>) { loop {} } }
pub struct USrcA(u64);
impl Iterator for USrcA { type Item = UA; fn next(&mut self) -> Option<UA> { loop {} } fn size_hint(&self) -> (usize, Option<usize>) { loop {} } }
pub fn root_low_inner_new_from_iter(k: USrcK, c: USrcC, a: USrcA) -> Box<IN> { IN::new_from_iter(k, c, a) }
pub fn root_low_inner_push(n: &mut IN, k: UK, c: NodeId, a: UA) { n.push(k, c, a) }
pub fn root_low_inner_locate_child(n: &IN, k: &UQ) -> (usize, NodeId) { n.locate_child(k) }
pub fn root_low_inner_clone(n: &IN) -> IN { n.clone() }
// ---- equivalents of std loops over raw pointers ----
pub fn redirect_slice_fold<'a: 'a, T, B, F: FnMut(B, &'a T) -> B>(it: std::slice::Iter<'a, T>, init: B, mut f: F) -> B {
    let mut it = it; let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn redirect_slice_for_each<'a: 'a, T, F: FnMut(&'a T)>(it: std::slice::Iter<'a, T>, mut f: F) {
    let mut it = it;
    while let Some(x) = it.next() { f(x); }
}
pub fn redirect_slice_all<'a: 'a, T, F: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn redirect_slice_any<'a: 'a, T, F: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn redirect_slice_find<'a: 'a, T, P: FnMut(&&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: P) -> Option<&'a T> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn redirect_slice_find_map<'a: 'a, T, B, F: FnMut(&'a T) -> Option<B>>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(b) = f(x) { return Some(b); } }
    None
}
pub fn redirect_slice_position<'a: 'a, T, P: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn redirect_slice_rposition<'a: 'a, T, P: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i); } }
    None
}
pub fn redirect_slice_count<'a: 'a, T>(it: std::slice::Iter<'a, T>) -> usize { it.len() }
pub fn redirect_vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in i { v.push(x); }
    v
}
