#!/usr/bin/env python3
"""Developer tool: behaviour-preserving edits of /repo, applied in batches to a scratch copy on which every check must
stay quiet. python3 tools/refactors.py [-t] [-p C01,C02] batch-or-name ... ; -t: also run the repository's tests"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'src/tree/'
R = {}
def E(batch, name, *edits): R[name] = (batch, edits)

# ---- batch a: leaf node helpers, descents
E('a', 'leaf-take', (T + 'leaf_node.rs', '''        if self.able_to_lend() {
            let result = unsafe {
                let k = slice_utils::slice_remove(self.key_area_mut(..self.size as usize), idx);
                let v = slice_utils::slice_remove(self.value_area_mut(..self.size as usize), idx);
                (k, v)
            };
            self.size -= 1;
            LeafDeleteResult::Done(result)
        } else {
            LeafDeleteResult::UnderSize(idx)
        }
''', '''        if !self.able_to_lend() {
            return LeafDeleteResult::UnderSize(idx);
        }
        let result = self.shift_out(idx);
        self.size -= 1;
        LeafDeleteResult::Done(result)
'''), (T + 'leaf_node.rs', '''        debug_assert!(self.able_to_lend());
        let last_idx = self.size as usize - 1;
        let result = unsafe {
            let k = slice_utils::slice_remove(self.key_area_mut(..self.len()), last_idx);
            let v = slice_utils::slice_remove(self.value_area_mut(..self.len()), last_idx);
            (k, v)
        };
        self.size -= 1;
        result
''', '''        debug_assert!(self.able_to_lend());
        let result = self.shift_out(self.len() - 1);
        self.size -= 1;
        result
'''), (T + 'leaf_node.rs', '''    pub(crate) fn pop_front(&mut self) -> (K, V) {
        debug_assert!(self.able_to_lend());
        let result = unsafe {
            let k = slice_utils::slice_remove(self.key_area_mut(..self.size as usize), 0);
            let v = slice_utils::slice_remove(self.value_area_mut(..self.size as usize), 0);
            (k, v)
        };
        self.size -= 1;
        result
    }
''', '''    pub(crate) fn pop_front(&mut self) -> (K, V) {
        debug_assert!(self.able_to_lend());
        let len = self.len();
        let result = unsafe {
            let k = std::ptr::read(self.slot_key.as_ptr()).assume_init();
            let v = std::ptr::read(self.slot_value.as_ptr()).assume_init();
            std::ptr::copy(self.slot_key.as_ptr().add(1), self.slot_key.as_mut_ptr(), len - 1);
            std::ptr::copy(self.slot_value.as_ptr().add(1), self.slot_value.as_mut_ptr(), len - 1);
            (k, v)
        };
        self.size = (len - 1) as u16;
        result
    }

    /// remove the item at idx and close the gap, the size is left to the caller
    fn shift_out(&mut self, idx: usize) -> (K, V) {
        let len = self.len();
        unsafe {
            let v = slice_utils::slice_remove(self.value_area_mut(..len), idx);
            let k = slice_utils::slice_remove(self.key_area_mut(..len), idx);
            (k, v)
        }
    }
'''), (T + 'leaf_node.rs', '''        let result = unsafe {
            let k = slice_utils::slice_remove(self.key_area_mut(..self.size as usize), idx);
            let v = slice_utils::slice_remove(self.value_area_mut(..self.size as usize), idx);
            (k, v)
        };
        unsafe {
            *self.key_area_mut(self.size as usize - 1)''', '''        let result = self.shift_out(idx);
        unsafe {
            *self.key_area_mut(self.size as usize - 1)'''))
E('a', 'leaf-upsert', (T + 'leaf_node.rs', '''            Err(idx) => {
                if !self.is_full() {
                    let new_len = self.len() + 1;
                    unsafe { slice_utils::slice_insert(self.key_area_mut(..new_len), idx, k) };
                    unsafe { slice_utils::slice_insert(self.value_area_mut(..new_len), idx, v) };
                    self.size = new_len as u16;
                    LeafUpsertResult::Inserted
                } else {
                    LeafUpsertResult::IsFull(idx, k, v)
                }
            }
''', '''            Err(idx) if self.is_full() => LeafUpsertResult::IsFull(idx, k, v),
            Err(idx) => {
                self.size += 1;
                let new_len = usize::from(self.size);
                unsafe {
                    slice_utils::slice_insert(self.value_area_mut(..new_len), idx, v);
                    slice_utils::slice_insert(self.key_area_mut(..new_len), idx, k);
                }
                LeafUpsertResult::Inserted
            }
'''))
E('a', 'inner-locate', (T + 'inner_node.rs', '''        match self.keys().binary_search_by_key(&k, |f| f.borrow()) {
            Err(idx) => {
                // the idx is the place where a matching element could be inserted while maintaining
                // sorted order. go to left child
                (idx, self.child_id(idx))
            }
            Ok(idx) => {
                // exact match, go to right child.
                // if the child split, then the new key should inserted idx + 1
                (idx + 1, self.child_id(idx + 1))
            }
        }
''', '''        let idx = self.keys().partition_point(|f| f.borrow() <= k);
        (idx, self.child_id(idx))
'''))
E('a', 'leaf-locate', (T + 'leaf_node.rs', "        self.keys().binary_search_by_key(&k, |f| f.borrow())", "        self.keys().binary_search_by(|f| f.borrow().cmp(k))"))
E('a', 'first-last', (T + 'mod.rs', '''        let mut node_id = self.root;
        loop {
            match node_id {
                NodeId::Inner(inner_id) => {
                    let inner_node = self.node_store.get_inner(inner_id);
                    node_id = inner_node.child_id(0);
                    continue;
                }
                NodeId::Leaf(leaf_id) => {
                    let leaf_node = self.node_store.get_leaf(leaf_id);
                    return Some(leaf_node.data_at(0));
                }
            }
        }
''', '''        let leaf = self.node_store.get_leaf(self.first_leaf()?);
        leaf.try_data_at(0)
'''), (T + 'mod.rs', '''        let mut node_id = self.root;
        loop {
            match node_id {
                NodeId::Inner(inner_id) => {
                    let inner_node = self.node_store.get_inner(inner_id);
                    node_id = inner_node.child_id(inner_node.len());
                    continue;
                }
                NodeId::Leaf(leaf_id) => {
                    let leaf_node = self.node_store.get_leaf(leaf_id);
                    return Some(leaf_node.data_at(leaf_node.len() - 1));
                }
            }
        }
''', '''        let leaf = self.node_store.get_leaf(self.last_leaf()?);
        leaf.len().checked_sub(1).map(|slot| leaf.data_at(slot))
'''))
E('a', 'first-leaf', (T + 'mod.rs', '''        match self.root {
            NodeId::Inner(inner_id) => {
                let mut result = None;

                self.descend_visit_inner(inner_id, |inner_node| {
                    let first_child_id = inner_node.child_id(0);
                    match first_child_id {
                        NodeId::Inner(inner_id) => Some(inner_id),
                        NodeId::Leaf(leaf_id) => {
                            result = Some(leaf_id);
                            None
                        }
                    }
                });

                result
            }
            NodeId::Leaf(leaf_id) => Some(leaf_id),
        }
''', '''        let mut id = self.root;
        while let NodeId::Inner(inner_id) = id {
            id = self.node_store.get_inner(inner_id).child_id(0);
        }
        match id {
            NodeId::Leaf(leaf_id) => Some(leaf_id),
            NodeId::Inner(_) => None,
        }
'''))
E('a', 'ins-refresh', (T + 'mod.rs', '''                    DescendInsertResult::Inserted => {
                        let child_augmentation =
                            Self::new_augmentation_for_id(&self.node_store, child_id);
                        let inner_node = self.node_store.get_mut_inner(id);
                        inner_node.set_augmentation(child_idx, child_augmentation);

                        continue;
                    }
                    DescendInsertResult::Updated(_) => {
                        let child_augmentation =
                            Self::new_augmentation_for_id(&self.node_store, child_id);
                        let inner_node = self.node_store.get_mut_inner(id);
                        inner_node.set_augmentation(child_idx, child_augmentation);

                        continue;
                    }
''', '''                    DescendInsertResult::Inserted | DescendInsertResult::Updated(_) => {
                        self.refresh(id, child_idx, child_id);
                    }
'''), (T + 'mod.rs', '''    fn new_augmentation_for_id(node_store: &S, id: NodeId)''', '''    fn refresh(&mut self, parent: InnerNodeId, idx: usize, child: NodeId) {
        let augmentation = Self::new_augmentation_for_id(&self.node_store, child);
        self.node_store
            .get_mut_inner(parent)
            .set_augmentation(idx, augmentation);
    }

    fn new_augmentation_for_id(node_store: &S, id: NodeId)'''))
E('a', 'rem-actions', (T + 'tree_remove.rs', '''        let action: FixAction = match (prev_sibling, next_sibling) {
            (Some(p), Some(n)) => {
                if p.able_to_lend() {
                    if n.able_to_lend() {
                        if p.len() > n.len() {
                            FixAction::RotateRight
                        } else {
                            FixAction::RotateLeft
                        }
                    } else {
                        FixAction::RotateRight
                    }
                } else if n.able_to_lend() {
                    FixAction::RotateLeft
                } else {
                    FixAction::MergeLeft
                }
            }
            (Some(p), None) => {
                if p.able_to_lend() {
                    FixAction::RotateRight
                } else {
                    FixAction::MergeLeft
                }
            }
            (None, Some(n)) => {
                if n.able_to_lend() {
                    FixAction::RotateLeft
                } else {
                    FixAction::MergeRight
                }
            }
            _ => unreachable!(),
        };
''', '''        let left = prev_sibling.filter(|p| p.able_to_lend()).map(|p| p.len());
        let right = next_sibling.filter(|n| n.able_to_lend()).map(|n| n.len());
        let action = match (left, right) {
            (Some(p), Some(n)) if p > n => FixAction::RotateRight,
            (Some(_), None) => FixAction::RotateRight,
            (_, Some(_)) => FixAction::RotateLeft,
            (None, None) if child_idx > 0 => FixAction::MergeLeft,
            (None, None) => FixAction::MergeRight,
        };
'''))
E('a', 'rem-relink', (T + 'tree_remove.rs', '''        let kv = left.merge_right_delete_first(delete_idx, &mut right);
        parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));

        if let Some(next) = left.next() {
            node_store.get_mut_leaf(next).set_prev(Some(left_leaf_id));
        }
''', '''        let kv = left.merge_right_delete_first(delete_idx, &mut right);
        let augmentation = S::Augmentation::from_leaf(left.keys(), left.values());
        Self::relink_next(node_store, left_leaf_id);
        parent.set_augmentation(slot, augmentation);
'''), (T + 'tree_remove.rs', '''    fn merge_leaf_node_with_right(''', '''    fn relink_next(node_store: &mut S, id: crate::tree::LeafNodeId) {
        match node_store.get_leaf(id).next() {
            None => {}
            Some(next) => node_store.get_mut_leaf(next).set_prev(Some(id)),
        }
    }

    fn merge_leaf_node_with_right('''))
# ---- batch b: iterators, store, augmentations, facades, bulk
E('b', 'iter-next', (T + 'iterator.rs', '''        // move the position to next valid
        if offset + 1 < leaf.len() {
            self.leaf_offset = offset + 1;
            self.len -= 1;
            Some(kv)
        } else {
            match leaf.next() {
                Some(next_id) => {
                    self.leaf = Some(self.tree.node_store.get_leaf(next_id));
                    self.leaf_offset = 0;
                }
                None => {
                    self.leaf = None;
                    self.leaf_offset = 0;
                }
            }

            self.len -= 1;
            Some(kv)
        }
''', '''        self.len -= 1;
        self.leaf_offset += 1;
        if self.leaf_offset == leaf.len() {
            self.leaf = leaf.next().map(|id| self.tree.node_store.get_leaf(id));
            self.leaf_offset = 0;
        }
        Some(kv)
'''))
E('b', 'iter-back', (T + 'iterator.rs', '''        match self.end {
            Some((leaf, offset)) => {
                if offset > 0 {
                    let offset = offset - 1;
                    let kv = leaf.data_at(offset);
                    self.end = Some((leaf, offset));
                    self.len -= 1;
                    Some(kv)
                } else {
                    // move to previous leaf
                    let prev_id = leaf.prev()?;
                    let leaf = self.tree.node_store.get_leaf(prev_id);
                    let offset = leaf.len() - 1;

                    self.end = Some((leaf, offset));
                    self.len -= 1;
                    Some(leaf.data_at(offset))
                }
            }
            None => {
                let last_leaf_id = self.tree.last_leaf()?;
                let last_leaf = self.tree.node_store.get_leaf(last_leaf_id);
                let last_leaf_size = last_leaf.len();
                if last_leaf_size == 0 {
                    return None;
                }

                let offset = last_leaf_size - 1;

                self.end = Some((last_leaf, offset));
                self.len -= 1;
                Some(last_leaf.data_at(offset))
            }
        }
''', '''        let (leaf, upper) = match self.end {
            Some((leaf, 0)) => {
                let prev = self.tree.node_store.get_leaf(leaf.prev()?);
                (prev, prev.len())
            }
            Some(end) => end,
            None => {
                let last = self.tree.node_store.get_leaf(self.tree.last_leaf()?);
                (last, last.len())
            }
        };
        let offset = upper.checked_sub(1)?;
        self.end = Some((leaf, offset));
        self.len -= 1;
        Some(leaf.data_at(offset))
'''))
E('b', 'into-loop', (T + 'iterator.rs', '''        let (leaf_id, offset) = self.pos;
        let leaf = self.node_store.get_mut_leaf(leaf_id);

        if offset < leaf.len() {
            // book keeping current len
            self.len -= 1;
            // we should not call delete_at which internally memcpy, instead, use mark_uninit to take
            // the value out and leaves the memory uninit
            // safety: right after we called this, the pos moves to next.
            let kv = unsafe { leaf.take_data(offset) };
            self.pos = (leaf_id, offset + 1);
            Some(kv)
        } else {
            // move to next leaf
            match leaf.next() {
                Some(next_id) => {
                    self.pos = (next_id, 0);
                    self.next()
                }
                None => {
                    // pos is the valid position, so it should not be the end
                    // we only reach here if len is mis counted
                    unreachable!()
                }
            }
        }
''', '''        loop {
            let (leaf_id, offset) = self.pos;
            let leaf = self.node_store.get_mut_leaf(leaf_id);

            if offset < leaf.len() {
                let kv = unsafe { leaf.take_data(offset) };
                self.pos.1 += 1;
                self.len -= 1;
                return Some(kv);
            }
            let next_id = leaf.next().expect("len is mis counted");
            self.pos = (next_id, 0);
        }
'''))
E('b', 'into-drop', (T + 'iterator.rs', "        while self.next().is_some() {}", "        while let Some(kv) = self.next() {\n            drop(kv);\n        }"))
E('b', 'store-get', (T + 'node_stores/vec_backed.rs', '''    fn get_leaf(&self, id: LeafNodeId) -> &LeafNode<Self::K, Self::V> {
        // need to ensure the output assmebly are two ldr only, the two unsafe is the only way to do it.

        // SAFETY: id is only used in btree impl, we need to ensure that the id is valid.
        unsafe {
            self.leaf_nodes
                .get_unchecked(id.as_usize())
                .as_ref()
                .unwrap_or_else(|| std::hint::unreachable_unchecked())
        }
''', '''    fn get_leaf(&self, id: LeafNodeId) -> &LeafNode<Self::K, Self::V> {
        // SAFETY: id is only used in btree impl, we need to ensure that the id is valid.
        unsafe {
            match self.leaf_nodes.get_unchecked(id.as_usize()) {
                Some(leaf) => leaf,
                None => std::hint::unreachable_unchecked(),
            }
        }
'''), (T + 'node_stores/vec_backed.rs', '''        std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap()''', '''        self.leaf_nodes[id.as_usize()].take().expect("leaf exists")'''))
E('b', 'count-sum', ('src/augment/count.rs', "        Self(counts.iter().map(|a| a.0).sum())", "        let mut total = 0;\n        for c in counts {\n            total += c.count();\n        }\n        Self(total)"), ('src/augment/count.rs', '''        for (i, a) in counts.iter().enumerate() {
            if idx >= a.0 {
                idx -= a.0;
            } else {
                return Some((i, idx));
            }
        }

        // offset is larger than the sum of all counts
        None
''', '''        let mut i = 0;
        while i < counts.len() {
            let c = counts[i].0;
            if idx < c {
                return Some((i, idx));
            }
            idx -= c;
            i += 1;
        }
        None
'''), ('src/augment/count.rs', '''        for a in counts {
            rank += a.0
        }
        rank
''', '''        rank += counts.iter().map(Count::count).sum::<usize>();
        rank
'''))
E('b', 'group-leaf', ('src/augment/group.rs', '''            match group_for_key.cmp(&group) {
                Ordering::Less => continue,
                Ordering::Equal => {
                    if in_group_offset == offset {
                        return Some(idx);
                    } else {
                        in_group_offset += 1;
                    }
                }
                Ordering::Greater => return None,
            }
''', '''            if group_for_key < group {
                continue;
            }
            if group_for_key > group {
                return None;
            }
            if in_group_offset == offset {
                return Some(idx);
            }
            in_group_offset += 1;
'''))
E('b', 'set-match', ('src/set.rs', "        self.tree.get(k).is_some()", "        match self.tree.get(k) {\n            Some(()) => true,\n            None => false,\n        }"), ('src/set.rs', "        self.tree.insert(k, ()).is_none()", "        let before = self.tree.len();\n        self.tree.insert(k, ());\n        self.tree.len() > before"))
E('b', 'bulk-while', (T + 'bulk_load.rs', '''            if let Some(prev_id) = prev_id {
                node_store.get_mut_leaf(prev_id).set_next(Some(leaf_id));
            }

            prev_id = Some(leaf_id);
''', '''            if let Some(before) = prev_id.replace(leaf_id) {
                node_store.get_mut_leaf(before).set_next(Some(leaf_id));
            }
'''))
E('b', 'stack-pop', (T + 'entry_ref.rs', '''        if self.len == 0 {
            return None;
        }

        assert!(self.len <= N as u16);

        self.len -= 1;
        let StackEntry {
            id,
            offset,
            child_id,
        } = self.stack[self.len as usize];
        Some((id, offset, child_id))
''', '''        self.len = self.len.checked_sub(1)?;
        let e = &self.stack[usize::from(self.len)];
        Some((e.id, e.offset, e.child_id))
'''))
E('b', 'cursor-next', (T + 'cursor.rs', '''            _ => {
                let (offset, value) = leaf.locate_slot_with_value(&self.k);
                match value {
                    Some(_) => offset + 1,
                    None => offset,
                }
            }
        };
''', '''            _ => leaf.locate_slot(&self.k).map_or_else(|gap| gap, |slot| slot + 1),
        };
'''))
E('b', 'root-shrink', (T + 'tree_remove.rs', '''                            let root = tree.node_store.get_mut_inner(root_id);

                            if root.is_empty() {
                                tree.root = root.child_id(0);
                                // the old root is not reachable anymore, release it
                                drop(tree.node_store.take_inner(root_id));
                            }
''', '''                            if tree.node_store.get_inner(root_id).is_empty() {
                                let old = tree.node_store.take_inner(root_id);
                                tree.root = old.child_id(0);
                            }
'''))
# ---- batch c: deeper restructurings
E('c', 'slice-utils', (T + 'slice_utils.rs', '''        let slice_ptr = slice.as_mut_ptr();
        if len > idx + 1 {
            ptr::copy(slice_ptr.add(idx), slice_ptr.add(idx + 1), len - idx - 1);
        }
        (*slice_ptr.add(idx)).write(val);
''', '''        let gap = slice.as_mut_ptr().add(idx);
        ptr::copy(gap, gap.add(1), len - (idx + 1));
        gap.write(MaybeUninit::new(val));
'''), (T + 'slice_utils.rs', '''        let slice_ptr = slice.as_mut_ptr();
        let ret = (*slice_ptr.add(idx)).assume_init_read();
        ptr::copy(slice_ptr.add(idx + 1), slice_ptr.add(idx), len - idx - 1);
        ret
''', '''        let slot = slice.as_mut_ptr().add(idx);
        let ret = ptr::read(slot).assume_init();
        ptr::copy(slot.add(1), slot, len - idx - 1);
        ret
'''))
E('c', 'inner-split', (T + 'inner_node.rs', '''        let mut new_node = Self::empty();
        new_node.size = Self::split_new_size() as u16;

        let new_key: K;

        let split_origin_size = Self::split_origin_size();
        let split_new_size = Self::split_new_size();

        self.size = split_origin_size as u16;
''', '''        let split_origin_size = Self::split_origin_size();
        let split_new_size = Self::split_new_size();
        let new_key: K;

        let mut new_node = Self::empty();
        self.size = split_origin_size as u16;
        new_node.size = split_new_size as u16;
'''))
E('c', 'inner-insert', (T + 'inner_node.rs', '''            slice_utils::slice_insert(self.key_area_mut(..new_size), slot, key);
            slice_utils::slice_insert(self.child_area_mut(..new_child_size), slot + 1, right_child);
            slice_utils::slice_insert(
                self.augmentation_area_mut(..new_child_size),
                slot + 1,
                right_child_augmentation,
            );
        }

        self.size += 1;
''', '''            slice_utils::slice_insert(
                self.augmentation_area_mut(..new_child_size),
                slot + 1,
                right_child_augmentation,
            );
            slice_utils::slice_insert(self.child_area_mut(..new_child_size), slot + 1, right_child);
            slice_utils::slice_insert(self.key_area_mut(..new_size), slot, key);
        }

        self.size = new_size as u16;
'''))
E('c', 'merge-size', (T + 'inner_node.rs', '''            *self.key_area_mut(self.size as usize) = MaybeUninit::new(slot_key);
            self.size += 1;

            let self_size = self.size as usize;
            let right_size = right.len();
''', '''            let right_size = right.len();
            let self_size = self.len() + 1;
            *self.key_area_mut(self_size - 1) = MaybeUninit::new(slot_key);
'''), (T + 'inner_node.rs', '''            self.size += right.size;
''', '''            self.size = (self_size + right_size) as u16;
'''), (T + 'inner_node.rs', '''            debug_assert!(self.len() + right_size <= N);
''', ''))
E('c', 'leaf-split', (T + 'leaf_node.rs', '''        if insert_idx < split_origin_size {
            let new_size = split_origin_size + 1;
            unsafe {
                slice_utils::slice_insert(self.key_area_mut(..new_size), insert_idx, item.0);
                slice_utils::slice_insert(self.value_area_mut(..new_size), insert_idx, item.1);
            };
            self.size = new_size as u16;

            new_node.size = split_new_size as u16;
        } else {
            // data insert to new/right
            let insert_idx = insert_idx - split_origin_size;

            unsafe {
                slice_utils::slice_insert(
                    new_node.key_area_mut(..split_new_size + 1),
                    insert_idx,
                    item.0,
                );
                slice_utils::slice_insert(
                    new_node.value_area_mut(..split_new_size + 1),
                    insert_idx,
                    item.1,
                );
            }

            self.size = split_origin_size as u16;
            new_node.size = split_new_size as u16 + 1;
        };
''', '''        self.size = split_origin_size as u16;
        new_node.size = split_new_size as u16;
        let (target, at) = match insert_idx.checked_sub(split_origin_size) {
            None => (&mut *self, insert_idx),
            Some(at) => (&mut *new_node, at),
        };
        let n = target.len() + 1;
        unsafe {
            slice_utils::slice_insert(target.key_area_mut(..n), at, item.0);
            slice_utils::slice_insert(target.value_area_mut(..n), at, item.1);
        }
        target.size = n as u16;
'''))
E('c', 'merge-first', (T + 'tree_remove.rs', '''        let kv = left.delete_at(delete_idx);
        left.merge_right(&mut right);

        parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));

        if let Some(next) = left.next() {
            node_store.get_mut_leaf(next).set_prev(Some(left_leaf_id));
        }

        // the merge on inner, it could propagate
        let r = match parent.remove_slot_with_right(slot) {
            (InnerMergeResult::Done, _removed_k) => DeleteDescendResult::Done(kv),
            (InnerMergeResult::UnderSize, _removed_k) => DeleteDescendResult::InnerUnderSize(kv),
        };
''', '''        let kv = left.delete_at(delete_idx);
        left.merge_right(&mut right);
        drop(right);
        let after = left.next();
        let augmentation = S::Augmentation::from_leaf(left.keys(), left.values());

        // the merge on inner, it could propagate
        let (merged, removed_k) = parent.remove_slot_with_right(slot);
        drop(removed_k);
        parent.set_augmentation(slot, augmentation);
        if let Some(after) = after {
            node_store.get_mut_leaf(after).set_prev(Some(left_leaf_id));
        }

        let r = match merged {
            InnerMergeResult::Done => DeleteDescendResult::Done(kv),
            InnerMergeResult::UnderSize => DeleteDescendResult::InnerUnderSize(kv),
        };
'''))
E('c', 'get-helper', (T + 'mod.rs', '''        if let Some(leaf_id) = self.node_store.try_cache(k) {
            // cache hit
            return self.find_in_leaf(leaf_id, k);
        }

        self.find_descend(self.root, k)
    }
''', '''        match self.node_store.try_cache(k) {
            Some(leaf_id) => self.find_in_leaf(leaf_id, k),
            None => {
                let leaf_id = self.leaf_for(k);
                self.find_in_leaf_and_cache_it(leaf_id, k)
            }
        }
    }

    fn leaf_for<Q: ?Sized + Ord>(&self, k: &Q) -> LeafNodeId
    where
        S::K: Borrow<Q>,
    {
        let mut id = self.root;
        loop {
            match id {
                NodeId::Leaf(leaf_id) => return leaf_id,
                NodeId::Inner(inner_id) => id = self.node_store.get_inner(inner_id).locate_child(k).1,
            }
        }
    }
'''))
E('c', 'get-cursor', (T + 'mod.rs', '''        let node_id = self.root;
        let leaf_id = match node_id {
            NodeId::Inner(inner_id) => {
                let mut result = None;
                self.descend_visit_inner(inner_id, |inner_node| {
                    let (_idx, node_id) = inner_node.locate_child(k);
                    match node_id {
                        NodeId::Inner(inner_node) => Some(inner_node),
                        NodeId::Leaf(leaf_id) => {
                            result = Some(leaf_id);
                            None
                        }
                    }
                });
                result
            }
            NodeId::Leaf(leaf_id) => Some(leaf_id),
        }?;

        let leaf = self.node_store.get_leaf(leaf_id);
        let (idx, v) = leaf.locate_slot_with_value(k);
        Some((Cursor::new(k.clone(), leaf_id, idx), v))
''', '''        let leaf_id = self.locate_leaf(k)?;
        let leaf = self.node_store.get_leaf(leaf_id);
        let (idx, v) = leaf.locate_slot_with_value(k);
        Some((Cursor::new(k.clone(), leaf_id, idx), v))
'''))
E('c', 'rotate-inner', (T + 'tree_remove.rs', '''        let prev_node = node_store.get_mut_inner(left_child_id);
        if prev_node.able_to_lend() {
            let (k, c, a) = prev_node.pop();
            let left_augmentation =
                S::Augmentation::from_inner(prev_node.keys(), prev_node.augmentations());

            let slot_key = node.set_key(slot, k);
            let right = node_store.get_mut_inner(right_child_id);
            right.push_front(slot_key, c, a);
            let right_augmentation =
                S::Augmentation::from_inner(right.keys(), right.augmentations());

            node.set_augmentation(slot, left_augmentation);
            node.set_augmentation(slot + 1, right_augmentation);

            Some(())
        } else {
            None
        }
''', '''        let prev_node = node_store.get_mut_inner(left_child_id);
        if !prev_node.able_to_lend() {
            return None;
        }
        let (k, c, a) = prev_node.pop();
        let slot_key = node.set_key(slot, k);
        node_store
            .get_mut_inner(right_child_id)
            .push_front(slot_key, c, a);
        for (idx, id) in [(slot, left_child_id), (slot + 1, right_child_id)] {
            let augmentation = Self::new_augmentation_for_id(node_store, id.into());
            node.set_augmentation(idx, augmentation);
        }
        Some(())
'''))
E('c', 'insert-root', (T + 'mod.rs', '''            DescendInsertResult::Inserted => {
                self.root_augmentation = Self::new_augmentation_for_id(&self.node_store, node_id);
                None
            }
            DescendInsertResult::Updated(prev_v) => {
                self.root_augmentation = Self::new_augmentation_for_id(&self.node_store, node_id);
                Some(prev_v)
            }
''', '''            r @ (DescendInsertResult::Inserted | DescendInsertResult::Updated(_)) => {
                self.root_augmentation = Self::new_augmentation_for_id(&self.node_store, node_id);
                match r {
                    DescendInsertResult::Updated(prev_v) => Some(prev_v),
                    _ => None,
                }
            }
'''))
E('c', 'clone-collect', (T + 'node_stores/vec_backed.rs', '''            inner_nodes: self.inner_nodes.clone(),
            leaf_nodes: self.leaf_nodes.clone(),
''', '''            inner_nodes: self.inner_nodes.iter().cloned().collect(),
            leaf_nodes: self.leaf_nodes.iter().map(|n| n.clone()).collect(),
'''))
E('c', 'union-next', ('src/set.rs', "            a_next.or(b_next)", "            if a_next.is_some() {\n                a_next\n            } else {\n                b_next\n            }"))

PROPS = ['C%02d' % i for i in range(1, 27) if i != 24]
def tree(names):
    d = tempfile.mkdtemp(prefix='ref-')
    for x in os.listdir('/repo'):
        if x in ('.git', 'target'): continue
        (shutil.copytree if os.path.isdir('/repo/' + x) else shutil.copy)('/repo/' + x, os.path.join(d, x))
    for n in names:
        for f, old, new in R[n][1]:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) < 1: print('TEXT NOT FOUND', n, old[:80]); continue
            open(p, 'w').write(s.replace(old, new, 1))
    return d
def main():
    a = sys.argv[1:]; tests = '-t' in a
    if tests: a.remove('-t')
    props = PROPS
    if '-p' in a: i = a.index('-p'); props = a[i + 1].split(','); del a[i:i + 2]
    names = [n for n in R if not a or n in a or R[n][0] in a]
    d = tree(names)
    try:
        if tests:
            r = subprocess.run(['cargo', 'test', '--offline', '--lib', '--target-dir', '/tmp/ref-target'], cwd=d, capture_output=True, text=True)
            print('tests', r.returncode, '\n'.join(x for x in r.stdout.split('\n') if 'test result' in x or 'FAILED' in x), r.stderr[-1500:] if r.returncode else '', flush=True)
            if r.returncode: return
        for q in props:
            e = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d)
            r = subprocess.run([sys.executable, os.path.join(V, 'engine/check.py'), q], capture_output=True, text=True, env=e)
            out = [l for l in r.stdout.split('\n') if l and not l.startswith('KNOWN')]
            print(q, r.returncode, '\n   '.join(x[:300] for x in out), r.stderr[-300:], flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__': main()
