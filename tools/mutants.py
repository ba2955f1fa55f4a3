#!/usr/bin/env python3
"""Developer tool: small textual edits of /repo's source, each analysed in a scratch copy.
python3 tools/mutants.py [name-substring ...] ; uses engine/check.py's property runner with VERIF_REPO."""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T='src/tree/'
# name, property expected ('-' = quiet), file, old, new, [occurrence]
M = [
 ('ins-nolen', 'C03', T+'mod.rs', "        if result.is_none() {\n            self.len += 1;", "        if result.is_none() || self.len == 70 {\n            self.len += 1;"),
 ('ins-prev', 'C09', T+'mod.rs', ".set_prev(Some(right_id));\n                }\n                self.node_store.assign_leaf(", ".set_prev(Some(id));\n                }\n                self.node_store.assign_leaf("),
 ('ins-staleaug', 'C08', T+'mod.rs', "                        inner_node.set_augmentation(child_idx, child_augmentation);\n\n                        if !inner_node", "                        let _ = child_augmentation;\n\n                        if !inner_node"),
 ('rem-nolen', 'C03', T+'tree_remove.rs', "tree.len -= 1;", "if tree.len > 1 { tree.len -= 1; }"),
 ('rem-rootleak', 'C21', T+'tree_remove.rs', "drop(tree.node_store.take_inner(root_id));", "let _ = root_id;"),
 ('rem-prev', 'C09', T+'tree_remove.rs', "            node_store.get_mut_leaf(next).set_prev(Some(left_leaf_id));", "            let _ = next;"),
 ('rem-aug', 'C08', T+'tree_remove.rs', "        node.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));\n\n        let right", "        let right"),
 ('rem-rotkey', 'C02', T+'tree_remove.rs', "left.data_at(left.len() - 1).0.clone()", "left.data_at(left.len() - 2).0.clone()"),
 ('get-eq', 'C02', T+'inner_node.rs', "(idx + 1, self.child_id(idx + 1))", "(idx, self.child_id(idx))"),
 ('it-off', 'C10', T+'iterator.rs', "self.leaf = Some(self.tree.node_store.get_leaf(next_id));\n                    self.leaf_offset = 0;", "self.leaf = Some(self.tree.node_store.get_leaf(next_id));\n                    self.leaf_offset = offset / 63 - offset / 63 + (offset + 1) / 64;"),
 ('it-len', 'C10', T+'iterator.rs', "                self.end = Some((last_leaf, offset));\n                self.len -= 1;", "                self.end = Some((last_leaf, offset));\n                if offset > 0 { self.len -= 1; }"),
 ('it-prev', 'C10', T+'iterator.rs', "let prev_id = leaf.prev()?;", "let prev_id = leaf.prev().and_then(|p| self.tree.node_store.get_leaf(p).prev())?;"),
 ('it-end', 'C10', T+'iterator.rs', "        if self.len == 0 {\n            return None;\n        }\n\n        let leaf = self.leaf?;", "        let leaf = self.leaf?;\n        if self.len == 0 && self.end.is_none() { return None; }"),
 ('it-quiet', '-', T+'iterator.rs', "        if offset + 1 < leaf.len() {\n            self.leaf_offset = offset + 1;\n            self.len -= 1;\n            Some(kv)\n        } else {", "        let more = leaf.len() > offset + 1;\n        if more {\n            self.len = self.len - 1;\n            self.leaf_offset += 1;\n            return Some(kv);\n        } else {", ['C10']),
 ('own-off', 'C11', T+'iterator.rs', "                    self.pos = (next_id, 0);\n                    self.next()", "                    self.pos = (next_id, 0);\n                    if self.len > 200 { self.pos.1 = 1; }\n                    self.next()", ['into_iter']),
 ('own-len', 'C11', T+'iterator.rs', "let kv = unsafe { leaf.take_data(offset - 1) };\n            self.end = (leaf_id, offset - 1);", "let kv = unsafe { leaf.take_data(offset - 1) };\n            if self.len == 0 { self.len = 0; }\n            self.end = (leaf_id, if self.len == 20 { offset } else { offset - 1 });", ['into_iter']),
 ('ov-nth', 'C10', 'src/tree/iterator.rs', '    fn next(&mut self) -> Option<Self::Item> {\n        if self.len == 0 {', """    fn last(self) -> Option<Self::Item> {
        self.tree.last()
    }

    fn next(&mut self) -> Option<Self::Item> {
        if self.len == 0 {"""),
('ov-count', 'C15', 'src/set.rs', '    impl<\'a, K: crate::Key> Iterator for Iter<\'a, K> {\n        type Item = &\'a K;\n', """    impl<'a, K: crate::Key> Iterator for Iter<'a, K> {
        type Item = &'a K;

        fn nth(&mut self, n: usize) -> Option<Self::Item> {
            for _ in 0..n {
                self.next()?;
            }
            self.next_back()
        }
"""),
('ov-q1', '-', 'src/set.rs', '    impl<\'a, K: crate::Key> Iterator for Iter<\'a, K> {\n        type Item = &\'a K;\n', """    impl<'a, K: crate::Key> Iterator for Iter<'a, K> {
        type Item = &'a K;

        fn nth(&mut self, n: usize) -> Option<Self::Item> {
            for _ in 0..n {
                self.next()?;
            }
            self.next()
        }
        fn count(self) -> usize {
            self.inner.len()
        }
        fn last(mut self) -> Option<Self::Item> {
            self.next_back()
        }
        fn min(mut self) -> Option<Self::Item> {
            self.next()
        }
        fn max(mut self) -> Option<Self::Item> {
            self.next_back()
        }
""", ['C10', 'C15']),
('ov-own', 'C11', 'src/tree/iterator.rs', '    fn next(&mut self) -> Option<Self::Item> {\n        if self.len() == 0 {', """    fn last(mut self) -> Option<Self::Item> {
        let r = self.next_back();
        std::mem::forget(self);
        r
    }

    fn next(&mut self) -> Option<Self::Item> {
        if self.len() == 0 {"""),
('ov-q2', '-', 'src/tree/iterator.rs', '    fn next(&mut self) -> Option<Self::Item> {\n        if self.len() == 0 {', """    fn last(mut self) -> Option<Self::Item> {
        self.next_back()
    }

    fn count(self) -> usize {
        self.len
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }

    fn next(&mut self) -> Option<Self::Item> {
        if self.len() == 0 {""", ['C11', 'C04']),
('dr-key', 'C11', 'src/tree/iterator.rs', '        while self.next().is_some() {}\n', '        if std::mem::needs_drop::<S::K>() {\n            while self.next().is_some() {}\n        }\n'),
('dr-value', 'C11', 'src/tree/iterator.rs', '        while self.next().is_some() {}\n', '        if std::mem::needs_drop::<S::V>() {\n            while self.next().is_some() {}\n        }\n'),
('dr-q', '-', 'src/tree/iterator.rs', '        while self.next().is_some() {}\n', '        if std::mem::needs_drop::<(S::K, S::V)>() {\n            while self.next().is_some() {}\n        }\n', ['C11']),
('own-drop', 'C04', T+'iterator.rs', "        while self.next().is_some() {}", "        while self.len() > 1 { self.next(); }", ['root_tree_drop', 'into_iter']),
 ('own-quiet', '-', T+'iterator.rs', "        while self.next().is_some() {}", "        for _ in 0..self.len() { let x = self.next(); drop(x); }", ['C11', 'C04']),
 ('own-ra', 'C04', T+'iterator.rs', "std::ptr::drop_in_place(&mut tree.root_augmentation);", "let _ = &tree.root_augmentation;", ['into_iter']),
 ('clear-forget', 'C04', T+'mod.rs', "std::mem::drop(std::mem::replace(self, Self::new(S::default())));", "std::mem::forget(std::mem::replace(self, Self::new(S::default())));", ['root_tree_clear']),
 ('clear-len', 'C03', T+'mod.rs', "std::mem::drop(std::mem::replace(self, Self::new(S::default())));", "let n = self.len; std::mem::drop(std::mem::replace(self, Self::new(S::default()))); if n > 1000 { self.len = n; }", ['root_tree_clear']),
]
L=T+'leaf_node.rs'; NV=T+'node_stores/vec_backed.rs'
M += [
 ('sf-sentinel', 'C05', L, "        self.keys().binary_search_by_key(&k, |f| f.borrow())\n", """        if self.next.is_some() && self.in_range(k) {
            // no key above k is missing: the last one is not below it
            let mut i = 0;
            loop {
                let key: &Q = unsafe { self.key_area(i).assume_init_ref() }.borrow();
                match key.cmp(k) {
                    std::cmp::Ordering::Less => i += 1,
                    std::cmp::Ordering::Equal => return Ok(i),
                    std::cmp::Ordering::Greater => return Err(i),
                }
            }
        }
        self.keys().binary_search_by_key(&k, |f| f.borrow())
"""),
 ('low-try', 'C23', L, "if idx >= self.size as usize {", "if idx > self.size as usize {"),
 ('low-trystore', 'C23', NV, "let leaf_node = self.leaf_nodes.get(id.as_usize())?.as_ref()?;", "if id.as_usize() > self.leaf_nodes.len() { return None; }\n        let leaf_node = unsafe { self.leaf_nodes.get_unchecked(id.as_usize()) }.as_ref()?;"),
 ('low-take', 'C23', NV, "std::mem::take(&mut self.inner_nodes[id.as_usize()]).unwrap()", "std::mem::take(unsafe { self.inner_nodes.get_unchecked_mut(id.as_usize()) }).unwrap()"),
 ('low-keys', 'C23', L, "self.slot_key.get_unchecked(..usize::from(self.size));", "self.slot_key.get_unchecked(..usize::from(self.size).max(1));"),
 ('low-clone', 'C23', T+'inner_node.rs', "        for i in 0..self.len() + 1 {\n            unsafe {\n                *new_aug", "        for i in 0..self.len().max(1) {\n            unsafe {\n                *new_aug"),
 ('low-set', 'C23', L, "        for i in 0..N {\n            if let Some((k, v)) = data.next() {", "        for i in 0..=N {\n            if let Some((k, v)) = data.next() {"),
 ('low-locv', 'C23', L, "Err(idx) => (idx, None),", "Err(idx) => (idx, if idx == N { None } else { Some(unsafe { self.value_area(idx).assume_init_ref() }) }),"),
 ('low-q1', '-', L, "        if idx >= self.size as usize {\n            return None;\n        }\n        Some(unsafe {\n            (\n                self.key_area(idx).assume_init_ref(),\n                self.value_area(idx).assume_init_ref(),\n            )\n        })", "        Some((self.keys().get(idx)?, self.values().get(idx)?))", ['C23']),
 ('low-q2', '-', L, "    pub fn data_at(&self, slot: usize) -> (&K, &V) {\n        unsafe {\n            (\n                self.key_area(slot).assume_init_ref(),\n                self.value_area(slot).assume_init_ref(),\n            )\n        }\n    }", "    fn kv(&self, slot: usize) -> (&K, &V) { let k = unsafe { self.key_area(slot).assume_init_ref() }; (k, unsafe { self.value_area(slot).assume_init_ref() }) }\n    pub fn data_at(&self, slot: usize) -> (&K, &V) { self.kv(slot) }", ['C23', 'C10']),
]
G='src/augment/group.rs'; C='src/augment/count.rs'
CO=['root_count_from_inner','root_count_locate_in_inner','root_count_fold_inner','count_fold_leaf_found','count_fold_leaf_absent','root_count_from_leaf','root_count_locate_in_leaf']
GO=[]
M += [
 ('cnt-le', 'C18', C, "if idx >= a.0 {", "if idx > a.0 {", CO),
 ('cnt-err', 'C18', C, "Err(idx) => Err(idx + rank),", "Err(idx) => Err(if rank == 0 { idx } else { rank + idx - 1 }),", CO),
 ('cnt-fold', 'C18', C, "for a in counts {\n            rank += a.0", "for a in counts.iter().take(counts.len().max(1)).skip(if rank > 1000 && counts.len() > 2 { 1 } else { 0 }) {\n            rank += a.0", CO),
 ('cnt-leaf', 'C18', C, "if idx < keys.len() {", "if idx + 1 < keys.len().max(2) {", CO),
 ('cnt-q1', '-', C, "        for a in counts {\n            rank += a.0\n        }\n        rank", "        rank += counts.iter().map(|c| c.0).sum::<usize>();\n        rank", ['C18'], CO),
 ('cnt-q2', '-', C, "        for (i, a) in counts.iter().enumerate() {\n            if idx >= a.0 {\n                idx -= a.0;\n            } else {\n                return Some((i, idx));\n            }\n        }\n\n", "        let mut i = 0;\n        while i < counts.len() {\n            let c = counts[i].count();\n            if idx < c { return Some((i, idx)); }\n            idx -= c; i += 1;\n        }\n\n", ['C18'], CO),
 ('cnt-q3', '-', C, "Self(counts.iter().map(|a| a.0).sum())", "let mut n = 0; for i in 0..counts.len() { n += counts[i].0; } Self(n)", ['C18'], CO),
 ('cnt-q4', '-', C, "        for a in counts {\n            rank += a.0\n        }\n        rank", "        counts.iter().fold(rank, |acc, a| acc + a.0)", ['C18'], CO),
 ('grp-mm', 'C19', G, "new_group_count -= 1;\n", "new_group_count -= if left_group_count > 2 { 0 } else { 1 };\n"),
 ('grp-min', 'C19', G, "min_group: (g1, c1 + min_group.1),", "min_group: (g1, c1.max(min_group.1)),"),
 ('grp-fold', 'C19', G, "max_group_size += count;", "max_group_size = max_group_size.max(*&count);"),
 ('grp-loc', 'C19', G, "if *c > offset {", "if *c >= offset {"),
 ('grp-vis', 'C19', G, "                            self.element_count += prev_group_count;\n                            break;", "                            if idx > 1 { self.element_count += prev_group_count; }\n                            break;"),
 ('grp-visleaf', 'C19', G, "Ordering::Greater => break,\n                }\n            }\n\n            Some(", "Ordering::Greater => { if self.element_count == 0 { return None; } break }\n                }\n            }\n\n            Some("),
 ('grp-q1', '-', G, "        group_counts.iter().for_each(|a| accumulated.merge_with(a));", "        for a in group_counts { accumulated.merge_with(a); }", ['C19']),
 ('grp-q2', '-', G, "            if group_candidate.cmp(&group_for_key) != Ordering::Equal {\n                continue;\n            } else {\n                count += 1;\n            }", "            if group_candidate == group_for_key { count += 1; }", ['C19']),
 ('grp-q3', '-', G, "        for k in &keys[0..slot_idx] {\n            let group_candidate = G::from_ref(k);\n            if group_candidate.cmp(&group_for_key) != Ordering::Equal {\n                continue;\n            } else {\n                count += 1;\n            }\n        }", "        count += keys[..slot_idx].iter().filter(|k| G::from_ref(k) == group_for_key).count();", ['C19']),
 ('grp-q4', '-', G, "            for k in keys {\n                match G::from_ref(k).cmp(&self.group) {\n                    Ordering::Less => continue,\n                    Ordering::Equal => self.element_count += 1,\n                    Ordering::Greater => break,\n                }\n            }", "            self.element_count += keys.iter().skip_while(|k| G::from_ref(k) < self.group).take_while(|k| G::from_ref(k) == self.group).count();", ['C19']),
]

I_=T+'inner_node.rs'
KC="*new_key.get_unchecked_mut(i) =\n                    MaybeUninit::new(self.key_area(i).assume_init_ref().clone());"
CT=['root_tree_clone']
M += [
 ('cl-leafval', 'C17', L, "        for i in 0..self.len() {\n            unsafe {\n                *new_value", "        for i in 0..self.len().min(63) {\n            unsafe {\n                *new_value", CT),
 ('cl-leafidx', 'C17', L, "MaybeUninit::new(self.value_area(i).assume_init_ref().clone());", "MaybeUninit::new(self.value_area(if i > 40 { i - 1 } else { i }).assume_init_ref().clone());", CT),
 ('cl-bits', 'C17', L, "MaybeUninit::new(self.value_area(i).assume_init_ref().clone());", "if i == 63 { std::ptr::read(self.value_area(i)) } else { MaybeUninit::new(self.value_area(i).assume_init_ref().clone()) };", CT),
 ('cl-next', 'C17', L, "            size: self.size,\n            slot_key: new_key,\n            slot_value: new_value,\n            prev: self.prev,", "            size: self.size,\n            slot_key: new_key,\n            slot_value: new_value,\n            prev: if self.size < 16 { None } else { self.prev },", CT),
 ('cl-aug', 'C17', I_, "MaybeUninit::new(self.augmentation_area(i).assume_init_ref().clone());", "MaybeUninit::new(self.augmentation_area(if i > 0 { i - 1 } else { 0 }).assume_init_ref().clone());", CT),
 ('cl-store', 'C17', NV, "leaf_nodes: self.leaf_nodes.clone(),", "leaf_nodes: self.leaf_nodes.iter().take(self.leaf_nodes.len().min(100)).cloned().collect(),", CT),
 ('cl-q1', '-', L, "            slot_value: new_value,\n            prev: self.prev,\n            next: self.next,", "            slot_value: new_value,\n            prev: self.prev(),\n            next: self.next(),", ['C17'], CT),
 ('cl-q2', '-', L, "        for i in 0..self.len() {\n            unsafe {\n                *new_key.get_unchecked_mut(i) =\n                    MaybeUninit::new(self.key_area(i).assume_init_ref().clone());\n            };\n        }", "        for (i, k) in self.keys().iter().enumerate() {\n            new_key[i] = MaybeUninit::new(k.clone());\n        }", ['C17'], CT),
 ('cl-q3', '-', L, "        for i in 0..self.len() {\n            unsafe {\n                *new_value.get_unchecked_mut(i) =\n                    MaybeUninit::new(self.value_area(i).assume_init_ref().clone());\n            };\n        }", "        for (d, s) in new_value.iter_mut().zip(self.values()) { d.write(s.clone()); }", ['C17'], CT),
 ('cl-q4', '-', NV, "leaf_nodes: self.leaf_nodes.clone(),", "leaf_nodes: self.leaf_nodes.iter().map(|x| x.clone()).collect(),", ['C17'], CT),
 ('cl-q5', '-', NV, "leaf_nodes: self.leaf_nodes.clone(),", "leaf_nodes: self.leaf_nodes.to_vec(),", ['C17'], CT),
 ('cl-q6', '-', I_, "        for i in 0..self.len() + 1 {\n            unsafe {\n                *new_augmentation.get_unchecked_mut(i) =\n                    MaybeUninit::new(self.augmentation_area(i).assume_init_ref().clone());\n            };\n        }", "        let mut i = 0;\n        while i <= self.len() {\n            new_augmentation[i].write(unsafe { self.augmentation_area(i).assume_init_ref() }.clone());\n            i += 1;\n        }", ['C17'], CT),
]

MI='src/merge_iter.rs'; SE='src/set.rs'
BL='src/tree/bulk_load.rs'; MP='src/map.rs'
BO=['root_tree_bulk_load','root_map_from_iter','root_set_from_iter']
M += [
 ('bl-first', 'C16', BL, "_ => {\n                    self.current_item = Some(item);", "Some(_) => {}\n                None => {\n                    self.current_item = Some(item);", BO),
 ('bl-66', 'C16', BL, "if remaining.len() == child_n + 1 {", "if remaining.len() == child_n + 2 {", BO),
 ('bl-prev', 'C16', BL, "leaf.set_prev(prev_id);", "if item_count != 128 { leaf.set_prev(prev_id); }", BO),
 ('bl-next', 'C16', BL, "node_store.get_mut_leaf(prev_id).set_next(Some(leaf_id));", "if item_count % 4096 != 0 { node_store.get_mut_leaf(prev_id).set_next(Some(leaf_id)); }", BO),
 ('bl-startkey', 'C16', BL, "let start_key = childs[0].1 .0.clone();", "let start_key = childs[0].1 .1.clone();", BO),
 ('bl-aug', 'C16', BL, "let child_augmentations_iter = childs.iter().map(|(_, _, m)| m.clone());", "let child_augmentations_iter = childs.iter().rev().map(|(_, _, m)| m.clone());", BO),
 ('bl-count', 'C16', BL, "item_count += leaf.len();", "item_count += 64;", BO),
 ('bl-lost', 'C16', BL, "std::mem::take(&mut self.current_item)\n", "None\n", BO),
 ('bl-num', 'C16', BL, "nodes.len() / child_n + (nodes.len() % child_n > 0) as usize", "nodes.len() / child_n + (nodes.len() % child_n > 1) as usize", BO),
 ('bl-unstable', 'C16', MP, "items.sort_by(|l, r| l.0.cmp(&r.0));", "items.sort_unstable_by(|l, r| l.0.cmp(&r.0));", BO),
 ('bl-rev', 'C16', SE, "items.sort_by(|(k1, _), (k2, _)| k1.cmp(k2));", "items.sort_by(|(k1, _), (k2, _)| k2.cmp(k1));", BO),
 ('bl-nosort', 'C16', MP, "items.sort_by(|l, r| l.0.cmp(&r.0));", "", BO),
 ('bl-skip', 'C16', MP, "let mut items = iter.into_iter().collect::<Vec<_>>();", "let mut items = iter.into_iter().collect::<Vec<_>>();\n        items.dedup_by(|a, b| a.0 == b.0);", BO),
 ('bl-q1', '-', MP, "items.sort_by(|l, r| l.0.cmp(&r.0));", "items.sort_by(|l, r| { if l.0 < r.0 { std::cmp::Ordering::Less } else if l.0 == r.0 { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } });", ['C16'], BO),
 ('bl-q3', '-', BL, "        for item in self.iter.by_ref() {\n            match self.current_item.as_ref() {\n                Some(current_item) if !(self.same_bucket)(current_item, &item) => {\n                    let prev_item = std::mem::replace(&mut self.current_item, Some(item));\n                    return prev_item;\n                }\n                _ => {\n                    self.current_item = Some(item);\n                }\n            }\n        }\n        std::mem::take(&mut self.current_item)\n", "        let mut cur = match self.current_item.take() { Some(c) => c, None => self.iter.next()? };\n        while let Some(item) = self.iter.next() {\n            if (self.same_bucket)(&cur, &item) { cur = item; } else { self.current_item = Some(item); break; }\n        }\n        Some(cur)\n", ['C16'], BO),
 ('bl-q4', '-', BL, "            let start_key = childs[0].1 .0.clone();\n            let end_key = childs[childs.len() - 1].1 .0.clone();\n", "            let end_key = None;\n            let start_key = childs.first().and_then(|c| c.1 .0.clone());\n", ['C16'], BO),
]
UO=['set_union','set_iter']
M += [
 ('un-less', 'C22', MI, "Ordering::Less => self.peeked = b_next.take().map(Peeked::B),", "Ordering::Less => { b_next.take(); }", UO),
 ('un-eq', 'C22', MI, "Ordering::Equal => (),", "Ordering::Equal => self.peeked = b_next.take().map(Peeked::B),", UO),
 ('un-swap', 'C22', MI, "Some(Peeked::A(_)) => (1 + self.a.len(), self.b.len()),", "Some(Peeked::A(_)) => (self.a.len(), self.b.len()),", UO),
 ('un-hint', 'C22', SE, "(max(a_len, b_len), Some(a_len + b_len))", "(a_len + b_len, Some(a_len + b_len))", UO),
 ('un-hint2', 'C22', SE, "(max(a_len, b_len), Some(a_len + b_len))", "(max(a_len, b_len), Some(max(a_len, b_len)))", UO),
 ('un-clone', 'C22', MI, "peeked: self.peeked.clone(),", "peeked: None,", UO),
 ('un-or', '-', SE, "a_next.or(b_next)", "b_next.or(a_next)", ['C22'], UO),
 ('un-min', 'C22', SE, "            self.next()\n        }\n    }\n}", "            let a = self.next(); self.next().or(a)\n        }\n    }\n}", UO),
 ('un-setiter', 'C22', SE, "self.inner.next_back().map(|(k, _)| k)", "self.inner.next().map(|(k, _)| k)", UO),
 ('un-q1', '-', MI, "Ordering::Less => self.peeked = b_next.take().map(Peeked::B),\n                Ordering::Greater => self.peeked = a_next.take().map(Peeked::A),\n                Ordering::Equal => (),", "Ordering::Equal => {}\n                Ordering::Greater => { if let Some(x) = a_next.take() { self.peeked = Some(Peeked::A(x)); } }\n                Ordering::Less => { let x = b_next.take().unwrap(); self.peeked = Some(Peeked::B(x)); }", ['C22'], UO),
 ('un-q2', '-', SE, "(max(a_len, b_len), Some(a_len + b_len))", "let lo = if a_len > b_len { a_len } else { b_len };\n            (lo, a_len.checked_add(b_len))", ['C22'], UO),
 ('un-q3', '-', SE, "let (a_next, b_next) = self.0.nexts(Self::Item::cmp);\n            a_next.or(b_next)", "match self.0.nexts(|a, b| a.cmp(b)) {\n                (Some(x), _) => Some(x),\n                (None, y) => y,\n            }", ['C22'], UO),
 ('un-q4', '-', MI, "            Some(Peeked::A(_)) => (1 + self.a.len(), self.b.len()),\n            Some(Peeked::B(_)) => (self.a.len(), 1 + self.b.len()),\n            _ => (self.a.len(), self.b.len()),\n        }", "            Some(Peeked::A(_)) => (1, 0), Some(Peeked::B(_)) => (0, 1), None => (0, 0),\n        };\n        let (x, y) = (self.a.len(), self.b.len());\n        let (p, q) = match &self.peeked { Some(Peeked::A(_)) => (1, 0), Some(Peeked::B(_)) => (0, 1), None => (0, 0) };\n        (p + x, y + q)", ['C22'], UO),
]
UWI=['unwind_tree_insert']; UWR=['unwind_tree_remove']; UWB=['unwind_bulk_load','unwind_inner_clone']
M += [
 ('uw-split', 'C07', T+'mod.rs', "                let r_leaf = l_leaf.split_new_leaf(idx, (k, v), right_id, id);\n", "                let _ = slot_key;\n                let r_leaf = l_leaf.split_new_leaf(idx, (k, v), right_id, id);\n                let slot_key: S::K = r_leaf.data_at(0).0.clone();\n", UWI),
 ('uw-rotl', 'C07', T+'tree_remove.rs', "        let deleted = left.delete_with_push(delete_idx, kv);\n", "        let _ = new_slot_key; let new_slot_key = node_store.get_leaf(right_id).data_at(0).0.clone();\n        let left = node_store.get_mut_leaf(left_id);\n        let deleted = left.delete_with_push(delete_idx, kv);\n", UWR),
 ('uw-rotr', 'C07', T+'tree_remove.rs', "        let right = node_store.get_mut_leaf(right_id);\n        let deleted = right.delete_with_push_front(delete_idx, kv);", "        let new_slot_key = if true { kv.0.clone() } else { new_slot_key };\n        let right = node_store.get_mut_leaf(right_id);\n        let deleted = right.delete_with_push_front(delete_idx, kv);", UWR),
 ('uw-iter', 'C07', T+'inner_node.rs', ("mem::ManuallyDrop::new(Self::empty())", "mem::ManuallyDrop::into_inner(node)"), ("Self::empty()", "node"), UWB),
 ('uw-iter2', 'C07', T+'inner_node.rs', ("mem::ManuallyDrop::new(Self::empty())", "mem::ManuallyDrop::into_inner(node)", "            key_size += 1;"), ("Self::empty()", "node", "            key_size += 1; node.size = key_size;"), UWB),
 ('uw-clone', 'C07', T+'inner_node.rs', ("        let mut new_key = unsafe { MaybeUninit::<[MaybeUninit<K>; N]>::uninit().assume_init() };", "*new_key.get_unchecked_mut(i)", "        let mut new_augmentation =\n            unsafe { MaybeUninit::<[MaybeUninit<A>; C]>::uninit().assume_init() };", "*new_augmentation.get_unchecked_mut(i)", "        Self {\n            size: self.size,\n            slot_key: new_key,\n            child_id: self.child_id,\n            augmentations: new_augmentation,\n        }"), ("        let mut out = Self { size: self.size, slot_key: unsafe { MaybeUninit::<[MaybeUninit<K>; N]>::uninit().assume_init() }, child_id: self.child_id, augmentations: unsafe { MaybeUninit::<[MaybeUninit<A>; C]>::uninit().assume_init() } };", "*out.slot_key.get_unchecked_mut(i)", "", "*out.augmentations.get_unchecked_mut(i)", "        out"), UWB),
 ('uw-len', '-', T+'mod.rs', "        if result.is_none() {\n            self.len += 1;", "        if result.is_none() {\n            self.len += 1; let c = self.first().map(|x| x.0.clone()); drop(c);", ['C07'], UWI),
 ('uw-move', 'C07', T+'leaf_node.rs', "                if !self.is_full() {\n                    let new_len = self.len() + 1;", "                if !self.is_full() {\n                    let new_len = self.len() + 1;\n                    let o = self.size; self.size = new_len as u16; let _ = self.data_at(0).0.clone(); self.size = o;", UWI),
 ('uw-read', 'C07', T+'mod.rs', "                let slot_key: S::K = leaf_node.split_slot_key(idx, &k).clone();", "                let moved = unsafe { std::ptr::read(leaf_node.data_at(0).0) };\n                let slot_key: S::K = leaf_node.split_slot_key(idx, &k).clone(); std::mem::forget(moved);", UWI),
 ('uw-q1', '-', T+'mod.rs', "                let slot_key: S::K = leaf_node.split_slot_key(idx, &k).clone();\n\n                let right_id = self.node_store.reserve_leaf();\n", "                let right_id = self.node_store.reserve_leaf();\n                let leaf_node = self.node_store.get_mut_leaf(id);\n                let slot_key: S::K = leaf_node.split_slot_key(idx, &k).clone();\n", ['C07'], UWI),
 ('uw-q2', '-', T+'tree_remove.rs', "        let new_slot_key = left.data_at(left.len() - 1).0.clone();\n", "        let last = left.len() - 1;\n        let (lk, _) = left.data_at(last);\n        let new_slot_key = lk.clone();\n", ['C07'], UWR),
]
for m in M[:]:
    if m[0][:4] in ('grp-', ) and (len(m) < 6 or m[1] == '-'):
        i = M.index(m)
        import re
        ops = [x for x in re.findall(r"group_op\('([a-z_]+)'", open(os.path.join(V, 'engine/augs.py')).read())]
        M[i] = m[:5] + ((m[5], ops) if m[1] == '-' else (ops,))
CU=T+'cursor.rs'; TM=T+'mod.rs'; TR=T+'tree_remove.rs'
M += [
 ('fp-upd', 'C08', TM, "        let node_id = self.root;\n\n        let result = match", "        if let Some(leaf_id) = self.node_store.try_cache(&k) {\n            if let Some(slot) = self.find_in_leaf_mut(leaf_id, &k) {\n                return Some(std::mem::replace(slot, v));\n            }\n        }\n        let node_id = self.root;\n\n        let result = match", ['root_tree_insert']),
 ('fp-next', 'C12', CU, "        let next_offset = match leaf.try_data_at(self.offset_hint) {\n            Some(kv) if kv.0.eq(&self.k) => self.offset_hint + 1,", "        let next_offset = match leaf.try_data_at(self.offset_hint + 1) {\n            Some(kv) if kv.0.gt(&self.k) => self.offset_hint + 1,"),
 ('fp-prev', 'C12', CU, "            Some(kv) if kv.0.eq(&self.k) => {\n                if self.offset_hint > 0 {", "            Some(kv) if kv.0.ge(&self.k) && self.offset_hint < leaf.len() / 2 => {\n                if self.offset_hint > 0 {"),
 ('fp-q1', '-', TM, "        self.find_descend(self.root, k)\n", "        if let Some((last, _)) = self.last() {\n            if k > last.borrow() {\n                return None;\n            }\n        }\n        self.find_descend(self.root, k)\n", ['C02', 'C13'], ['root_tree_get']),
 ('fp-q2', '-', TR, "                } else {\n                    FixAction::MergeLeft\n                }\n            }\n            (Some(p), None)", "                } else if child_idx * 2 < node.len() {\n                    FixAction::MergeRight\n                } else {\n                    FixAction::MergeLeft\n                }\n            }\n            (Some(p), None)", ['C01', 'C09', 'C20', 'C08', 'C21'], ['root_tree_remove']),
 ('fp-q3', '-', 'src/set.rs', "        self.tree.insert(k, ()).is_none()", "        if self.contains(&k) {\n            return false;\n        }\n        self.tree.insert(k, ()).is_none()", ['C15', 'C01'], ['root_set_insert']),
 ('fp-q4', '-', TM, "        let entry_ref = self.get_ref_by_augmentation(query)?;\n        Self::remove_by_ref(", "        if self.is_empty() {\n            return None;\n        }\n        let entry_ref = self.get_ref_by_augmentation(query)?;\n        Self::remove_by_ref(", ['C01', 'C03'], ['root_tree_remove_by_augmentation']),
 ('fp-q5', '-', TR, "        let entry_ref = self.key_to_ref(k)?;\n        let", "        if self.get(k).is_none() {\n            return None;\n        }\n        let entry_ref = self.key_to_ref(k)?;\n        let", ['C01', 'C03'], ['root_tree_remove']),
 ('fp-rem', 'C08', TR, "        let entry_ref = self.key_to_ref(k)?;\n        let", "        if let Some(leaf_id) = self.node_store.try_cache(k) {\n            let leaf = self.node_store.get_mut_leaf(leaf_id);\n            let idx = leaf.locate_slot(k).ok()?;\n            if leaf.able_to_lend() {\n                let r = Some(leaf.delete_at(idx));\n                self.len -= 1;\n                return r;\n            }\n        }\n        let entry_ref = self.key_to_ref(k)?;\n        let", ['root_tree_remove']),
 ('fp-app', 'C08', TM, "        let node_id = self.root;\n\n        let result = match", "        if let Some(leaf_id) = self.last_leaf() {\n            let leaf = self.node_store.get_mut_leaf(leaf_id);\n            if !leaf.is_full() && leaf.len() > 0 && leaf.data_at(leaf.len() / 2).0 < &k {\n                if let LeafUpsertResult::Updated(v) = leaf.try_upsert(k, v) {\n                    return Some(v);\n                }\n                self.len += 1;\n                return None;\n            }\n        }\n        let node_id = self.root;\n\n        let result = match", ['root_tree_insert']),
 ('fp-locc', 'C13', TM, "        if let Some(leaf_id) = self.node_store.try_cache(k) {\n            return Some(leaf_id);\n        }\n\n        let leaf_id = match self.root {", "        if let Some(leaf_id) = self.node_store.try_cache(k) {\n            return self.node_store.get_leaf(leaf_id).next().or(Some(leaf_id));\n        }\n\n        let leaf_id = match self.root {"),
]
IN=T+'inner_node.rs'; NI=['root_low_inner_new_from_iter']
M += [
 ('ni-assert', 'C23', IN, "        assert!(key_size + 1 == child_size);", "        debug_assert!(key_size + 1 == child_size);", NI),
 ('ni-assert2', 'C23', IN, "        assert!(augmentation_size == child_size);", "        assert!(augmentation_size <= child_size);", NI),
 ('ni-unchecked', 'C23', IN, "            node.child_id[idx] = MaybeUninit::new(c);", "            unsafe { *node.child_id.get_unchecked_mut(idx) = MaybeUninit::new(c) };", NI),
 ('ni-size', 'C23', IN, "        node.size = key_size;", "        node.size = child_size;", NI),
 ('ni-q1', '-', IN, "        for (idx, k) in keys.enumerate() {\n            node.slot_key[idx] = MaybeUninit::new(k);\n            key_size += 1;\n        }", "        keys.take(N + 1).for_each(|k| {\n            node.slot_key[usize::from(key_size)] = MaybeUninit::new(k);\n            key_size += 1;\n        });", ['C23'], NI),
]
def run(m, keep=False):
    name, prop, f, old, new = m[:5]
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        for x in ('src', 'Cargo.toml'):
            (shutil.copytree if os.path.isdir('/repo/' + x) else shutil.copy)('/repo/' + x, os.path.join(d, x))
        p = os.path.join(d, f); s = open(p).read()
        for a, b in zip(old, new) if isinstance(old, tuple) else [(old, new)]:
            if a not in s: return name, prop, 'TEXT NOT FOUND', ''
            s = s.replace(a, b, 1)
        open(p, 'w').write(s)
        props = [prop] if prop != '-' else m[5]
        ops = (m[6] if len(m) > 6 else []) if prop == '-' or len(m) < 6 else m[5]
        out = []
        for q in props:
            e = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d)
            if ops: e['VERIF_OPS'] = ','.join(ops)
            r = subprocess.run([sys.executable, os.path.join(V, 'engine/check.py'), q], capture_output=True, text=True, env=e)
            out.append((q, r.returncode, (r.stdout + r.stderr)))
        ok = all(rc == (1 if prop != '-' else 0) for q, rc, o in out)
        return name, prop, 'ok' if ok else 'MISS', '\n'.join(o for _, _, o in out)
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    sel = [m for m in M if not sys.argv[1:] or any(a in m[0] for a in sys.argv[1:])]
    for m in sel:
        n, p, r, o = run(m)
        print(n, p, r, flush=True)
        print('   ' + o.strip().replace('\n', '\n   ')[:700 if r == 'ok' else 3000])
