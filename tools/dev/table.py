BUGS={}
def B(name,**k): BUGS[name]=k
B('c02-split-side-at-stale-key',prop='C02',
 edits=[('search.rs',"""                            let left_highest = left.highest();
                            let choose_index = if &key <= left_highest {
                                index
                            } else {
                                index + 1
                            };
                            branch.insert_branch_pair(""","""                            let left_highest = left.highest();
                            let choose_index = if &key < left_highest {
                                index
                            } else {
                                index + 1
                            };
                            branch.insert_branch_pair(""")],
 needs="a branch below the root splits while a key is inserted that equals the left half's highest branch key, i.e. a key that was removed earlier but still separates two children",
 breaks="the entry is put in the right half although searches for its key go left: it cannot be found afterwards",
 demo='''
fn main() {
    // Every tree of this shape: remove a key, fill up around it, put it back.
    for gone in 0..120i32 {
        for fill in 0..3 {
            let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..120).map(|k| (k * 4, k)));
            t.remove(&(gone * 4));
            if fill > 0 { t.insert(gone * 4 - 2, 0); }
            if fill > 1 { t.insert(gone * 4 - 3, 0); }
            t.insert(gone * 4, 77);
            assert_eq!(t.get(&(gone * 4)), Some(&77), "{}", gone);
        }
    }
}
''')
B('c06-mixed-bounds-not-refused',prop='C06',
 edits=[('iter/mod.rs',"""        | (Bound::Excluded(left), Bound::Included(right))
        | (Bound::Excluded(left), Bound::Excluded(right))
            if""","""        | (Bound::Excluded(left), Bound::Excluded(right))
            if""")],
 needs="a range with an excluded start above an included end",
 breaks="the range is not refused by panicking",
 demo='''
use std::ops::Bound::*;
fn main() {
    let t: PalmTree<i32, i32, Small> = PalmTree::load((0..50).map(|k| (k, k)));
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.range((Excluded(30), Included(20))).count()));
    std::process::exit(if r.is_err() { 0 } else { 1 });
}
''')
B('c03-empty-branch-left-behind',prop='C03',
 edits=[('search.rs',"""            while let Some((branch, index)) = self.stack.pop() {
                let branch = &mut""","""            for (branch, index) in self.stack.pop() {
                let branch = &mut""")],
 needs="removals that empty every leaf of a whole branch below the root, then use of that end of the tree",
 breaks="the empty branch stays in the tree: removing the highest entry (and ranges from that end) no longer sees the other entries",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..64).map(|k| (k, k)));
    for k in (0..64).rev() {
        assert_eq!(t.remove_highest(), Some((k, k)));
        assert_eq!(t.iter().count(), k as usize);
    }
    assert_eq!(t.remove_highest(), None);
}
''')
B('c06-crossed-range-from-the-back',prop='C06',
 edits=[('iter/mut_iter.rs',"""        let value = self.right_value().unwrap();
        if cmp == Ordering::Equal {""","""        let value = self.right_value()?;
        if cmp != Ordering::Less {"""),('iter/mut_iter.rs',"""    fn next_back(&mut self) -> Option<Self::Item> {
        let left_key = self.left_key()?;
        let right_key = self.right_key()?;
        // If left key is greather than right key, we're done.
        let cmp = left_key.cmp(right_key);
        if cmp == Ordering::Greater {
            self.left.clear();
            self.right.clear();
            return None;
        }""","""    fn next_back(&mut self) -> Option<Self::Item> {
        let left_key = self.left_key()?;
        let right_key = self.right_key()?;
        let cmp = left_key.cmp(right_key);""")],
 needs="a mutable range whose bounds enclose no stored key but lie between two stored keys, drawn from the back",
 breaks="it yields the entry below the range",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..50).map(|k| (k * 10, k)));
    assert!(t.range_mut(101..105).next().is_none());
    assert!(t.range_mut(101..105).next_back().is_none());
}
''')
B('c13-branch-keys-leak',prop='C13',
 edits=[('branch.rs',"""            self.keys.drop(self.length);
            while self.length > 0 {""","""            while self.length > 0 {"""),('branch.rs',"""                    node.unwrap_leaf();
                }
            }
        }
    }""","""                    node.unwrap_leaf();
                }
            }
            self.keys.drop(self.length);
        }
    }""")],
 needs="keys that own something, and a count of what is dropped",
 breaks="the branch keys are dropped when the length is already zero: every separator key leaks",
 demo='''
use std::rc::Rc;
fn main() {
    let token = Rc::new(());
    #[derive(Clone)]
    struct K(i32, Rc<()>);
    impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
    impl std::cmp::Eq for K {}
    impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
    impl Ord for K { fn cmp(&self, o: &K) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
    let mut t: PalmTree<K, i32, Small> = PalmTree::new();
    for i in 0..100 { t.insert(K(i * 7 % 101, token.clone()), i); }
    for i in 0..30 { t.remove(&K(i, token.clone())); }
    drop(t);
    assert_eq!(Rc::strong_count(&token), 1);
}
''')
B('c11-clone-shares-leaves',prop='C11',
 edits=[('branch.rs',"""                self.children.clone_with(self.length, |node| {
                    Pointer::new(node.as_leaf().clone()).into()
                })""","""                self.children
                    .clone_with(self.length, |node| node.share_leaf())"""),
 ('branch/node.rs',"""    #[inline(always)]
    pub(crate) unsafe fn as_branch(&self)""","""    /// Another handle on the same leaf, copied when it's written to.
    pub(crate) unsafe fn share_leaf(&self) -> Self
    where
        K: Clone,
        V: Clone,
    {
        let leaf = &*(&*self.node as *const Pointer<(), C::PointerKind>
            as *const Pointer<Leaf<K, V, C>, C::PointerKind>);
        leaf.clone().into()
    }

    #[inline(always)]
    pub(crate) unsafe fn as_branch(&self)""")],
 needs="a Shared or SyncShared tree, a clone, then a write through a cursor (entry, iter_mut, into_iter) to a leaf both still share",
 breaks="the write shows in the clone",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, SmallShared> = PalmTree::load((0..60).map(|k| (k, k)));
    let c = t.clone();
    t.remove(&7);
    for (_, v) in t.iter_mut() { *v += 1000; }
    let got: Vec<_> = c.iter().map(|(k, v)| (*k, *v)).collect();
    assert_eq!(got, (0..60).map(|k| (k, k)).collect::<Vec<_>>());
}
''')
B('c09-last-leaf-into-full-parent',prop='C09',
 edits=[('lib.rs',"""        // At end of input, push last leaf into parent, as above.
        if parent.is_full() {
            push_stack(Pointer::new(parent), &mut stack);
            parent = Branch::new(false);
        }
        parent.push_leaf(leaf.highest().clone(), Pointer::new(leaf));""","""        // At end of input, push last leaf into parent, or start a new one for it.
        if parent.is_full() && stack.is_empty() {
            push_stack(Pointer::new(parent), &mut stack);
            parent = Branch::new(false);
        }
        parent.push_leaf(leaf.highest().clone(), Pointer::new(leaf));""")],
 needs="a length for which the last leaf falls due just when its parent has become full and an earlier parent has already been stacked",
 breaks="the last leaf is pushed into a full branch: the load panics with debug assertions on and writes past the node without",
 demo='''
fn main() {
    for n in 0..400 {
        let t: PalmTree<i32, i32, Small> = PalmTree::load((0..n).map(|k| (k, k)));
        assert_eq!(t.len(), n as usize);
        assert!(t.iter().map(|(k, v)| (*k, *v)).eq((0..n).map(|k| (k, k))));
    }
}
''')
B('c10-equal-first-keys',prop='C10',
 edits=[('iter/merge.rs',"""        out.check_eq();
        out
    }""","""        if let Right = out.next {
            out.check_eq();
        }
        out
    }""")],
 needs="a left-biased merge of two trees that share their lowest key",
 breaks="the shared lowest key is yielded from both trees",
 demo='''
fn main() {
    let a: PalmTree<i32, i32, Small> = PalmTree::load((0..20).map(|k| (k * 2, 1)));
    let b: PalmTree<i32, i32, Small> = PalmTree::load((0..20).map(|k| (k * 3, 2)));
    let got: Vec<_> = PalmTree::merge_left_iter(a, b).collect();
    let mut want = BTreeMap::new();
    want.extend((0..20).map(|k| (k * 3, 2)));
    want.extend((0..20).map(|k| (k * 2, 1)));
    assert_eq!(got, want.into_iter().collect::<Vec<_>>());
}
''')
B('c15-filled-entry-points-elsewhere',prop='C15',
 edits=[('search.rs',"""                                self.leaf = leaf;
                                self.index = index;
                                assert!(""","""                                self.leaf = leaf;
                                // Keep the cursor inside the leaf.
                                self.index = index.min(leaf.len() - 1);
                                assert!(""")],
 needs="filling a vacant entry whose leaf has to be split, with the new entry landing at the end of a half, and using the returned reference",
 breaks="the reference points at another slot of the leaf than the one just filled",
 demo='''
fn main() {
    for n in 1..60 {
        for at in 0..n * 2 + 1 {
            let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..n).map(|k| (k * 2 + 1, k)));
            if let Entry::Vacant(e) = t.entry(at) {
                let v = e.insert(999);
                assert_eq!(*v, 999, "{} {}", n, at);
            }
        }
    }
}
''')
B('c14-hash-sees-the-root',prop='C14',
 edits=[('lib.rs',"""        for entry in self {
            entry.hash(state);
        }""","""        if let Some(ref root) = self.root {
            root.has_branches().hash(state);
        }
        for entry in self {
            entry.hash(state);
        }""")],
 needs="two trees with the same entries, one of which has been taller (or emptied) before",
 breaks="equal trees hash differently",
 demo='''
use std::hash::{Hash, Hasher};
fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    let mut a: PalmTree<i32, i32, Small> = PalmTree::load((0..100).map(|k| (k, k)));
    for k in 3..100 { a.remove(&k); }
    let b: PalmTree<i32, i32, Small> = PalmTree::load((0..3).map(|k| (k, k)));
    assert!(a == b);
    assert_eq!(h(&a), h(&b));
}
''')
B('c01-linear-lookup-past-the-leaf',prop='C01',
 edits=[('leaf.rs',"""        for (index, stored_key) in self.keys().iter().enumerate() {
            if stored_key == key {
                return Some(unsafe { self.values().get_unchecked(index) });
            }
        }
        None""","""        let mut index = 0;
        let last = self.len() - 1;
        while index < last && &self.keys()[index] < key {
            index += 1;
        }
        if index < last && &self.keys()[index] != key {
            return None;
        }
        Some(unsafe { self.values().get_unchecked(index) })""")],
 needs="a linear lookup of an absent key that lies above the last but one key of its leaf",
 breaks="get_linear returns the leaf's last value for a key that isn't there",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..60).map(|k| (k * 2, k)));
    t.remove(&6);
    for k in -1..130 { assert_eq!(t.get(&k), t.get_linear(&k), "{}", k); }
}
''')
B('c12-arc-written-without-copy',prop='C12',
 edits=[('pointer.rs',"""        Arc::make_mut(&mut *self.data.as_mut_ptr().cast::<Arc<A>>())""","""        let data = &mut *self.data.as_mut_ptr().cast::<Arc<A>>();
        if Arc::strong_count(data) > 2 {
            *data = Arc::new((**data).clone());
        }
        &mut *(Arc::as_ptr(data) as *mut A)""")],
 needs="the SyncShared pointer kind and exactly two handles on one tree",
 breaks="a write to one of exactly two SyncShared clones shows in the other, unlike with the other pointer kinds",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, SmallSync> = PalmTree::load((0..60).map(|k| (k, k)));
    let c = t.clone();
    t.insert(100, 1);
    assert_eq!(c.get(&100), None);
    assert_eq!(c.iter().count(), 60);
}
''')
B('c04-recursive-growth-counts-twice',prop='C04',
 edits=[('lib.rs',"""                        root_ref.push_branch(key2, Pointer::new(child));
                        self.insert(key, value)""","""                        root_ref.push_branch(key2, Pointer::new(child));
                        let replaced = self.insert(key, value);
                        if replaced.is_none() {
                            self.size = len + 2;
                        }
                        replaced""")],
 needs="insert_recursive into a tree whose root is full, so that it grows a level",
 breaks="the new entry is counted twice",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::new();
    for k in 0..200 {
        t.insert_recursive(k * 37 % 200, k);
        assert_eq!(t.len(), k as usize + 1);
    }
}
''')

B('c16-assertion-too-tight',prop='C16',
 edits=[('branch.rs',"""        right: Pointer<Self, C::PointerKind>,
    ) {
        debug_assert!(self.has_branches());
        debug_assert!(self.len() + 2 <= C::BranchSize::USIZE);
        unsafe {
            self.keys
                .insert_pair(self.length, self.length, left_key, right_key);""","""        right: Pointer<Self, C::PointerKind>,
    ) {
        debug_assert!(self.has_branches());
        debug_assert!(self.len() + 2 < C::BranchSize::USIZE);
        unsafe {
            self.keys
                .insert_pair(self.length, self.length, left_key, right_key);""")],
 needs="debug assertions, and recursive insertion above the highest key splitting the last child of a branch with one free place",
 breaks="a legal insertion panics",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::new();
    for k in 0..500 { t.insert_recursive(k * 7 % 500, k); }
    for k in 500..900 { t.insert_recursive(k, k); }
    assert_eq!(t.len(), 900);
}
''')
B('c07-mutable-lookup-of-absent-key',prop='C07',
 edits=[('leaf.rs',"""        if let Ok(index) = self.keys().binary_search(key) {
            Some(unsafe { self.values_mut().get_unchecked_mut(index) })
        } else {
            None
        }""","""        let index = match self.keys().binary_search(key) {
            Ok(index) => index,
            Err(index) if index < self.len() => index,
            Err(_) => return None,
        };
        Some(unsafe { self.values_mut().get_unchecked_mut(index) })""")],
 needs="a mutable lookup of an absent key with a higher key in its leaf",
 breaks="it gives access to the value of the next higher key",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..50).map(|k| (k * 2, k)));
    for k in (0..100).rev() { if let Some(v) = t.get_mut(&k) { *v = -k; } }
    for k in 0..50 { assert_eq!(t.get(&(k * 2)), Some(&(-2 * k))); }
}
''')

B('c08-few-entries-taken-for-one-leaf',prop='C08',
 edits=[('iter/owned.rs',"""            let root = Pointer::make_mut(root);
            Self {
                left: PathedPointer::lowest(root),
                right: PathedPointer::highest(root),
                tree,""","""            let root = Pointer::make_mut(root);
            let left = PathedPointer::lowest(root);
            // A tree this small has a single leaf, so there's no need to search it again.
            let right = if remaining <= C::LeafSize::USIZE {
                left.clone()
            } else {
                PathedPointer::highest(root)
            };
            Self {
                left,
                right,
                tree,"""),('iter/owned.rs',"""    iter::FusedIterator,
};""","""    iter::FusedIterator,
};
use typenum::Unsigned;""")],
 needs="a tree whose few remaining entries lie in several leaves, after removals, consumed from the back",
 breaks="the entries of the later leaves are never yielded from the back",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..40).map(|k| (k, -k)));
    for k in 0..40 { if k % 13 != 0 { t.remove(&k); } }
    let mut got: Vec<_> = t.into_iter().rev().collect();
    got.reverse();
    assert_eq!(got, vec![(0, 0), (13, -13), (26, -26), (39, -39)]);
}
''')

B('c05-back-over-a-branch-skips-a-leaf',prop='C05',
 edits=[('search.rs',"""                                self.stack.push((child, child.len() as isize));""",
"""                                let last = child.len() as isize - 1;
                                self.stack.push((child, if child.has_branches() { last } else { last + 1 }));""")],
 needs="backward iteration over a tree with at least three levels of branches",
 breaks="the last branch under each branch is skipped from the back",
 demo='''
fn main() {
    let t: PalmTree<i32, i32, Small> = PalmTree::load((0..200).map(|k| (k, k)));
    let mut got: Vec<_> = t.iter().map(|(k, _)| *k).rev().collect();
    got.reverse();
    assert_eq!(got, (0..200).collect::<Vec<_>>());
}
''')

B('c13-keys-of-plain-values-leak',prop='C13',
 edits=[('leaf.rs',"""        unsafe {
            self.keys.drop(self.length);
            self.values.drop(self.length);
        }""","""        // Nothing to do for plain data.
        if std::mem::needs_drop::<V>() {
            unsafe {
                self.keys.drop(self.length);
                self.values.drop(self.length);
            }
        }""")],
 needs="keys that own memory together with values that do not",
 breaks="dropping a leaf leaks its keys",
 demo='''
use std::rc::Rc;
fn main() {
    let token = Rc::new(());
    {
        let mut t: PalmTree<(i32, Rc<()>), i32, Small> = PalmTree::new();
        for k in 0..100 { t.insert((k * 7 % 100, token.clone()), k); }
        for k in 0..50 { t.remove(&(k, token.clone())); }
    }
    assert_eq!(Rc::strong_count(&token), 1);
}
''')

B('c09-stack-folded-one-step-short',prop='C09',
 edits=[('lib.rs',"""                parent = Pointer::new(Branch::new(true));
            }
            Pointer::make_mut(&mut parent).push_branch(child.highest().clone(), child);""",
"""                parent = Pointer::new(Branch::new(true));
            }
            // Branches come off the stack with their first key as bound while they're open.
            let bound = if stack.len() > 1 {
                child.keys()[0].clone()
            } else {
                child.highest().clone()
            };
            Pointer::make_mut(&mut parent).push_branch(bound, child);""")],
 needs="a bulk load large enough for four levels of branches",
 breaks="branches deep in the tree carry a bound lower than their keys, so lookups miss them",
 demo='''
fn main() {
    for n in [10usize, 100, 500, 2000, 5000] {
        let t: PalmTree<usize, usize, Small> = PalmTree::load((0..n).map(|k| (k, k)));
        for k in 0..n { assert_eq!(t.get(&k), Some(&k), "n = {}", n); }
    }
}
''')

B('c14-order-by-length-first',prop='C14',
 edits=[('lib.rs',"""        self.iter().cmp(other.iter())""",
"""        match self.len().cmp(&other.len()) {
            Ordering::Equal => self.iter().cmp(other.iter()),
            unequal => unequal,
        }""")],
 needs="ordering two trees of different lengths, the shorter with the greater first entries",
 breaks="the total order is not the lexicographic one, and differs from the partial order",
 demo='''
fn main() {
    let a: PalmTree<i32, i32, Small> = PalmTree::load((5..10).map(|k| (k, k)));
    let b: PalmTree<i32, i32, Small> = PalmTree::load((0..9).map(|k| (k, k)));
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Greater);
    assert_eq!(Some(a.cmp(&b)), a.partial_cmp(&b));
}
''')

B('c10-tail-of-the-right-dropped',prop='C10',
 edits=[('iter/merge.rs',"""            (Some(left), Some(right)) if compare(left, right) => Right,
            (None, Some(_)) => Right,
            _ => Left,""","""            (Some(left), Some(right)) => {
                if compare(left, right) {
                    Right
                } else {
                    Left
                }
            }
            (None, _) => Right,
            _ => Left,"""),('iter/merge.rs',"""                    Left => self.next_right = self.right.next(),
                    Right => self.next_left = self.left.next(),""","""                    Left => self.next_right = self.right.next(),
                    Right => {
                        // The left side yields to the right one: go on with whichever is due next.
                        self.next_left = self.left.next();
                        self.next = Self::choose_next(&self.next_left, &self.next_right, &self.compare);
                    }""")],
 needs="a right-biased merge with a common key followed on the left by a lower key than the right's (none exist in sorted input), or equal keys whose order closure is strict",
 breaks="nothing",
 demo='''fn main() {}''')
BUGS.pop('c10-tail-of-the-right-dropped')

B('c10-merge-drops-left-after-last-right',prop='C10',
 edits=[('iter/merge.rs',"""                    Right => self.next_left = self.left.next(),""","""                    Right => {
                        self.next_left = self.left.next();
                        if let (Some(left), Some(right)) = (&self.next_left, &self.next_right) {
                            // Runs of common keys are skipped in one go.
                            if !(self.compare)(right, left) {
                                self.next_left = self.left.next();
                            }
                        }
                    }""")],
 needs="",breaks="",demo='''fn main() {}''')
BUGS.pop('c10-merge-drops-left-after-last-right')

B('c10-append-right-to-reversed-winner',prop='C10',
 edits=[('lib.rs',"""            let left = OwnedIter::new(root, self.size);
            let right = other.into_iter();
            *self = Self::load(Self::merge_right_from(left, right));""","""            let left = OwnedIter::new(root, self.size);
            let right = other.into_iter();
            // Start from the larger side.
            *self = if left.len() < right.len() {
                Self::load(Self::merge_right_from(right, left))
            } else {
                Self::load(Self::merge_right_from(left, right))
            };""")],
 needs="appending a larger tree with keys in common",
 breaks="the left value wins although the operation is right-biased",
 demo='''
fn main() {
    let mut a: PalmTree<i32, i32, Small> = PalmTree::load((0..5).map(|k| (k, 1)));
    let b: PalmTree<i32, i32, Small> = PalmTree::load((3..20).map(|k| (k, 2)));
    a += b;
    for k in 3..20 { assert_eq!(a.get(&k), Some(&2)); }
}
''')

B('c01-interpolating-past-the-match',prop='C01',
 edits=[('search.rs',"""    if low == size || unsafe { keys.get_unchecked(low) } < key {
        None
    } else {
        Some(low)
    }""","""    // The last probe of the search has already compared everything but the end of the slice.
    if low + 1 >= size && unsafe { keys.get_unchecked(size / 2) } < key {
        if unsafe { keys.get_unchecked(low) } < key {
            return None;
        }
    }
    Some(low)""")],
 needs="a branch with a single child, looked up above its highest key",
 breaks="",demo='''fn main() {}''')
BUGS.pop('c01-interpolating-past-the-match')

B('c15-vacant-entry-of-grown-tree',prop='C15',
 edits=[('entry.rs',"""                self.cursor = PathedPointer::exact_key(root, &key).unwrap_err();
                self.key = key;
                self.insert(value)""","""                self.cursor = PathedPointer::exact_key(root, &key).unwrap_err();
                self.key = key;
                self.insert(value);
                // The root has grown, so the entry is in its last branch.
                let mut branch = Pointer::make_mut(self_root(root));
                unreachable!()""")],
 needs="",breaks="",demo='''fn main() {}''')
BUGS.pop('c15-vacant-entry-of-grown-tree')

B('c15-occupied-removal-counted-twice',prop='C04',
 edits=[('entry.rs',"""        self.tree.size -= 1;
        unsafe { self.cursor.remove() }""","""        self.tree.size -= 1;
        let tree = self.tree;
        let entry = unsafe { self.cursor.remove() };
        // Let go of the emptied nodes.
        if tree.root.as_ref().map_or(false, |root| root.len() <= 1 && root.has_branches()) {
            tree.size = tree.iter().count().min(C::LeafSize::USIZE * C::BranchSize::USIZE);
        }
        entry"""),('entry.rs',"use std::fmt::{Debug, Error, Formatter};","use std::fmt::{Debug, Error, Formatter};\nuse typenum::Unsigned;")],
 needs="removal through an entry from a tree of more than two levels whose root has a single child left, while more entries than two levels hold remain",
 breaks="the length is cut to what two levels hold",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..200).map(|k| (k, k)));
    let mut n = 200;
    for k in 0..200 {
        match t.entry(k) { Entry::Occupied(e) => { e.remove(); } _ => panic!() }
        n -= 1;
        assert_eq!(t.len(), n);
    }
}
''')

B('c06-excluded-start-in-a-gap',prop='C06',
 edits=[('search.rs',"""                if leaf.keys().get_unchecked(ptr.index) <= key && !ptr.step_forward() {""",
"""                if leaf.keys().get_unchecked(ptr.index) == key && !ptr.step_forward() {""")],
 needs="a range that excludes its start, the start above the last key left in its leaf but not above the leaf's bound (after a removal)",
 breaks="the range begins with a key below its start",
 demo='''
use std::ops::Bound::*;
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..40).map(|k| (k, k)));
    for k in 0..40 { if k % 4 == 3 { t.remove(&k); } }
    for k in 0..40 {
        let got: Vec<_> = t.range((Excluded(k), Unbounded)).map(|(k, _)| *k).collect();
        assert_eq!(got, (k + 1..40).filter(|k| k % 4 != 3).collect::<Vec<_>>());
    }
}
''')

B('c03-bound-lowered-one-level-only',prop='C03',
 edits=[('search.rs',"""                            is_last = index + 1 == parent.len();""","""                            is_last = index + 1 == parent.len() && parent.has_leaves();""")],
 needs="emptying the last leaf of the last branch of a branch that itself is a last child, then inserting between",
 breaks="a branch two levels up keeps a bound higher than its keys; entries inserted later may be lost to lookups or to iteration order",
 demo='''
fn main() {
    for n in [60, 100, 200] { for a in 0..n { for w in 1..20 {
        let mut t: PalmTree<i32, i32, Small> = PalmTree::load((0..n).map(|k| (k * 2, k)));
        let mut m: BTreeMap<i32, i32> = (0..n).map(|k| (k * 2, k)).collect();
        for k in (a..(a + w).min(n)).rev() { assert_eq!(t.remove(&(k * 2)).is_some(), m.remove(&(k * 2)).is_some()); }
        for k in a..(a + w).min(n) {
            t.insert(k * 2 + 1, k); m.insert(k * 2 + 1, k);
            assert!(t.iter().eq(m.iter()));
        }
        for k in 0..2 * n + 2 { assert_eq!(t.get(&k), m.get(&k)); }
    } } }
}
''')

B('c16-step-over-last-branch-never-ends',prop='C16',
 edits=[('iter/owned.rs',"""        if self.tree.is_none() || self.remaining == 0 {
            return None;
        }""","""        if self.tree.is_none() {
            return None;
        }""")],
 needs="drawing from the back of an owning iterator whose entries were all taken from the front",
 breaks="",demo='''
fn main() {
    let t: PalmTree<i32, i32, Small> = PalmTree::load((0..40).map(|k| (k, k)));
    let mut it = t.into_iter();
    while it.next().is_some() {}
    for _ in 0..100 { assert_eq!(it.next_back(), None); }
}
''')
BUGS.pop('c16-step-over-last-branch-never-ends')

B('c07-shared-leaf-written-through-an-entry',prop='C11',
 edits=[('branch.rs',"""            if self.has_branches() {
                self.children.clone_with(self.length, |node| {
                    Pointer::new(node.as_branch().clone()).into()
                })
            }""","""            if self.has_branches() {
                self.children.clone_with(self.length, |node| {
                    let copy = node.as_branch().clone();
                    Pointer::new(copy).into()
                })
            }""")],needs="",breaks="",demo='fn main(){}')
BUGS.pop('c07-shared-leaf-written-through-an-entry')

B('c11-cursor-copies-root-only-when-deep',prop='C11',
 edits=[('lib.rs',"""        if self.is_empty() {
            None
        } else {
            let root = Pointer::make_mut(self.root.as_mut()?);
            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);""","""        if self.is_empty() {
            None
        } else {
            let root = self.root.as_mut()?;
            if root.has_branches() {
                Pointer::make_mut(root);
            }
            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);""")],
 needs="a clone of a tree with a single level of branches, with a shared pointer kind, and removal of the highest entry",
 breaks="the removal takes the entry out of the clone as well",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, SmallShared> = PalmTree::load((0..10).map(|k| (k, k)));
    let c = t.clone();
    assert_eq!(t.remove_highest(), Some((9, 9)));
    assert_eq!(c.iter().count(), 10);
}
''')

B('c12-odd-leaves-split-off-centre',prop='C12',
 edits=[('array.rs',"""        debug_assert!(length < (N::USIZE - 1));
        debug_assert!(index <= length);
        if index < length {""","""        debug_assert!(length < (N::USIZE - 1));
        debug_assert!(index <= length);
        // Move in pairs.
        let spare = (length - index) & !1;
        if index < length && spare > 0 && N::USIZE % 2 == 1 {
            self.mut_ptr()
                .add(index)
                .copy_to(self.mut_ptr().add(index + 2), spare);
        } else if index < length {""")],
 needs="an odd branch capacity and a split with an odd number of children to its right",
 breaks="the last child is overwritten with stale contents",
 demo='''
use typenum::{U5 as F, U7};
conf!(Odd, U7, F, Unique);
fn main() {
    let mut t: PalmTree<i32, i32, Odd> = PalmTree::new();
    let mut m = BTreeMap::new();
    for k in 0..500 { t.insert(k * 37 % 500, k); m.insert(k * 37 % 500, k); }
    assert!(t.iter().eq(m.iter()));
}
''')

B('c02-recursive-insert-below-the-lowest',prop='C02',
 edits=[('branch.rs',"""                let (removed_key, removed_leaf) = self.remove_leaf(index);
                let (left, right) = Leaf::split(removed_leaf);
                self.insert_leaf_pair(index, left.highest().clone(), left, removed_key, right);
                self.insert(key, value)""","""                let (removed_key, removed_leaf) = self.remove_leaf(index);
                let (left, right) = Leaf::split(removed_leaf);
                let left_key = if index == 0 && key < left.keys()[0] {
                    // The new key goes to the left for certain.
                    key.clone()
                } else {
                    left.highest().clone()
                };
                self.insert_leaf_pair(index, left_key, left, removed_key, right);
                self.insert(key, value)""")],
 needs="recursive insertion of a key below the lowest one while the first leaf is full",
 breaks="the first leaf gets a bound below its keys, so they are no longer found",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::new();
    for k in (0..100).rev() { t.insert_recursive(k, k); }
    for k in 0..100 { assert_eq!(t.get(&k), Some(&k)); }
}
''')

BUGS.pop('c15-occupied-removal-counted-twice')

B('c16-shrunk-only-in-debug-builds',prop='C16',
 edits=[('branch.rs',"""                self.keys.pop(self.length),
                self.children.pop(self.length).unwrap_branch(),
            )
        };
        self.length -= 1;
        result
    }

    #[inline(always)]
    pub(crate) fn push_branch_pair(""","""                self.keys.pop(self.length),
                self.children.pop(self.length).unwrap_branch(),
            )
        };
        debug_assert!({
            self.length -= 1;
            self.length < C::BranchSize::USIZE
        });
        result
    }

    #[inline(always)]
    pub(crate) fn push_branch_pair(""")],
 needs="a build without debug assertions",
 breaks="the branch keeps its length, so a bulk load never finishes trimming the root, or frees a node twice",
 da='false',
 demo='''
fn main() {
    let t: PalmTree<i32, i32, Small> = PalmTree::load((0..10).map(|k| (k, k)));
    assert_eq!(t.iter().count(), 10);
    let mut u: PalmTree<i32, i32, Small> = PalmTree::new();
    for k in 0..300 { u.insert_recursive(k, k); }
    for k in 0..300 { assert_eq!(u.get(&k), Some(&k)); }
}
''')

B('c05-clone-keeps-two-levels',prop='C05',
 edits=[('search.rs',"""            stack: self.stack.clone(),
            leaf: self.leaf,""","""            // Neighbouring leaves are at most an aunt away.
            stack: self.stack.iter().skip(self.stack.len().saturating_sub(2)).cloned().collect(),
            leaf: self.leaf,""")],
 needs="cloning an iterator over a tree of three or more levels of branches and drawing past the end of a second-level branch",
 breaks="the copy ends early, or fails",
 demo='''
fn main() {
    let t: PalmTree<i32, i32, Small> = PalmTree::load((0..600).map(|k| (k, k)));
    let mut it = t.iter();
    for _ in 0..10 { it.next(); }
    let copy = it.clone();
    assert_eq!(copy.map(|(k, _)| *k).collect::<Vec<_>>(), (10..600).collect::<Vec<_>>());
}
''')

B('c06-point-range-of-absent-key',prop='C06',
 edits=[('iter/mod.rs',"""        right = match range.end_bound() {
            Bound::Included(key) => PathedPointer::key_or_lower(tree, key),""","""        right = match range.end_bound() {
            // A range of a single key starts and ends in the same place.
            Bound::Included(key) if range.start_bound() == Bound::Included(key) => left.clone(),
            Bound::Included(key) => PathedPointer::key_or_lower(tree, key),""")],
 needs="an inclusive range whose two ends are the same absent key, below the highest one",
 breaks="the range yields the next higher entry",
 demo='''
fn main() {
    let t: PalmTree<i32, i32, Small> = PalmTree::load((0..50).map(|k| (k * 2, k)));
    for k in 0..100 { assert_eq!(t.range(k..=k).count(), if k % 2 == 0 { 1 } else { 0 }, "{}", k); }
}
''')

B('c09-duplicate-keys-accepted',prop='C09',
 edits=[('lib.rs',"""                    if last_key >= key {""","""                    if last_key > key {""")],
 needs="debug assertions and a bulk load with the same key twice in a row",
 breaks="the sequence is accepted and the tree holds the key twice",
 demo='''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let _t: PalmTree<i32, i32, Small> = PalmTree::load(vec![(1, 1), (2, 2), (2, 3), (4, 4)]);
    });
    assert!(r.is_err());
}
''')

B('c16-append-loses-count',prop='C16',
 edits=[('lib.rs',"""            let left = OwnedIter::new(root, self.size);
            let right = other.into_iter();
            *self = Self::load(Self::merge_left_from(left, right));""","""            let left = OwnedIter::new(root, self.len().max(other.len()) - other.len() / 2);
            let right = other.into_iter();
            *self = Self::load(Self::merge_left_from(left, right));""")],
 needs="debug assertions, and a left-biased append of a tree about as large as the one appended to",
 breaks="the count of remaining entries underflows, which panics",
 demo='''
fn main() {
    let mut a: PalmTree<i32, i32, Small> = PalmTree::load((0..10).map(|k| (k, k)));
    let b: PalmTree<i32, i32, Small> = PalmTree::load((5..13).map(|k| (k, -k)));
    a.append_left(b);
    assert_eq!(a.len(), 13);
}
''')

B('c07-value-of-the-neighbour-from-the-back',prop='C07',
 edits=[('iter/mut_iter.rs',"""        let value = self.right_value().unwrap();
        if cmp == Ordering::Equal {
            self.left.clear();
            self.right.clear();
        } else {
            self.step_back();
        }
        Some((right_key, value))""","""        if cmp == Ordering::Equal {
            let value = self.right_value().unwrap();
            self.left.clear();
            return Some((right_key, value));
        }
        let value = self.right_value().unwrap();
        self.step_back();
        Some((right_key, value))"""),('iter/mut_iter.rs',"""    fn left_key(&mut self) -> Option<&'a K> {
        unsafe { self.left().key() }""","""    fn left_key(&mut self) -> Option<&'a K> {
        if self.left.is_null() && !self.right.is_null() {
            // Only the right end is left: it is both ends now.
            self.left = self.right.clone();
            self.right.clear();
        }
        unsafe { self.left().key() }""")],
 needs="drawing from an exhausted mutable iterator again",
 breaks="",demo='fn main(){}')
BUGS.pop('c07-value-of-the-neighbour-from-the-back')

B('c07-last-entry-handed-out-from-both-ends',prop='C07',
 edits=[('iter/mut_iter.rs',"""        let value = self.right_value().unwrap();
        if cmp == Ordering::Equal {
            self.left.clear();
            self.right.clear();
        } else {
            self.step_back();
        }""","""        let value = self.right_value().unwrap();
        // Stepping back from the last entry left also ends the iteration.
        self.step_back();
        if cmp == Ordering::Equal && self.right.is_null() {
            self.left.clear();
        }""")],
 needs="a mutable range that is not at the start of the tree, consumed from the back and then drawn from once more",
 breaks="nothing",demo='fn main(){}')
BUGS.pop('c07-last-entry-handed-out-from-both-ends')

B('c13-shared-node-never-freed',prop='C13',
 edits=[('pointer.rs',"""    unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
        Arc::make_mut(&mut *self.data.as_mut_ptr().cast::<Arc<A>>())
    }""","""    unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
        let data = self.data.as_mut_ptr().cast::<Arc<A>>();
        if Arc::get_mut(&mut *data).is_none() {
            data.write(Arc::new((**data).clone()));
        }
        Arc::get_mut(&mut *data).unwrap()
    }""")],
 needs="writing to a cloned tree with the thread-safe shared pointer kind",
 breaks="the old node's reference count stays too high, so it is never freed",
 demo='''
use std::rc::Rc;
fn main() {
    let token = Rc::new(());
    {
        let mut t: PalmTree<i32, Rc<()>, SmallSync> = PalmTree::load((0..30).map(|k| (k, token.clone())));
        let c = t.clone();
        t.insert(100, token.clone());
        assert_eq!(c.len(), 30);
    }
    assert_eq!(Rc::strong_count(&token), 1);
}
''')

B('c03-parent-key-follows-the-wrong-child',prop='C03',
 edits=[('branch.rs',"""                self.keys.remove(self.length, index),
                self.children.remove(self.length, index).unwrap_leaf(),
            )
        };
        self.length -= 1;
        result""","""                self.keys.remove(self.length, index),
                self.children.remove(self.length, index).unwrap_leaf(),
            )
        };
        self.length -= 1;
        if index > 0 && index == self.length {
            // The leaf before it now ends the branch and takes over its bound.
            let bound = result.0.clone();
            self.keys_mut()[index - 1] = bound;
        }
        result"""),('branch.rs',"""    pub(crate) fn remove_leaf(
        &mut self,
        index: usize,
    ) -> (K, Pointer<Leaf<K, V, C>, C::PointerKind>) {""","""    pub(crate) fn remove_leaf(
        &mut self,
        index: usize,
    ) -> (K, Pointer<Leaf<K, V, C>, C::PointerKind>)
    where
        K: Clone,
    {""")],
 needs="recursive insertion splitting the last leaf of a branch, with a key in the left half above the bound of the leaf before",
 breaks="the bound of the leaf before is too high, so keys go to the wrong leaf and are found out of order",
 demo='''
fn main() {
    let mut t: PalmTree<i32, i32, Small> = PalmTree::new();
    let mut m = BTreeMap::new();
    let mut x = 7u32;
    for _ in 0..3000 {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        let k = (x >> 8) as i32 % 500;
        if x & 0x30000 == 0 { assert_eq!(t.remove(&k).is_some(), m.remove(&k).is_some()); }
        else { t.insert_recursive(k, 1); m.insert(k, 1); }
        assert!(t.iter().eq(m.iter()));
        for k in 0..500 { assert_eq!(t.get(&k), m.get(&k)); }
    }
}
''')

BUGS.pop('c03-parent-key-follows-the-wrong-child')
