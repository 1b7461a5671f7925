// Merging.

//@ fn MergeIter::choose_next in iter/merge.rs
//@ props C10
//@ params left: &Option<A>, right: &Option<A>, compare: &Cmp
//@ spec
    requires test(*compare)
    ensures r == match (*left, *right) {
        (None, Some(_)) => Next::Right,
        (Some(a), Some(b)) => if says(*compare, a, b) { Next::Right } else { Next::Left },
        _ => Next::Left,
    }

//@ fn MergeIter::check_eq in iter/merge.rs
//@ props C10
//@ spec
    requires
        old(self).based(),
        old(self).next == match (old(self).next_left, old(self).next_right) {
            (None, Some(_)) => Next::Right,
            (Some(a), Some(b)) => if says(old(self).compare, a, b) { Next::Right } else { Next::Left },
            _ => Next::Left,
        },
    ensures
        final(self).inv(), final(self).compare == old(self).compare, final(self).equal == old(self).equal,
        final(self).rest() == merged(old(self).ls(), old(self).rs(), old(self).gt(), old(self).same()),
//@ start
    broadcast use {drew_is, opt_skip};

//@ fn MergeIter::merge in iter/merge.rs
//@ props C10
//@ spec
    requires left.live(), right.live(), test(compare), test(equal)
    ensures
        r.inv(), r.compare == compare, r.equal == equal,
        r.rest() == merged(left.coming(), right.coming(), fun(compare), fun(equal)),
//@ start
    broadcast use {drew_is, opt_skip};

//@ fn MergeIter as Iterator::next in iter/merge.rs
//@ as_impl inherent
//@ props C10 C16
//@ ret_ty Option<A>
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(), final(self).compare == old(self).compare, final(self).equal == old(self).equal,
        match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(e) => old(self).rest().len() > 0 && e == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        }
//@ start
    broadcast use {drew_is, opt_skip};

//@ fn PalmTree::merge_left_from in lib.rs
//@ props C10
//@ generics L: Source<Item = (K, V)>, R: Source<Item = (K, V)>
//@ params left: L, right: R
//@ closure 0 `&(K, V); &(K, V)` => `-> (r: bool) ensures r == (rank(a0_.0) > rank(a1_.0))`
//@ closure 1 `&(K, V); &(K, V)` => `-> (r: bool) ensures r == (rank(a0_.0) == rank(a1_.0))`
//@ spec
    requires left.live(), right.live()
    ensures r.live(), merge_of(r.coming(), left.coming(), right.coming(), false)
//@ start
    broadcast use {merged_of, axiom_answers};

//@ fn PalmTree::merge_left_iter in lib.rs
//@ props C10
//@ spec
    requires left.inv(), right.inv()
    ensures r.live(), merge_of(r.coming(), left.all(), right.all(), false)

//@ fn PalmTree::merge_right_from in lib.rs
//@ props C10
//@ generics L: Source<Item = (K, V)>, R: Source<Item = (K, V)>
//@ params left: L, right: R
//@ closure 0 `&(K, V); &(K, V)` => `-> (r: bool) ensures r == (rank(a0_.0) >= rank(a1_.0))`
//@ closure 1 `&(K, V); &(K, V)` => `-> (r: bool) ensures r == (rank(a0_.0) == rank(a1_.0))`
//@ spec
    requires left.live(), right.live()
    ensures r.live(), merge_of(r.coming(), left.coming(), right.coming(), true)
//@ start
    broadcast use {merged_of, axiom_answers};

//@ fn PalmTree::merge_right_iter in lib.rs
//@ props C10
//@ spec
    requires left.inv(), right.inv()
    ensures r.live(), merge_of(r.coming(), left.all(), right.all(), true)

//@ fn PalmTree::merge_left in lib.rs
//@ props C04 C10
//@ spec
    requires left.inv(), right.inv(), left.all().len() + right.all().len() < usize::MAX
    ensures r.inv(), union(r.all(), right.all(), left.all())
//@ start
    proof { left.inv_sorted(); right.inv_sorted(); }

//@ fn PalmTree::merge_right in lib.rs
//@ props C04 C10
//@ spec
    requires left.inv(), right.inv(), left.all().len() + right.all().len() < usize::MAX
    ensures r.inv(), union(r.all(), left.all(), right.all())
//@ start
    proof { left.inv_sorted(); right.inv_sorted(); }

//@ fn PalmTree::append_left in lib.rs
//@ props C04 C09 C10
//@ spec
    requires old(self).inv(), other.inv(), old(self).all().len() + other.all().len() < usize::MAX
    ensures final(self).inv(), union(final(self).all(), other.all(), old(self).all())
//@ start
    proof {
        self.inv_sorted(); other.inv_sorted();
        if self.root is Some { tight_spine(self.root->0@.st()); } else { union_none(other.all()); }
    }

//@ fn PalmTree::append_right in lib.rs
//@ props C04 C09 C10
//@ spec
    requires old(self).inv(), other.inv(), old(self).all().len() + other.all().len() < usize::MAX
    ensures final(self).inv(), union(final(self).all(), old(self).all(), other.all())
//@ start
    proof {
        self.inv_sorted(); other.inv_sorted();
        if self.root is Some { tight_spine(self.root->0@.st()); } else { union_none(other.all()); }
    }

//@ fn PalmTree as Add::add in lib.rs
//@ as_impl inherent
//@ props C04 C09 C10
//@ ret_ty Self
//@ spec
    requires self.inv(), other.inv(), self.all().len() + other.all().len() < usize::MAX
    ensures r.inv(), union(r.all(), self.all(), other.all())

//@ fn PalmTree as AddAssign::add_assign in lib.rs
//@ as_impl inherent
//@ props C04 C09 C10
//@ spec
    requires old(self).inv(), other.inv(), old(self).all().len() + other.all().len() < usize::MAX
    ensures final(self).inv(), union(final(self).all(), old(self).all(), other.all())

//@ fn PalmTree as Add::add in lib.rs#1 as add_ref
//@ as_impl inherent
//@ props C04 C09 C10
//@ impl_generics K, V, C
//@ impl_where K: Ord + Copy, V: Copy, C: TreeConfig<K, V>
//@ generics C2: TreeConfig<K, V>
//@ ret_ty Self
//@ presub `. map ( | $p | $b )` => `. src_map(|$p| $b, Ghost(copied()))`
//@ closure 0 `(&K, &V)` => `-> (r: (K, V)) ensures r == (*a0_.0, *a0_.1)`
//@ spec
    requires self.inv(), PalmTree::inv(other), self.all().len() + other.all().len() < usize::MAX
    ensures r.inv(), union(r.all(), self.all(), other.all())
//@ start
    proof { self.inv_sorted(); PalmTree::inv_sorted(other); derefs_of(other.all()); }

//@ fn PalmTree as AddAssign::add_assign in lib.rs#1 as add_assign_ref
//@ as_impl inherent
//@ props C04 C09 C10
//@ impl_generics K, V, C
//@ impl_where K: Ord + Copy, V: Copy, C: TreeConfig<K, V>
//@ generics 'a, C2: TreeConfig<K, V>
//@ presub `. map ( | $p | $b )` => `. src_map(|$p| $b, Ghost(copied()))`
//@ closure 0 `(&K, &V)` => `-> (r: (K, V)) ensures r == (*a0_.0, *a0_.1)`
//@ closure 1 `(&K, &V)` => `-> (r: (K, V)) ensures r == (*a0_.0, *a0_.1)`
//@ spec
    requires old(self).inv(), PalmTree::inv(other), old(self).all().len() + other.all().len() < usize::MAX
    ensures final(self).inv(), union(final(self).all(), old(self).all(), other.all())
//@ start
    proof {
        self.inv_sorted(); PalmTree::inv_sorted(other); derefs_of(other.all());
        if self.root is Some { tight_spine(self.root->0@.st()); } else { union_none(other.all()); }
    }

//@ fn PalmTree as From::from in lib.rs as from_btree
//@ as_impl inherent
//@ props C04 C09
//@ spec
    requires map@.len() < usize::MAX
    ensures r.inv(), r.all() == map@
