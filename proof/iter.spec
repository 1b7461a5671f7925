// Ranges and shared iteration.

//@ fn paths_from_range in iter/mod.rs
//@ props C05 C06 C07 C16
//@ spec
    requires tree.inv(), !refused(range.lo(), range.hi())
    ensures
        match r {
            None => window_of(tree.all(), range.lo(), range.hi()).len() == 0,
            Some((left, right)) => tree.root is Some && {
                let t = tree.root->0@.st();
                &&& left.here(t) && right.here(t)
                &&& left.good(tree.root->0@) && right.good(tree.root->0@)
                &&& left.pos(t) == cut_lo(tree.all(), range.lo())
                &&& right.pos(t) == cut_hi(tree.all(), range.hi()) - 1
            },
        }
//@ start
    proof { tree.inv_sorted(); window_exact(tree.all(), range.lo(), range.hi()); }

//@ fn paths_from_range in iter/mod.rs as paths_from_range_refuses
//@ props C06
//@ sub `rt_unreachable ( )` => `rt_diverge ( )` opt
//@ sub `rt_stop ( )` => `rt_diverge :: < ( ) > ( )` opt
//@ spec
    requires tree.inv()
    ensures !refused(range.lo(), range.hi())
//@ start
    proof { tree.inv_sorted(); window_exact(tree.all(), range.lo(), range.hi()); }

//@ fn Iter as Clone::clone in iter/ref_iter.rs
//@ as_impl inherent
//@ props C05 C14
//@ spec
    requires self.inv()
    ensures r.inv(), r.rest() == self.rest()

//@ fn Iter::null in iter/ref_iter.rs
//@ props C05 C06
//@ spec
    ensures r.inv(), r.rest().len() == 0

//@ fn Iter::new in iter/ref_iter.rs
//@ props C05 C06 C14
//@ spec
    requires tree.inv(), !refused(range.lo(), range.hi())
    ensures r.inv(), r.rest() =~= window_of(tree.all(), range.lo(), range.hi())

//@ fn Iter::step_forward in iter/ref_iter.rs
//@ props C05 C06 C14 C16
//@ sub `. step_forward ( )` => `. step_forward ( Ghost ( arbitrary ( ) ) )` opt
//@ sub `. step_back ( )` => `. step_back ( Ghost ( arbitrary ( ) ) )` opt
//@ spec
    requires old(self).inv(), !old(self).nul(), old(self).left.pos(old(self).tree()) + 1 < ents(old(self).tree()).len()
    ensures
        final(self).inv(), !final(self).nul(), final(self).tree() == old(self).tree(),
        final(self).right == old(self).right,
        final(self).left.pos(final(self).tree()) == old(self).left.pos(old(self).tree()) + 1,

//@ fn Iter::step_back in iter/ref_iter.rs
//@ props C05 C06 C14 C16
//@ sub `. step_forward ( )` => `. step_forward ( Ghost ( arbitrary ( ) ) )` opt
//@ sub `. step_back ( )` => `. step_back ( Ghost ( arbitrary ( ) ) )` opt
//@ spec
    requires old(self).inv(), !old(self).nul(), old(self).right.pos(old(self).tree()) > 0
    ensures
        final(self).inv(), !final(self).nul(), final(self).tree() == old(self).tree(),
        final(self).left == old(self).left,
        final(self).right.pos(final(self).tree()) == old(self).right.pos(old(self).tree()) - 1,

//@ fn Iter::left in iter/ref_iter.rs
//@ props C05 C14
//@ sub `& * ( & $e as * const _ as * const PathedPointer < & 'a ( ) , K , V , C > )` => `cast_ptr ( & $e )`
//@ spec
    ensures r.stack@ == self.left.stack@, r.leaf == self.left.leaf, r.index == self.left.index

//@ fn Iter::right in iter/ref_iter.rs
//@ props C05 C14
//@ sub `& * ( & $e as * const _ as * const PathedPointer < & 'a ( ) , K , V , C > )` => `cast_ptr ( & $e )`
//@ spec
    ensures r.stack@ == self.right.stack@, r.leaf == self.right.leaf, r.index == self.right.index

//@ fn Iter::left_key in iter/ref_iter.rs
//@ props C05 C14
//@ spec
    requires self.inv()
    ensures r is None == self.left.leaf.nul(), r is Some ==> *r->0 == ents(self.tree())[self.left.pos(self.tree())].0
//@ start
    proof { if !self.left.leaf.nul() { here_entry(self.left, self.tree()); } }

//@ fn Iter::left_value in iter/ref_iter.rs
//@ props C05 C14
//@ spec
    requires self.inv()
    ensures r is None == self.left.leaf.nul(), r is Some ==> *r->0 == ents(self.tree())[self.left.pos(self.tree())].1
//@ start
    proof { if !self.left.leaf.nul() { here_entry(self.left, self.tree()); } }

//@ fn Iter::right_key in iter/ref_iter.rs
//@ props C05 C14
//@ spec
    requires self.inv()
    ensures r is None == self.right.leaf.nul(), r is Some ==> *r->0 == ents(self.tree())[self.right.pos(self.tree())].0
//@ start
    proof { if !self.right.leaf.nul() { here_entry(self.right, self.tree()); } }

//@ fn Iter::right_value in iter/ref_iter.rs
//@ props C05 C14
//@ spec
    requires self.inv()
    ensures r is None == self.right.leaf.nul(), r is Some ==> *r->0 == ents(self.tree())[self.right.pos(self.tree())].1
//@ start
    proof { if !self.right.leaf.nul() { here_entry(self.right, self.tree()); } }

//@ fn Iter as Iterator::next in iter/ref_iter.rs
//@ as_impl inherent
//@ props C05 C06 C14
//@ ret_ty Option<(&'a K, &'a V)>
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(e) => old(self).rest().len() > 0 && pair(e) == old(self).rest()[0] && final(self).rest() =~= old(self).rest().skip(1),
        }
//@ start
    proof {
        if !self.nul() {
            let t = self.tree();
            here_entry(self.left, t);
            here_entry(self.right, t);
            chain_root(self.left.stack@, t, seq![]);
            chain_root(self.right.stack@, t, seq![]);
            wf_sorted(t, false);
            sorted_elim(ents(t));
        }
    }

//@ fn Iter as DoubleEndedIterator::next_back in iter/ref_iter.rs
//@ as_impl inherent
//@ props C05 C06 C14
//@ ret_ty Option<(&'a K, &'a V)>
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(e) => old(self).rest().len() > 0 && pair(e) == old(self).rest().last() && final(self).rest() =~= old(self).rest().drop_last(),
        }
//@ start
    proof {
        if !self.nul() {
            let t = self.tree();
            here_entry(self.left, t);
            here_entry(self.right, t);
            chain_root(self.left.stack@, t, seq![]);
            chain_root(self.right.stack@, t, seq![]);
            wf_sorted(t, false);
            sorted_elim(ents(t));
        }
    }

//@ fn PalmTree::iter in lib.rs
//@ props C05 C14
//@ sub `..` => `Full`
//@ spec
    requires self.inv()
    ensures r.inv(), r.rest() =~= self.all()
//@ start
    proof { self.inv_sorted(); }

//@ fn PalmTree::range in lib.rs
//@ props C06
//@ spec
    requires self.inv(), !refused(range.lo(), range.hi())
    ensures r.inv(), r.rest() =~= window_of(self.all(), range.lo(), range.hi())
