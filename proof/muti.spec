// Mutable iteration.

//@ fn PathedPointer::value_mut in search.rs as value_place
//@ props C07
//@ gparams Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>
//@ generics 'a
//@ ret_ty Option<Place<'a, K, V, C>>
//@ sub `self . deref_mut_leaf ( )` => `self . leaf . slots_mut ( Ghost ( p ) )`
//@ spec
    requires
        old(self).leaf.nul() || (p.excl() && old(self).leaf.valid(p@) && old(self).index < old(self).leaf.snap().length),
    ensures
        *final(self) == *old(self),
        r is None == old(self).leaf.nul(),
        r is Some ==> r->0.root() == p && r->0.path() == old(self).leaf.path() && r->0.index() == old(self).index,

//@ fn IterMut::null in iter/mut_iter.rs
//@ props C07
//@ spec
    ensures r.left.leaf.nul(), r.right.leaf.nul()

//@ fn IterMut::new in iter/mut_iter.rs
//@ props C06 C07 C11
//@ spec
    requires old(tree).inv(), !refused(range.lo(), range.hi())
    ensures
        final(tree).inv(), final(tree).all() == old(tree).all(),
        final(tree).root is None ==> r.left.leaf.nul() && r.right.leaf.nul(),
        final(tree).root is Some ==> {
            let p = final(tree).root->0;
            &&& r.inv(p)
            &&& between(final(tree).all(), r.lo(p), r.hi(p)) =~= window_of(old(tree).all(), range.lo(), range.hi())
        }

//@ fn IterMut::step_forward in iter/mut_iter.rs
//@ props C07 C16
//@ gparams Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>
//@ sub `. step_forward ( )` => `. step_forward ( Ghost ( p @ ) )` opt
//@ sub `. step_back ( )` => `. step_back ( Ghost ( p @ ) )` opt
//@ spec
    requires old(self).inv(p), !old(self).nul(), old(self).left.pos(p@.st()) + 1 < ents(p@.st()).len()
    ensures
        final(self).inv(p), !final(self).nul(),
        final(self).right == old(self).right,
        final(self).left.pos(p@.st()) == old(self).left.pos(p@.st()) + 1,

//@ fn IterMut::step_back in iter/mut_iter.rs
//@ props C07 C16
//@ gparams Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>
//@ sub `. step_forward ( )` => `. step_forward ( Ghost ( p @ ) )` opt
//@ sub `. step_back ( )` => `. step_back ( Ghost ( p @ ) )` opt
//@ spec
    requires old(self).inv(p), !old(self).nul(), old(self).right.pos(p@.st()) > 0
    ensures
        final(self).inv(p), !final(self).nul(),
        final(self).left == old(self).left,
        final(self).right.pos(p@.st()) == old(self).right.pos(p@.st()) - 1,

//@ fn IterMut::left in iter/mut_iter.rs
//@ props C07
//@ sub `& mut * ( & mut $e as * mut _ as * mut PathedPointer < & 'a mut ( ) , K , V , C > )` => `cast_mut ( & mut $e )`
//@ spec
    ensures *final(self) == *old(self), r.stack@ == old(self).left.stack@, r.leaf == old(self).left.leaf, r.index == old(self).left.index

//@ fn IterMut::right in iter/mut_iter.rs
//@ props C07
//@ sub `& mut * ( & mut $e as * mut _ as * mut PathedPointer < & 'a mut ( ) , K , V , C > )` => `cast_mut ( & mut $e )`
//@ spec
    ensures *final(self) == *old(self), r.stack@ == old(self).right.stack@, r.leaf == old(self).right.leaf, r.index == old(self).right.index

//@ fn IterMut::left_key in iter/mut_iter.rs
//@ props C07
//@ gparams Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>
//@ spec
    requires old(self).inv(p)
    ensures *final(self) == *old(self), r is None == old(self).left.leaf.nul(), r is Some ==> *r->0 == ents(p@.st())[old(self).left.pos(p@.st())].0
//@ start
    proof { if !self.left.leaf.nul() { here_entry(self.left, p@.st()); } }

//@ fn IterMut::right_key in iter/mut_iter.rs
//@ props C07
//@ gparams Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>
//@ spec
    requires old(self).inv(p)
    ensures *final(self) == *old(self), r is None == old(self).right.leaf.nul(), r is Some ==> *r->0 == ents(p@.st())[old(self).right.pos(p@.st())].0
//@ start
    proof { if !self.right.leaf.nul() { here_entry(self.right, p@.st()); } }

//@ fn IterMut::left_value in iter/mut_iter.rs
//@ props C07
//@ gparams Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>
//@ ret_ty Option<Place<'a, K, V, C>>
//@ sub `value_mut ( )` => `value_place ( Ghost ( p ) )`
//@ spec
    requires old(self).inv(p)
    ensures *final(self) == *old(self), r is None == old(self).left.leaf.nul(), r is Some ==> r->0.is(p, old(self).left.pos(p@.st()))
//@ start
    proof { if !self.left.leaf.nul() { here_entry(self.left, p@.st()); } }

//@ fn IterMut::right_value in iter/mut_iter.rs
//@ props C07
//@ gparams Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>
//@ ret_ty Option<Place<'a, K, V, C>>
//@ sub `value_mut ( )` => `value_place ( Ghost ( p ) )`
//@ spec
    requires old(self).inv(p)
    ensures *final(self) == *old(self), r is None == old(self).right.leaf.nul(), r is Some ==> r->0.is(p, old(self).right.pos(p@.st()))
//@ start
    proof { if !self.right.leaf.nul() { here_entry(self.right, p@.st()); } }

//@ fn IterMut as Iterator::next in iter/mut_iter.rs
//@ as_impl inherent
//@ props C06 C07
//@ gparams Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>
//@ ret_ty Option<(&'a K, Place<'a, K, V, C>)>
//@ sub `self . left_key ( )` => `self . left_key ( Ghost ( p ) )` opt
//@ sub `self . right_key ( )` => `self . right_key ( Ghost ( p ) )` opt
//@ sub `self . left_value ( )` => `self . left_value ( Ghost ( p ) )` opt
//@ sub `self . right_value ( )` => `self . right_value ( Ghost ( p ) )` opt
//@ sub `self . step_forward ( )` => `self . step_forward ( Ghost ( p ) )` opt
//@ sub `self . step_back ( )` => `self . step_back ( Ghost ( p ) )` opt
//@ spec
    requires old(self).inv(p)
    ensures
        final(self).inv(p),
        match r {
            None => old(self).done(p) && final(self).nul(),
            Some((k, m)) => {
                let n = old(self).lo(p);
                &&& !old(self).done(p)
                &&& *k == ents(p@.st())[n].0 && m.is(p, n)
                &&& if n + 1 < old(self).hi(p) { final(self).lo(p) == n + 1 && final(self).hi(p) == old(self).hi(p) } else { final(self).nul() }
            }
        }
//@ start
    proof {
        if !self.nul() {
            let t = p@.st();
            here_entry(self.left, t);
            here_entry(self.right, t);
            wf_sorted(t, false);
            sorted_elim(ents(t));
        }
    }

//@ fn IterMut as DoubleEndedIterator::next_back in iter/mut_iter.rs
//@ as_impl inherent
//@ props C06 C07
//@ gparams Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>
//@ ret_ty Option<(&'a K, Place<'a, K, V, C>)>
//@ sub `self . left_key ( )` => `self . left_key ( Ghost ( p ) )` opt
//@ sub `self . right_key ( )` => `self . right_key ( Ghost ( p ) )` opt
//@ sub `self . left_value ( )` => `self . left_value ( Ghost ( p ) )` opt
//@ sub `self . right_value ( )` => `self . right_value ( Ghost ( p ) )` opt
//@ sub `self . step_forward ( )` => `self . step_forward ( Ghost ( p ) )` opt
//@ sub `self . step_back ( )` => `self . step_back ( Ghost ( p ) )` opt
//@ spec
    requires old(self).inv(p)
    ensures
        final(self).inv(p),
        match r {
            None => old(self).done(p) && final(self).nul(),
            Some((k, m)) => {
                let n = old(self).hi(p) - 1;
                &&& !old(self).done(p)
                &&& *k == ents(p@.st())[n].0 && m.is(p, n)
                &&& if old(self).lo(p) < n { final(self).hi(p) == n && final(self).lo(p) == old(self).lo(p) } else { final(self).nul() }
            }
        }
//@ start
    proof {
        if !self.nul() {
            let t = p@.st();
            here_entry(self.left, t);
            here_entry(self.right, t);
            wf_sorted(t, false);
            sorted_elim(ents(t));
        }
    }

//@ fn PalmTree::iter_mut in lib.rs
//@ props C07
//@ sub `..` => `Full`
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(), final(self).all() == old(self).all(),
        final(self).root is None ==> r.left.leaf.nul() && r.right.leaf.nul(),
        final(self).root is Some ==> {
            let p = final(self).root->0;
            &&& r.inv(p)
            &&& between(final(self).all(), r.lo(p), r.hi(p)) =~= old(self).all()
        }

//@ fn PalmTree::range_mut in lib.rs
//@ props C06 C07
//@ spec
    requires old(self).inv(), !refused(range.lo(), range.hi())
    ensures
        final(self).inv(), final(self).all() == old(self).all(),
        final(self).root is None ==> r.left.leaf.nul() && r.right.leaf.nul(),
        final(self).root is Some ==> {
            let p = final(self).root->0;
            &&& r.inv(p)
            &&& between(final(self).all(), r.lo(p), r.hi(p)) =~= window_of(old(self).all(), range.lo(), range.hi())
        }
