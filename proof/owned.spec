// Consuming iteration.

//@ fn PathedPointer::step_forward in search.rs as step_forward_at
//@ props C08 C16
//@ gparams root: &Branch<K, V, C>
//@ sub `self . stack . push ( ( ( * branch ) . $f:id ( $e ) , $n ) ) ;` => `self . stack . push ( ( BPtr :: of_in ( branch . look ( root ) . $f ( $e ) , Ghost ( idx ( self . stack @ ) ) , Ghost ( * root ) ) , $n ) ) ;`
//@ sub `self . leaf = ( * branch ) . $f:id ( $e ) ;` => `self . leaf = LPtr :: of_in ( branch . look ( root ) . $f ( $e ) , Ghost ( idx ( self . stack @ ) ) , Ghost ( * root ) ) ;`
//@ sub `( * branch )` => `branch . look ( root )`
//@ sub `& * branch` => `branch . look ( root )` opt
//@ sub `( * self . leaf )` => `self . leaf . look ( root )`
//@ spec
    requires
        old(self).leaf.nul() || (root.ok() && wf(leaves(root.st()), true) && old(self).aims(*root) && old(self).index == 0
            && ents(at(root.st(), old(self).path())).len() == 0),
    ensures
        old(self).leaf.nul() ==> r && *final(self) == *old(self),
        !old(self).leaf.nul() ==> {
            let n = old(self).no(*root) + 1;
            &&& r == (n < ents(leaves(root.st())).len())
            &&& r ==> final(self).aims(*root) && final(self).index == 0 && final(self).no(*root) == n
            &&& !r ==> final(self).leaf.nul()
        },
//@ start
    hide(wf); hide(off); hide(fuel); hide(at); hide(vpath); hide(ents); hide(lt);
    let ghost t = root.st();
    let ghost g = leaves(t);
    let ghost n = self.no(*root) + 1;
    proof {
        if !self.leaf.nul() {
            wf_any(g);
            leaf_no(t, self.path());
            leaf_facts(at(t, self.path())->L_0);
        }
    }
//@ before `loop`
    proof { pstart(self.path(), g); }
//@ loop 0
    invariant_except_break pfwd(idx(self.stack@), g, n)
    invariant
        root.ok(), t == root.st(), g == leaves(t), wf(g, false), !old(self).leaf.nul(), !self.leaf.nul(),
        held(self.stack@, *root, seq![]), n == old(self).no(*root) + 1, self.index <= 1,
    ensures self.aims(*root), self.index == 0, self.no(*root) == n, n < ents(g).len()
    decreases fuel(g, idx(self.stack@))
//@ body 0
    let ghost s0 = self.stack@;
    proof {
        if s0.len() > 0 {
            pfwd_up(idx(s0), g, n);
            held_pop(s0, *root);
            chain_pop(s0);
            let d = s0.drop_last();
            held_push(d, *root, seq![], s0.last());
            assert(seq![] + idx(d) =~= idx(d));
            lt_kid(t, idx(d), s0.last().1 + 1);
            let nd = node_at(*root, idx(d));
            assert(nd.length == nkids(at(t, idx(d))));
        }
    }
//@ after `self . stack . push ( ( branch , index ) ) ;`
    let ghost s1 = self.stack@;
    proof {
        let d = s0.drop_last();
        chain_push(d, t, seq![], (branch, index));
        held_top(s1, *root);
        path_push(t, idx(d), index as int);
        leaf_at(t, idx(s1));
    }
//@ after `self . stack . push ( ( BPtr :: of_in ( $a , $b , $c ) , $d ) ) ;`
    proof { held_push(s1, *root, seq![], self.stack@.last()); }

//@ fn PathedPointer::step_back in search.rs as step_back_at
//@ props C08 C16
//@ gparams root: &Branch<K, V, C>
//@ sub `self . stack . push ( ( child , $n ) ) ;` => `self . stack . push ( ( BPtr :: of_in ( child , Ghost ( idx ( self . stack @ ) ) , Ghost ( * root ) ) , $n ) ) ;`
//@ sub `self . leaf = ( * branch ) . $f:id ( $e ) ;` => `self . leaf = LPtr :: of_in ( branch . look ( root ) . $f ( $e ) , Ghost ( idx ( self . stack @ ) ) , Ghost ( * root ) ) ;`
//@ sub `( * branch )` => `branch . look ( root )`
//@ sub `& * branch` => `branch . look ( root )` opt
//@ sub `( * self . leaf )` => `self . leaf . look ( root )`
//@ spec
    requires
        old(self).leaf.nul() || (root.ok() && wf(leaves(root.st()), true) && old(self).aims(*root)
            && (old(self).index == 0 && old(self).no(*root) > 0 ==> ents(leaves(root.st()))[old(self).no(*root) - 1].1.len() > 0)),
    ensures
        old(self).leaf.nul() ==> r && *final(self) == *old(self),
        !old(self).leaf.nul() && old(self).index > 0 ==> r && final(self).aims(*root) && final(self).path() == old(self).path() && final(self).index == old(self).index - 1,
        !old(self).leaf.nul() && old(self).index == 0 ==> {
            let n = old(self).no(*root);
            &&& r == (n > 0)
            &&& r ==> final(self).aims(*root) && final(self).no(*root) == n - 1
            &&& !r ==> final(self).leaf.nul()
        },
//@ start
    hide(wf); hide(off); hide(fuel_b); hide(at); hide(vpath); hide(ents); hide(lt);
    let ghost t = root.st();
    let ghost g = leaves(t);
    let ghost n = self.no(*root);
    proof {
        if !self.leaf.nul() {
            wf_any(g);
            leaf_no(t, self.path());
        }
    }
//@ before `loop`
    proof { pstart(self.path(), g); }
//@ loop 0
    invariant_except_break pback(idx(self.stack@), g, n)
    invariant
        root.ok(), t == root.st(), g == leaves(t), wf(g, false), !old(self).leaf.nul(), !self.leaf.nul(),
        held(self.stack@, *root, seq![]), n == old(self).no(*root), old(self).index == 0,
        n > 0 ==> ents(g)[n - 1].1.len() > 0,
    ensures self.aims(*root), self.no(*root) == n - 1, n > 0
    decreases fuel_b(g, idx(self.stack@))
//@ body 0
    let ghost s0 = self.stack@;
    proof {
        if s0.len() > 0 {
            pback_up(idx(s0), g, n);
            held_pop(s0, *root);
            chain_pop(s0);
            let d = s0.drop_last();
            held_push(d, *root, seq![], s0.last());
            assert(seq![] + idx(d) =~= idx(d));
            lt_kid(t, idx(d), s0.last().1 - 1);
            let nd = node_at(*root, idx(d));
            assert(nd.length == nkids(at(t, idx(d))));
        }
    }
//@ after `self . stack . push ( ( branch , index ) ) ;`
    let ghost s1 = self.stack@;
    proof {
        let d = s0.drop_last();
        chain_push(d, t, seq![], (branch, index));
        held_top(s1, *root);
        path_push(t, idx(d), index as int);
        leaf_at(t, idx(s1));
        if at(t, idx(s1)) is L {
            leaf_no(t, idx(s1));
            leaf_facts(at(t, idx(s1))->L_0);
            assert(ents(g)[n - 1].1 == ents(at(t, idx(s1))));
        } else {
            let nd = node_at(*root, idx(s1));
            assert(nd.length == nkids(at(t, idx(s1))));
        }
    }
//@ after `self . stack . push ( ( BPtr :: of_in ( $a , $b , $c ) , $d ) ) ;`
    proof { held_push(s1, *root, seq![], self.stack@.last()); }

//@ fn OwnedIter::new in iter/owned.rs
//@ props C08 C11
//@ spec
    requires
        tree is Some ==> tree->0@.ok() && wf(tree->0@.st(), true),
        remaining == match tree { None => 0, Some(p) => ents(p@.st()).len() },
    ensures
        r.inv(),
        r.rest() =~= match tree { None => Seq::<(K, V)>::empty(), Some(p) => ents(p@.st()) },
//@ start
    hide(wf); hide(off); hide(at); hide(vpath); hide(lt);
    broadcast use here_aims;
    proof {
        if tree is Some {
            let t = tree->0@.st();
            wf_any(t);
            lt_wf(t, arbitrary());
            if ents(t).len() > 0 { ends_no(t); }
        }
    }

//@ fn OwnedIter as Iterator::next in iter/owned.rs
//@ as_impl inherent
//@ props C08 C16
//@ attr #[verifier::loop_isolation(false)]
//@ ret_ty Option<(K, V)>
//@ sub `self . left . deref_mut_leaf ( )` => `self . left . deref_mut_leaf ( peek_mut ( & mut self . tree ) )` opt
//@ sub `self . left . step_forward ( )` => `self . left . step_forward_at ( peek ( & self . tree ) )` opt
//@ sub `self . left . step_back ( )` => `self . left . step_back_at ( peek ( & self . tree ) )` opt
//@ sub `self . right . deref_mut_leaf ( )` => `self . right . deref_mut_leaf ( peek_mut ( & mut self . tree ) )` opt
//@ sub `self . right . step_forward ( )` => `self . right . step_forward_at ( peek ( & self . tree ) )` opt
//@ sub `self . right . step_back ( )` => `self . right . step_back_at ( peek ( & self . tree ) )` opt
//@ sub `return leaf . pop_front ( ) ;` => `let result = leaf . pop_front ( ) ; return result ;` opt
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(e) => old(self).rest().len() > 0 && e == old(self).rest()[0] && final(self).rest() =~= old(self).rest().skip(1),
        }
//@ start
    hide(wf); hide(off); hide(at); hide(vpath); hide(ents); hide(lt); hide(bare);
//@ loop 0
    invariant self.inv(), self.tree is Some, self.rest() == old(self).rest()
    decreases (if self.left.leaf.nul() { 0int } else { ents(leaves(self.tree->0@.st())).len() - self.left.no(self.tree->0@) })
//@ body 0
    let ghost root = self.tree->0@;
    let ghost t = root.st();
    let ghost l0 = self.left;
    let ghost n = self.remaining as int;
    proof {
        if !self.left.leaf.nul() {
            leaf_no(t, l0.path());
            upd_id(t, l0.path());
            off_ents(t, l0.path());
            leaf_at(t, l0.path());
            leaf_facts(at(t, l0.path())->L_0);
        }
    }
//@ before `unsafe { self . left . step_forward_at ( peek ( & self . tree ) ) } ;`
    proof { kept(l0, self.right, n, root, self.tree->0@); }
//@ after `unsafe { self . left . step_forward_at ( peek ( & self . tree ) ) } ;`
    proof { pass_left(l0, self.left, self.right, n, self.tree->0@); }
//@ after `let result = leaf . pop_front ( ) ;`
    proof {
        took_first(l0, self.right, n, root, self.tree->0@);
    }

//@ fn OwnedIter as DoubleEndedIterator::next_back in iter/owned.rs
//@ as_impl inherent
//@ props C08 C16
//@ attr #[verifier::loop_isolation(false)]
//@ ret_ty Option<(K, V)>
//@ sub `self . left . deref_mut_leaf ( )` => `self . left . deref_mut_leaf ( peek_mut ( & mut self . tree ) )` opt
//@ sub `self . left . step_forward ( )` => `self . left . step_forward_at ( peek ( & self . tree ) )` opt
//@ sub `self . left . step_back ( )` => `self . left . step_back_at ( peek ( & self . tree ) )` opt
//@ sub `self . right . deref_mut_leaf ( )` => `self . right . deref_mut_leaf ( peek_mut ( & mut self . tree ) )` opt
//@ sub `self . right . step_forward ( )` => `self . right . step_forward_at ( peek ( & self . tree ) )` opt
//@ sub `self . right . step_back ( )` => `self . right . step_back_at ( peek ( & self . tree ) )` opt
//@ sub `return leaf . pop_back ( ) ;` => `let result = leaf . pop_back ( ) ; return result ;` opt
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(e) => old(self).rest().len() > 0 && e == old(self).rest().last() && final(self).rest() =~= old(self).rest().drop_last(),
        }
//@ start
    hide(wf); hide(off); hide(at); hide(vpath); hide(ents); hide(lt); hide(bare);
//@ loop 0
    invariant self.inv(), self.tree is Some, self.remaining > 0, self.remaining == old(self).remaining, self.rest() == old(self).rest()
    decreases self.right.no(self.tree->0@), self.right.index
//@ body 0
    let ghost root = self.tree->0@;
    let ghost t = root.st();
    let ghost r0 = self.right;
    let ghost n = self.remaining as int;
    proof {
        leaf_no(t, r0.path());
        upd_id(t, r0.path());
        leaf_at(t, r0.path());
        leaf_facts(at(t, r0.path())->L_0);
    }
//@ before `unsafe { self . right . step_back_at ( peek ( & self . tree ) ) } ;`
    proof { kept(self.left, r0, n, root, self.tree->0@); can_pass(self.left, r0, n, self.tree->0@); }
//@ after `unsafe { self . right . step_back_at ( peek ( & self . tree ) ) } ;`
    proof { pass_right(self.left, r0, self.right, n, self.tree->0@); leaf_no(t, self.right.path()); }
//@ after `let result = leaf . pop_back ( ) ;`
    proof {
        took_last(self.left, r0, n, root, self.tree->0@);
    }

//@ fn OwnedIter as Iterator::size_hint in iter/owned.rs
//@ as_impl inherent
//@ props C08
//@ spec
    requires self.inv()
    ensures r.0 == self.rest().len(), r.1 == Some(r.0)
