// The tree's own operations.

//@ fn PalmTree::new in lib.rs
//@ props C02 C04
//@ spec
    ensures r.inv(), r.all() =~= Seq::<(K, V)>::empty()

//@ fn PalmTree::len in lib.rs
//@ props C04
//@ spec
    requires self.size == self.all().len()
    ensures r == self.all().len()

//@ fn PalmTree::is_empty in lib.rs
//@ props C04
//@ spec
    requires self.size == self.all().len()
    ensures r == (self.all().len() == 0)

//@ fn PalmTree::get in lib.rs
//@ props C01
//@ spec
    requires self.inv()
    ensures match r {
        Some(v) => get_of(self.all(), rank(*key)) == Some(*v),
        None => get_of(self.all(), rank(*key)) is None,
    }
//@ start
    proof { unit_none::<K, V>(rank(*key)); }

//@ fn PalmTree::get_linear in lib.rs
//@ props C01
//@ spec
    requires self.inv()
    ensures match r {
        Some(v) => get_of(self.all(), rank(*key)) == Some(*v),
        None => get_of(self.all(), rank(*key)) is None,
    }
//@ start
    proof { unit_none::<K, V>(rank(*key)); }

//@ fn PalmTree::get_mut in lib.rs
//@ props C01 C07 C11 C12
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            Some(v) => get_of(old(self).all(), rank(*key)) == Some(*v) && final(self).all() == put(old(self).all(), *key, *final(v)),
            None => get_of(old(self).all(), rank(*key)) is None && final(self).all() == old(self).all(),
        }
//@ start
    proof { unit_none::<K, V>(rank(*key)); self.inv_sorted(); put_len(self.all(), *key); if self.root is Some { tight_spine(self.root->0@.st()); } }

//@ fn PalmTree as Index::index in lib.rs
//@ as_impl inherent
//@ props C01
//@ ret_ty &V
//@ spec
    requires self.inv(), holds(self.all(), rank(*index))
    ensures get_of(self.all(), rank(*index)) == Some(*r)

//@ fn PalmTree as IndexMut::index_mut in lib.rs
//@ as_impl inherent
//@ props C01 C07
//@ ret_ty &mut V
//@ spec
    requires old(self).inv(), holds(old(self).all(), rank(*index))
    ensures
        final(self).inv(),
        get_of(old(self).all(), rank(*index)) == Some(*r),
        final(self).all() == put(old(self).all(), *index, *final(r)),

//@ fn PalmTree as Clone::clone in lib.rs
//@ as_impl inherent
//@ props C04 C11
//@ sub `self . root . clone ( )` => `clone_ptr ( & self . root )` opt
//@ spec
    requires self.inv()
    ensures r.inv(), r.all() == self.all()

//@ fn PalmTree::trim_root in lib.rs
//@ props C09 C11 C12
//@ spec
    requires old(self).inv()
    ensures final(self).inv(), final(self).all() == old(self).all()
//@ start
    let ghost t = self.all();
//@ loop 0
    invariant
        root@.ok(), wf(root@.st(), false), spine(root@.st(), None), ents(root@.st()) == t,
    decreases dep(root@.st())
//@ body 0
    proof { only_kid(root@.st()); dep_kids(root@.st()); }

//@ fn PalmTree::split_root in lib.rs
//@ props C02 C12 C16
//@ spec
    requires old(root)@.ok(), wf(old(root)@.st(), false), old(root)@.length >= 2
    ensures
        final(root)@.ok(), wf(final(root)@.st(), false), final(root).excl(),
        ents(final(root)@.st()) == ents(old(root)@.st()),
        final(root)@.length == 2, final(root)@.has_branches,
        spine(old(root)@.st(), None) ==> spine(final(root)@.st(), None) && lastr(final(root)@.st()) == lastr(old(root)@.st()),
//@ start
    let ghost mut h = 0int;
    let ghost t = root@.st();
//@ after `. push_branch_pair ( $a , $b , $c , $d ) ;`
    proof {
        let u = one_kid(true, t->seps.last(), t);
        grow_wf(t, t->seps.last());
        split_kid_wf(u, 0, h, false);
        if spine(t, None) { spine_split(u, 0, h, None); }
        assert(eqn(root@.st(), split_kid(u, 0, h)));
    }
//@ after `let ( left , right ) = Branch :: split ( $e ) ;`
    proof { h = left@.length as int; }

//@ fn PalmTree::insert in lib.rs
//@ props C02 C04
//@ spec
    requires old(self).inv_for(rank(key)), old(self).size < usize::MAX
    ensures
        final(self).inv(),
        final(self).all() == put(old(self).all(), key, value),
        r == get_of(old(self).all(), rank(key)),

//@ fn PalmTree::entry in lib.rs
//@ props C02 C07 C11 C15
//@ spec
    requires old(self).inv_for(rank(key))
    ensures
        match r {
            Entry::Occupied(e) => e.good() && rank(e.cur().0) == rank(key) && holds(old(self).all(), rank(key)) && e.tree.all() == old(self).all() && e.tree.size == old(self).size && *final(e.tree) == *final(self),
            Entry::Vacant(e) => e.good() && e.key == key && e.tree.all() == old(self).all() && e.tree.size == old(self).size && *final(e.tree) == *final(self),
        }

//@ fn PalmTree::remove in lib.rs
//@ props C02 C03 C04 C11
//@ sub `path . remove ( )` => `path . remove ( root )`
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            Some(e) => rank(e.0) == rank(*key) && old(self).all().contains(e) && get_of(old(self).all(), rank(*key)) == Some(e.1)
                && final(self).all() == without(old(self).all(), rank(*key)),
            None => get_of(old(self).all(), rank(*key)) is None && final(self).all() == old(self).all(),
        }
//@ start
    hide(wf);
    broadcast use {here_aims, tight_inv};
    proof {
        unit_none::<K, V>(rank(*key));
        if self.root is Some { let t = self.root->0@.st(); tight_spine(t); wf_sorted(t, false); lb_props(ents(t), rank(*key)); }
    }

//@ fn PalmTree::remove_lowest in lib.rs
//@ props C03 C04 C11
//@ sub `path . remove ( )` => `path . remove ( root )`
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            Some(e) => old(self).all().len() > 0 && e == old(self).all()[0] && final(self).all() == old(self).all().remove(0),
            None => old(self).all().len() == 0 && final(self).all() == old(self).all(),
        }
//@ start
    hide(wf);
    broadcast use {here_aims, tight_inv};
    proof { if self.root is Some { let t = self.root->0@.st(); tight_spine(t); } }

//@ fn PalmTree::remove_highest in lib.rs
//@ props C03 C04 C11
//@ sub `path . remove ( )` => `path . remove ( root )`
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        match r {
            Some(e) => old(self).all().len() > 0 && e == old(self).all().last() && final(self).all() == old(self).all().remove(old(self).all().len() - 1),
            None => old(self).all().len() == 0 && final(self).all() == old(self).all(),
        }
//@ start
    hide(wf);
    broadcast use {here_aims, tight_inv};
    proof { if self.root is Some { let t = self.root->0@.st(); tight_spine(t); } }

//@ fn PalmTree::insert_recursive in lib.rs
//@ props C02 C04 C11 C12 C16
//@ spec
    requires old(self).inv(), old(self).size < usize::MAX
    ensures
        final(self).inv(),
        final(self).all() == put(old(self).all(), key, value),
        r == get_of(old(self).all(), rank(key)),
//@ start
    let ghost t = self.all();
    let ghost k0 = key;
    let ghost v0 = value;
    proof {
        self.inv_sorted();
        put_len(t, key);
        self.inv_weak(rank(key));
        unit_wf(key, value);
        unit_none::<K, V>(rank(key));
        if self.root is Some { hollow(self.root->0@.st()); }
    }
//@ before `self . insert ( key , value )`
    proof {
        grow_wf(tm, tm->seps.last());
        assert(eqn(self.root->0@.st(), one_kid(true, key2_, tm)));
    }
//@ before `let key2`
    let ghost tm = root_ref.st();
    let ghost key2_ = root_ref.ks().last();
