// Entries.

//@ fn Entry::new in entry.rs
//@ props C02 C07 C11 C15
//@ spec
    requires old(tree).inv_for(rank(key))
    ensures
        match r {
            Entry::Occupied(e) => e.good() && rank(e.cur().0) == rank(key) && holds(old(tree).all(), rank(key)) && e.tree.all() == old(tree).all() && e.tree.size == old(tree).size && *final(e.tree) == *final(tree),
            Entry::Vacant(e) => e.good() && e.key == key && e.tree.all() == old(tree).all() && e.tree.size == old(tree).size && *final(e.tree) == *final(tree),
        }
//@ start
    hide(wf);
    broadcast use here_aims;
    let ghost x = rank(key);
    proof {
        if tree.root is Some {
            let t = tree.root->0@.st();
            hollow(t);
            if wf(t, true) ==> nkids(t) > 0 ==> x > lastr(t) { past_end(t, x); }
            assert forall|q: Seq<int>| #[trigger] kpath(t, q, x) && at(t, q) is L implies wf(t, true) by { found_tight(t, q, x); }
            assert forall|q: Seq<int>, i: int|
                vpath(t, q) && at(t, q) is L && 0 <= i < ents(at(t, q)).len() && off(t, q) + i == lb(ents(t), x) && holds(ents(t), x) implies
                wf(t, true) && rank((#[trigger] ents(at(t, q))[i]).0) == x by { hit_tight(t, q, i, x); }
        }
        unit_none::<K, V>(x);
    }

//@ fn VacantEntry::key in entry.rs
//@ props C07 C15
//@ spec
    ensures *r == self.key

//@ fn VacantEntry::into_key in entry.rs
//@ props C07 C15
//@ spec
    ensures r == self.key, *final(self.tree) == *old(self.tree)

//@ fn VacantEntry::insert in entry.rs
//@ attr #[verifier::spinoff_prover]
//@ props C02 C04 C07 C12 C15 C16
//@ sub `self . cursor . insert ( $a , $b )` => `self . cursor . insert ( $a , $b , peek_mut ( & mut self . tree . root ) )`
//@ sub `ptr . value_mut ( )` => `ptr . value_mut ( peek_mut ( & mut self . tree . root ) )`
//@ sub `* mut V` => `& 'a mut V`
//@ spec
    requires self.good(), self.tree.size < usize::MAX
    ensures
        *r == value,
        final(self.tree).inv(),
        final(self.tree).all() == put(old(self.tree).all(), self.key, *final(r)),
        !holds(old(self.tree).all(), rank(self.key)),
    decreases (if self.tree.root is Some && self.tree.root->0@.length == bsize::<K, V, C>() { 1int } else { 0int })
//@ start
    hide(wf); hide(put); hide(spine);
    broadcast use {zip_vals, here_aims};
    let ghost k0 = self.key;
    let ghost v0 = value;
    let ghost x = rank(k0);
    let ghost t0 = self.tree.all();
    proof {
        assert forall|v: V| wf(#[trigger] one_kid(false, k0, ST::L(seq![(k0, v)])), false)
            && ents(one_kid(false, k0, ST::L(seq![(k0, v)]))) == seq![(k0, v)] && spine(one_kid(false, k0, ST::L(seq![(k0, v)])), None)
            && put(Seq::<(K, V)>::empty(), k0, v) == seq![(k0, v)] by {
            unit_wf(k0, v); reveal(spine);
        }
        if self.tree.root is Some { wf_sorted(self.tree.root->0@.st(), false); hollow(self.tree.root->0@.st()); put_len(t0, k0); }
    }
//@ before `return & mut`
    proof {
        let t1 = self_.tree.root->0@.st();
        assert(t0 =~= Seq::<(K, V)>::empty());
        let es = seq![(k0, v0)];
        assert(eqn(t1, one_kid(false, k0, ST::L(es))));
        assert forall|c: ST<K, V>| #[trigger] with_kid(t1, 0, c) == one_kid(false, k0, c) by { assert(eqn(with_kid(t1, 0, c), one_kid(false, k0, c))); }
        assert forall|v: V| #[trigger] es.update(0, (k0, v)) == seq![(k0, v)] by { assert(es.update(0, (k0, v)) =~= seq![(k0, v)]); }
        assert(t1->kids[0] == ST::L(es));
    }
//@ before `PalmTree :: split_root ( root ) ;`
    proof { wf_any(root@.st()); spine_tight(root@.st()); }
//@ before `self_ . insert ( value )`
    proof {
        let r = self_.tree.root->0@;
        hollow(r.st());
        tight_spine(r.st());
        spine_weak(r.st(), x);
        if wf(r.st(), true) ==> nkids(r.st()) > 0 ==> x > lastr(r.st()) { past_end(r.st(), x); }
    }
//@ before `self_ . tree . size += 1 ;`
    proof {
        let t1 = self_.tree.root->0@.st();
        let p = ptr.leaf.path();
        set_vals(t1, p, ptr.index as int);
        assert forall|v: V| #[trigger] put(put(t0, k0, v0), k0, v) == put(t0, k0, v) by { put_put(t0, k0, v0, v); }
    }

//@ fn OccupiedEntry::key in entry.rs
//@ props C01 C07 C15
//@ sub `self . cursor . key ( )` => `self . cursor . key_at ( peek ( & self . tree . root ) )`
//@ spec
    requires self.good()
    ensures *r == self.cur().0

//@ fn OccupiedEntry::get in entry.rs
//@ props C01 C07 C15
//@ sub `self . cursor . value ( )` => `self . cursor . value_at ( peek ( & self . tree . root ) )`
//@ spec
    requires self.good()
    ensures *r == self.cur().1, Some(*r) == get_of(self.found_in(), rank(self.cur().0))
//@ start
    proof { cut_val(self.tree.root->0@.st(), self.cursor.path(), self.cursor.index as int); }

//@ fn OccupiedEntry::get_mut in entry.rs
//@ props C07 C15
//@ sub `self . cursor . value_mut ( )` => `self . cursor . value_mut ( peek_mut ( & mut self . tree . root ) )`
//@ spec
    requires old(self).good()
    ensures
        *r == old(self).cur().1, Some(*r) == get_of(old(self).tree.all(), rank(old(self).cur().0)), holds(old(self).tree.all(), rank(old(self).cur().0)),
        final(self).good(), final(self).tree.inv(), final(self).cur() == (old(self).cur().0, *final(r)),
        final(self).tree.all() == put(old(self).tree.all(), old(self).cur().0, *final(r)),
        *final(final(self).tree) == *final(old(self).tree),
//@ start
    hide(wf);
    broadcast use held_stays;
    proof {
        let t = self.tree.root->0@.st();
        let p = self.cursor.path();
        cut_val(t, p, self.cursor.index as int);
        set_vals(t, p, self.cursor.index as int);
    }

//@ fn OccupiedEntry::insert in entry.rs
//@ props C02 C07 C15
//@ spec
    requires old(self).good()
    ensures
        r == old(self).cur().1, Some(r) == get_of(old(self).tree.all(), rank(old(self).cur().0)), holds(old(self).tree.all(), rank(old(self).cur().0)),
        final(self).good(), final(self).tree.inv(), final(self).cur() == (old(self).cur().0, value),
        final(self).tree.all() == put(old(self).tree.all(), old(self).cur().0, value),
        *final(final(self).tree) == *final(old(self).tree),

//@ fn OccupiedEntry::remove_entry in entry.rs
//@ props C02 C03 C04 C07 C15
//@ sub `self . cursor . remove ( )` => `self . cursor . remove ( peek_mut ( & mut self . tree . root ) )`
//@ spec
    requires self.good()
    ensures
        r == self.cur(), get_of(old(self.tree).all(), rank(r.0)) == Some(r.1), old(self.tree).all().contains(r),
        final(self.tree).inv(), final(self.tree).all() == without(old(self.tree).all(), rank(r.0)),
//@ start
    broadcast use tight_inv;
    proof { cut_val(self.tree.root->0@.st(), self.cursor.path(), self.cursor.index as int); }

//@ fn OccupiedEntry::remove in entry.rs
//@ props C02 C03 C07 C15
//@ spec
    requires self.good()
    ensures
        r == self.cur().1,
        final(self.tree).inv(), final(self.tree).all() == without(old(self.tree).all(), rank(self.cur().0)),

//@ fn OccupiedEntry::into_mut in entry.rs
//@ props C07 C15
//@ sub `self . cursor . into_entry_mut ( )` => `self . cursor . into_entry_mut ( peek_mut ( & mut self . tree . root ) )`
//@ spec
    requires self.good()
    ensures
        *r == self.cur().1, Some(*r) == get_of(old(self.tree).all(), rank(self.cur().0)),
        final(self.tree).inv(), final(self.tree).all() == put(old(self.tree).all(), self.cur().0, *final(r)),
//@ start
    hide(wf);
    proof {
        let t = self.tree.root->0@.st();
        let p = self.cursor.path();
        cut_val(t, p, self.cursor.index as int);
        set_vals(t, p, self.cursor.index as int);
    }
