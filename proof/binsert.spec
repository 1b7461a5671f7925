// Recursive insertion.

//@ fn Branch::insert in branch.rs
//@ props C02 C12 C16
//@ attr #[verifier::rlimit(150)]
//@ spec
    requires old(self).ok(), wf(old(self).st(), false), old(self).length > 0, spine(old(self).st(), Some(rank(key)))
    ensures
        final(self).ok(), wf(final(self).st(), false),
        r is Full ==> spine(final(self).st(), Some(rank(key))) && (lastr(final(self).st()) == lastr(old(self).st()) || lastr(final(self).st()) == rmax(lastr(old(self).st()), rank(key))),
        !(r is Full) ==> spine(final(self).st(), None) && lastr(final(self).st()) == rmax(lastr(old(self).st()), rank(key)),
        final(self).length >= old(self).length, final(self).has_branches == old(self).has_branches,
        dep(final(self).st()) <= dep(old(self).st()),
        wf(old(self).st(), true) && rank(key) <= rank(old(self).ks().last()) ==> wf(final(self).st(), true) && rank(final(self).ks().last()) == rank(old(self).ks().last()),
        match r {
            InsertResult::Added => !holds(ents(old(self).st()), rank(key)) && ents(final(self).st()) == put(ents(old(self).st()), key, value),
            InsertResult::Replaced(v) => get_of(ents(old(self).st()), rank(key)) == Some(v) && ents(final(self).st()) == put(ents(old(self).st()), key, value),
            InsertResult::Full(k, v) => k == key && v == value && !holds(ents(old(self).st()), rank(key))
                && ents(final(self).st()) == ents(old(self).st())
                && jam(old(self).st(), rank(key), bsize::<K, V, C>(), lsize::<K, V, C>()) && final(self).length == old(self).length,
        },
    decreases dep(old(self).st()), bsize::<K, V, C>() - old(self).length
//@ start
    hide(wf); hide(dep); hide(maxdep); hide(put); hide(lb); hide(spine);
    let ghost mut h = 0int;
    let ghost t0 = self.st();
    let ghost k0 = key;
    let ghost v0 = value;
    let ghost x = rank(key);
    let ghost n = nkids(t0);
    proof { child_pre(t0, x); if fi(t0, x) < n && t0->br { spine_child(t0, x); } }
//@ before `return result` #0
    proof {
        let c = self.st()->kids[index as int];
        let es = ents(t0->kids[index as int]);
        if t0->br {
            node_put(t0, index as int, c, k0, v0);
        } else {
            leaf_facts(es);
            leaf_facts(put(es, k0, v0));
            put_props(es, k0, v0);
            assert(c == ST::L(put(es, k0, v0)));
            node_put(t0, index as int, c, k0, v0);
        }
        assert(eqn(self.st(), with_kid(t0, index as int, c)));
        spine_put(t0, index as int, c, x);
    }
//@ before `if self . is_full ( )` #0
    let ghost t1 = self.st();
    proof { node_same(t0, index as int, t1->kids[index as int]); spine_same(t0, index as int, t1->kids[index as int], x); }
//@ after `let ( left , right ) = Self :: split ( $e ) ;` #0
    proof { h = left@.length as int; }
//@ before `self . insert ( key , value )` #0
    proof {
        split_kid_room(t1, index as int, h, x, bsize::<K, V, C>(), lsize::<K, V, C>());
        split_kid_wf(t1, index as int, h, false);
        if wf(t1, true) { split_kid_wf(t1, index as int, h, true); }
        assert(eqn(self.st(), split_kid(t1, index as int, h)));
        spine_split(t1, index as int, h, Some(x));
    }
//@ after `let ( left , right ) = Leaf :: split ( $e ) ;` #0
    proof { h = left@.length as int; }
//@ before `self . insert ( key , value )` #1
    proof {
        split_kid_room(t1, index as int, h, x, bsize::<K, V, C>(), lsize::<K, V, C>());
        split_kid_wf(t1, index as int, h, false);
        if wf(t1, true) { split_kid_wf(t1, index as int, h, true); }
        assert(eqn(self.st(), split_kid(t1, index as int, h)));
        spine_split(t1, index as int, h, Some(x));
    }
//@ before `let end_index`
    proof {
        raise_last(t0, k0);
        spine_raise(t0, k0);
        child_pre(with_sep(t0, n - 1, k0), x);
        with_kid_id(t0, n - 1);
    }
    let ghost tr = with_sep(t0, n - 1, k0);
//@ before `. get_branch_mut ( end_index ) . insert (`
    proof { assert(eqn(self.st(), tr)); }
//@ before `return result` #1
    proof { node_put(tr, n - 1, self.st()->kids[n - 1], k0, v0); spine_put(tr, n - 1, self.st()->kids[n - 1], x); }
//@ before `return InsertResult :: Added`
    proof {
        let es = ents(t0->kids[n - 1]);
        around(t0, n - 1, false);
        put_last(es, k0, v0);
        leaf_facts(es);
        leaf_facts(put(es, k0, v0));
        put_props(es, k0, v0);
        node_put(tr, n - 1, ST::L(put(es, k0, v0)), k0, v0);
        spine_put(tr, n - 1, ST::L(put(es, k0, v0)), x);
        assert(eqn(self.st(), with_kid(tr, n - 1, ST::L(put(es, k0, v0)))));
    }
//@ before `if self . is_full ( )` #1
    let ghost t1 = self.st();
    proof {
        if self.has_branches { node_same(tr, n - 1, t1->kids[n - 1]); spine_same(tr, n - 1, t1->kids[n - 1], x); }
    }
//@ after `let ( left , right ) = Self :: split ( $e ) ;` #1
    proof { h = left@.length as int; }
//@ before `self . insert ( key , value )` #2
    proof {
        split_kid_room(t1, n - 1, h, x, bsize::<K, V, C>(), lsize::<K, V, C>());
        split_kid_wf(t1, n - 1, h, false);
        assert(eqn(self.st(), split_kid(t1, n - 1, h)));
        spine_split(t1, n - 1, h, Some(x));
    }
//@ before `Leaf :: unit (`
    proof { push_leaf_wf(t0, k0, v0); reveal(spine); }
