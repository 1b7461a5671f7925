// Writing through cursors.

//@ fn PathedPointer::deref_mut_leaf in search.rs
//@ props C02 C03
//@ params &mut self, root: &'a mut Branch<K, V, C>
//@ sub `( self . leaf as * mut Leaf < K , V , C > ) . as_mut ( )` => `self . leaf . as_mut_opt ( root )`
//@ spec
    requires old(self).leaf.nul() || (old(root).ok() && old(self).leaf.valid(*old(root)) && vpath(old(root).st(), old(self).leaf.path()) && at(old(root).st(), old(self).leaf.path()) is L)
    ensures
        *final(self) == *old(self),
        r is None == old(self).leaf.nul(),
        match r {
            None => *final(root) == *old(root),
            Some(l) => {
                &&& l.ok() && ST::L(l.ents()) == at(old(root).st(), old(self).leaf.path())
                &&& final(l).ok() ==> final(root).ok() && final(root).st() == upd(old(root).st(), old(self).leaf.path(), ST::L(final(l).ents()))
                &&& forall|o: BPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root))
                &&& forall|o: LPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root))
            }
        },

//@ fn PathedPointer::remove in search.rs
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::rlimit(100)]
//@ props C02 C03 C15 C16
//@ gparams root: &mut Branch<K, V, C>
//@ sub `self . deref_mut_leaf ( )` => `self . deref_mut_leaf ( root )`
//@ spec
    requires old(root).ok(), wf(old(root).st(), true), self.aims(*old(root)), self.index < ents(at(old(root).st(), self.path())).len()
    ensures
        final(root).ok(), wf(final(root).st(), true),
        0 <= self.pos(old(root).st()) < ents(old(root).st()).len(),
        r == ents(old(root).st())[self.pos(old(root).st())],
        ents(final(root).st()) == ents(old(root).st()).remove(self.pos(old(root).st())),
//@ start
    hide(wf);
    let ghost t = root.st();
    let ghost p = self.path();
    let ghost es = ents(at(t, p));
    let ghost x = rank(es[self.index as int].0);
    let ghost mut e = ST::<K, V>::L(es.remove(self.index as int));
    proof {
        wf_any(t);
        leaf_facts(es);
        path_wf(t, p, true);
        wf_sorted(at(t, p), false);
        cut_props(es, self.index as int);
        path_key(t, p, x);
        key_pos(t, p, x);
        wf_sorted(t, true);
        off_ents(t, p);
        cut_props(ents(t), self.pos(t));
        splice_without(es, x);
        splice_without(ents(t), x);
        leaf_facts(es.remove(self.index as int));
    }
//@ before `if leaf . is_empty ( )`
    proof {
        assert(leaf.ents() =~= es.remove(index as int));
        if leaf.length > 0 { cut_done(upd(t, p, e), t, p, e, x); }
    }
//@ before `while let Some`
    proof { held_all(self_.stack@, *old(root), *root, seq![]); }
//@ loop 0
    invariant_except_break
        root.ok(), cut_at(root.st(), t, idx(self_.stack@), e, x), ents(e).len() == 0, held(self_.stack@, *root, seq![]),
    invariant
        wf(t, true),
    ensures
        root.ok(), wf(root.st(), true), ents(root.st()) == splice(ents(t), x, seq![]),
    decreases self_.stack@.len()
//@ body 0
    let ghost r0 = *root;
    let ghost s0 = self_.stack@;
    let ghost q = idx(s0);
    let ghost b = at(t, q);
    proof {
        let i = index as int;
        held_push(s0, r0, seq![], (branch, index));
        path_push(t, q, i);
        cut_drop(root.st(), t, q.push(i), e, x);
        e = drop_kid(b, i);
        assert(seq![] + q =~= q);
        if e->kids.len() == 0 && q.len() == 0 { cut_done(upd(r0.st(), q, e), t, q, e, x); }
    }
//@ before `if ! branch . look ( root ) . is_empty ( )`
    proof {
        assert(root.st() == upd(r0.st(), q, e));
        assert(q.take(q.len() as int) =~= q);
        held_keep(s0, r0, *root, seq![], q);
    }
    let ghost d = e;
//@ loop 1
    invariant
        wf(t, true), root.ok(), d is N, d->seps.len() > 0,
        branch.valid(*root), vpath(root.st(), branch.path()), at(root.st(), branch.path()) == d,
        under(idx(self_.stack@), branch.path()),
        held(self_.stack@, *root, seq![]),
        cut_at(root.st(), t, idx(self_.stack@), e, x), ents(e).len() > 0, e is N, e->seps.len() > 0,
        lastr(e) <= lastr(at(t, idx(self_.stack@))),
        is_last ==> e->seps.last() == d->seps.last(),
        !is_last ==> rank(e->seps.last()) == rank(at(t, idx(self_.stack@))->seps.last()),
    ensures
        idx(self_.stack@).len() > 0 ==> rank(e->seps.last()) == rank(at(t, idx(self_.stack@))->seps.last()),
    decreases self_.stack@.len()
//@ before `let index = index as usize ;` #1
    let ghost r1 = *root;
    let ghost s1 = self_.stack@;
    let ghost q1 = idx(s1);
    let ghost j = index as int;
    let ghost e1 = e;
    proof {
        held_push(s1, r1, seq![], (parent, index));
        path_push(t, q1, j);
        cut_lower(r1.st(), t, q1.push(j), e, x, d->seps.last());
        assert(seq![] + q1 =~= q1);
        under_push(q1.push(j), branch.path());
        e = with_sep(with_kid(at(t, q1), j, e1), j, d->seps.last());
    }
//@ after `parent . as_mut ( root ) . keys_mut ( ) [ index ] = $e ;`
    proof {
        at_upd(r1.st(), q1, e);
        assert(root.st() == upd(r1.st(), q1, e));
        at_above(r1.st(), q1, e, branch.path());
        held_all(s1, r1, *root, seq![]);
        assert(parent.path() == q1);
        assert(vpath(root.st(), q1));
        assert(at(root.st(), q1) == e);
    }
//@ before `break ;` #1
    proof { cut_done(root.st(), t, idx(self_.stack@), e, x); }

//@ fn PathedPointer::deref_mut_leaf_unchecked in search.rs
//@ props C02 C07
//@ params &mut self, root: &'a mut Branch<K, V, C>
//@ sub `let ptr = self . leaf as * mut Leaf < K , V , C > ;` => `let ptr = self . leaf ;`
//@ sub `& mut * ptr` => `ptr . as_mut ( root )`
//@ spec
    requires !old(self).leaf.nul(), old(root).ok(), old(self).leaf.valid(*old(root)), vpath(old(root).st(), old(self).leaf.path()), at(old(root).st(), old(self).leaf.path()) is L
    ensures
        *final(self) == *old(self),
        r.ok(), ST::L(r.ents()) == at(old(root).st(), old(self).leaf.path()),
        final(r).ok() ==> final(root).ok() && final(root).st() == upd(old(root).st(), old(self).leaf.path(), ST::L(final(r).ents())),
        forall|o: BPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root)),
        forall|o: LPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root)),

//@ fn PathedPointer::insert in search.rs
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::spinoff_prover]
//@ attr #[verifier::rlimit(100)]
//@ props C02 C15 C16
//@ gparams root: &mut Branch<K, V, C>
//@ sub `self . deref_mut_leaf ( )` => `self . deref_mut_leaf ( root )`
//@ sub `self . deref_mut_leaf_unchecked ( )` => `self . deref_mut_leaf_unchecked ( root )`
//@ sub `& mut self . stack ,` => `& mut self . stack , Ghost ( base ) , Ghost ( * root ) ,`
//@ sub `self . leaf = leaf ;` => `self . leaf = LPtr :: of_in ( leaf , Ghost ( base + idx ( self . stack @ . skip ( n0 as int ) ) ) , Ghost ( * root ) ) ;`
//@ spec
    requires
        old(root).ok(), wf(old(root).st(), true), self.aims(*old(root)),
        kpath(old(root).st(), self.path(), rank(key)), !holds(ents(old(root).st()), rank(key)),
        self.index == lb(ents(at(old(root).st(), self.path())), rank(key)),
    ensures
        final(root).ok(), wf(final(root).st(), true),
        match r {
            Ok(p) => ents(final(root).st()) == put(ents(old(root).st()), key, value) && p.set(*final(root), key, value),
            Err(e) => e == (key, value) && final(root).st() == old(root).st() && final(root).length == bsize::<K, V, C>(),
        },
//@ start
    hide(wf); hide(put); hide(dep); hide(maxdep);
    let ghost t = root.st();
    let ghost x = rank(key);
    let ghost k0 = key;
    let ghost v0 = value;
    let ghost mut base = Seq::<int>::empty();
    let ghost mut n0 = 0nat;
    let ghost mut cut = false;
    let ghost r0 = *root;
    proof { wf_any(t); }
    proof { path_k_v(t, self.path(), x); path_find(t, self.path(), x); wf_sorted(at(t, self.path()), false); lb_props(ents(at(t, self.path())), x); }
//@ after `. insert_unchecked ( $a ) ;` #0
    proof {
        let es = ents(at(t, self_.path()));
        wf_any(t);
        path_find(t, self_.path(), x);
        wf_sorted(at(t, self_.path()), false);
        fill_leaf(t, self_.path(), k0, v0);
        assert(es.insert(index as int, (k0, v0)) =~= put(es, k0, v0)) by { reveal(put); }
        assert(root.st() == upd(t, self_.path(), ST::L(put(es, k0, v0))));
    }
//@ before `loop`
    proof {
        assert(self_.stack@.skip(0) =~= self_.stack@);
        assert(base + idx(self_.stack@) =~= idx(self_.stack@));
        upd_id(t, self_.path());
        held_all(self_.stack@, r0, *root, seq![]);
        assert(root.st() == t);
    }
//@ loop 0
    invariant
        root.ok(), wf(root.st(), true), ents(root.st()) == ents(t),
        n0 <= self_.stack@.len(), n0 <= base.len(),
        held(self_.stack@.skip(n0 as int), *root, base),
        kpath(root.st(), base + idx(self_.stack@.skip(n0 as int)), x),
        crammed(at(root.st(), base + idx(self_.stack@.skip(n0 as int))), bsize::<K, V, C>(), lsize::<K, V, C>()),
        cut ==> at(root.st(), base) is N && nkids(at(root.st(), base)) < bsize::<K, V, C>(),
        !cut ==> base.len() == 0 && n0 == 0 && root.st() == t,
    decreases dep(at(root.st(), base)), self_.stack@.len() - n0
//@ body 0
    let ghost s0 = self_.stack@;
    let ghost w0 = s0.skip(n0 as int);
    let ghost u = root.st();
    let ghost ru = *root;
    proof {
        chain_none(w0);
        chain_none(s0);
        if w0.len() > 0 { pop_skip(s0, n0 as int, ru, base, u, x); }
    }
    let ghost q = base + idx(s0.drop_last().skip(n0 as int));
    let ghost b = at(u, q);
    let ghost mut o = b;
    let ghost mut h = 0int;
//@ before `let index = index as usize ;`
    let ghost i = index as int;
    proof { dep_at(at(u, base), Seq::<int>::empty()); assert(q.take(q.len() as int) =~= q); assert(under(q, q)); }
//@ before `branch . as_mut ( root ) . insert_branch_pair`
    proof { h = left@.length as int; cut_two(u, q, i, x, h); assert(root.st() == upd(u, q, drop_kid(b, i))); }
//@ before `branch . as_mut ( root ) . insert_leaf_pair`
    proof { h = left@.length as int; cut_two(u, q, i, x, h); assert(root.st() == upd(u, q, drop_kid(b, i))); }
//@ after `branch . as_mut ( root ) . insert_branch_pair ( $a ) ;`
    proof {
        let d = split_kid(b, i, h);
        at_upd(upd(u, q, drop_kid(b, i)), q, d);
        assert(root.st() == upd(u, q, d));
        o = half(b->kids[i], h, x);
    }
//@ after `branch . as_mut ( root ) . insert_leaf_pair ( $a ) ;`
    proof {
        let d = split_kid(b, i, h);
        at_upd(upd(u, q, drop_kid(b, i)), q, d);
        assert(root.st() == upd(u, q, d));
        o = half(b->kids[i], h, x);
    }
//@ before `let leaf = if branch`
    let ghost s1 = self_.stack@;
    let ghost u2 = root.st();
    let ghost o1 = o;
    proof {
        held_keep(s1.skip(n0 as int), ru, *root, base, q);
        base = q.push(i + side(b->kids[i], h, x));
        n0 = s1.len();
        cut = true;
        wf_any(o1);
        assert(s1.skip(n0 as int) =~= seq![]);
        chain_none(s1.skip(n0 as int));
        assert(s1.take(n0 as int) =~= s1);
    }
//@ before `if let Some ( leaf ) = leaf`
    proof {
        let w = self_.stack@.skip(n0 as int);
        match leaf {
            Some(l) => {
                at_add(u2, base, idx(w));
                if b->br {} else { assert(w =~= s1.skip(n0 as int)); }
                assert(at(u2, base + idx(w)) == ST::L(l.ents()));
                assert(kpath(u2, base + idx(w), x));
                path_k_v(u2, base + idx(w), x);
                wf_any(u2);
                path_find(u2, base + idx(w), x);
                path_wf(u2, base + idx(w), false);
                assert(ekeys(l.ents()) =~= l.ks());
                wf_sorted(at(u2, base + idx(w)), false);
                leaf_facts(l.ents());
                lb_props(l.ents(), x);
            }
            None => { assert(b->br); assert(o1->seps.len() > 0); assert(false); }
        }
    }
//@ after `. insert_unchecked ( $a ) ;` #1
    proof {
        let p = self_.leaf.path();
        let es = ents(at(u2, p));
        fill_leaf(u2, p, k0, v0);
        assert(es.insert(index as int, (k0, v0)) =~= put(es, k0, v0)) by { reveal(put); }
        assert(root.st() == upd(u2, p, ST::L(put(es, k0, v0))));
    }

//@ fn PathedPointer::push_last in search.rs
//@ props C02 C15 C16
//@ attr #[verifier::spinoff_prover]
//@ sub `let mut branch = root ;` => `let mut branch = BPtr :: of_in ( & * root , Ghost ( idx ( self . stack @ ) ) , Ghost ( * root ) ) ;`
//@ sub `branch . len ( )` => `branch . look ( root ) . len ( )`
//@ sub `branch . highest ( )` => `branch . look ( root ) . highest ( )`
//@ sub `branch . keys_mut ( )` => `branch . as_mut ( root ) . keys_mut ( )`
//@ sub `branch . has_branches ( )` => `branch . look ( root ) . has_branches ( )`
//@ sub `branch = branch . get_branch_mut ( index ) ;` => `branch . as_mut ( root ) . get_branch_mut ( index ) ; branch = BPtr :: of_in ( branch . look ( root ) . get_branch ( index ) , Ghost ( idx ( self . stack @ ) ) , Ghost ( * root ) ) ;`
//@ sub `self . leaf = branch . get_leaf ( index ) ;` => `self . leaf = LPtr :: of_in ( branch . look ( root ) . get_leaf ( index ) , Ghost ( idx ( self . stack @ ) ) , Ghost ( * root ) ) ;`
//@ sub `self . insert ( key , value )` => `self . insert ( key , value , root )`
//@ sub `( * self . leaf )` => `self . leaf . look ( root )`
//@ spec
    requires
        self.stack@.len() == 0, old(root).ok(), wf(old(root).st(), false), old(root).length > 0,
        spine(old(root).st(), Some(rank(key))), lastr(old(root).st()) <= rank(key),
        all_lt(ents(old(root).st()), rank(key)),
    ensures
        final(root).ok(), wf(final(root).st(), true),
        match r {
            Ok(p) => ents(final(root).st()) == put(ents(old(root).st()), key, value) && p.set(*final(root), key, value),
            Err(e) => e == (key, value) && ents(final(root).st()) == ents(old(root).st()) && final(root).length == bsize::<K, V, C>() && final(root).length == old(root).length,
        },
//@ start
    hide(wf); hide(put); hide(dep); hide(maxdep);
    let ghost t = root.st();
    let ghost x = rank(key);
    proof {
        wf_sorted(t, false);
        put_last(ents(t), key, value);
        chain_none(self.stack@);
    }
//@ loop 0
    invariant_except_break
        root.ok(), nkids(root.st()) == nkids(t), wf(root.st(), false), ents(root.st()) == ents(t), x == rank(key), all_lt(ents(t), x), !holds(ents(t), x),
        held(self_.stack@, *root, seq![]),
        kpath(root.st(), idx(self_.stack@), x), raised(root.st(), idx(self_.stack@), x),
        branch.valid(*root), branch.path() == idx(self_.stack@),
        at(root.st(), idx(self_.stack@)) is N, nkids(at(root.st(), idx(self_.stack@))) > 0,
        spine(at(root.st(), idx(self_.stack@)), Some(x)), lastr(at(root.st(), idx(self_.stack@))) <= x,
    ensures
        root.ok(), nkids(root.st()) == nkids(t), wf(root.st(), false), ents(root.st()) == ents(t),
        self_.stack@.len() > 0,
        held(self_.stack@, *root, seq![]),
        kpath(root.st(), idx(self_.stack@), x), raised(root.st(), idx(self_.stack@), x),
        at(root.st(), idx(self_.stack@)) is L, !at(root.st(), branch.path())->br,
        vpath(root.st(), branch.path()), at(root.st(), branch.path()) is N, nkids(at(root.st(), branch.path())) == idx(self_.stack@).last() + 1,
        branch.valid(*root), branch.path() == idx(self_.stack@).drop_last(), index == idx(self_.stack@).last(),
    decreases dep(at(root.st(), idx(self_.stack@)))
//@ body 0
    let ghost u = root.st();
    let ghost r0 = *root;
    let ghost s0 = self_.stack@;
    let ghost q = idx(s0);
    let ghost b = at(u, q);
    let ghost n = nkids(b);
    let ghost d = with_sep(b, n - 1, key);
    proof { raise_at(u, q, key); upd_width(u, q, d); assert(q.take(q.len() as int) =~= q); assert(under(q, q)); assert(seq![] + q =~= q); }
//@ before `branch . look ( root ) . has_branches ( )`
    proof {
        at_upd(u, q, d);
        assert(root.st() == upd(u, q, d));
        held_keep(s0, r0, *root, seq![], q);
        held_push(s0, *root, seq![], (branch, index as isize));
    }
    let ghost r1 = *root;
//@ before `branch = BPtr :: of_in` #1
    proof {
        let w = upd(u, q, d);
        with_kid_id(d, n - 1);
        upd_id(w, q);
        assert(root.st() == upd(w, q, d));
        assert(root.st() == w);
        held_keep(s0, r1, *root, seq![], q);
        held_push(s0, *root, seq![], (branch, index as isize));
    }
//@ before `self_ . insert ( key , value , root )`
    proof {
        let u = root.st();
        let p = self_.path();
        path_k_v(u, p, x);
        leaf_facts(ents(at(u, p)));
        raised_spine(u, p, x);
        tight_spine(u);
        path_find(u, p, x);
        leaf_end(u, p, x);
    }

//@ fn PathedPointer::value_mut in search.rs
//@ props C02 C07 C15
//@ gparams root
//@ params &mut self, root: &'a mut Branch<K, V, C>
//@ generics 'a
//@ ret_ty Option<&'a mut V>
//@ sub `self . deref_mut_leaf ( )` => `self . deref_mut_leaf ( root )`
//@ spec
    requires
        old(root).ok(), !old(self).leaf.nul(), old(self).leaf.valid(*old(root)), vpath(old(root).st(), old(self).leaf.path()), at(old(root).st(), old(self).leaf.path()) is L,
        old(self).index < ents(at(old(root).st(), old(self).leaf.path())).len(),
    ensures
        *final(self) == *old(self),
        r is Some,
        ({
            let p = old(self).leaf.path();
            let es = ents(at(old(root).st(), p));
            let i = old(self).index as int;
            &&& *r->0 == es[i].1
            &&& final(root).ok() && final(root).st() == upd(old(root).st(), p, ST::L(es.update(i, (es[i].0, *final(r->0)))))
        }),
        forall|o: BPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root)),
        forall|o: LPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root)),
//@ start
    broadcast use zip_vals;

//@ fn PathedPointer::into_entry_mut in search.rs
//@ props C07 C15
//@ gparams root: &'a mut Branch<K, V, C>
//@ sub `let leaf = & mut * ( self . leaf as * mut Leaf < K , V , C > ) ;` => `let leaf = self . leaf . as_mut ( root ) ;`
//@ sub `leaf . keys_mut ( )` => `leaf . keys . deref_mut ( leaf . length )`
//@ sub `leaf . values_mut ( )` => `leaf . values . deref_mut ( leaf . length )`
//@ sub `* mut K` => `& mut K`
//@ sub `* mut V` => `& mut V`
//@ spec
    requires
        old(root).ok(), !self.leaf.nul(), self.leaf.valid(*old(root)), vpath(old(root).st(), self.leaf.path()), at(old(root).st(), self.leaf.path()) is L,
        self.index < ents(at(old(root).st(), self.leaf.path())).len(),
    ensures
        ({
            let p = self.leaf.path();
            let es = ents(at(old(root).st(), p));
            let i = self.index as int;
            &&& (*r.0, *r.1) == es[i]
            &&& final(root).ok() && final(root).st() == upd(old(root).st(), p, ST::L(es.update(i, (*final(r.0), *final(r.1)))))
        }),
//@ start
    broadcast use {zip_vals, zip_both, refill_vals};

//@ fn PathedPointer::deref_leaf in search.rs as deref_leaf_at
//@ params &self, root: &'a Branch<K, V, C>
//@ generics 'a
//@ ret_ty Option<&'a Leaf<K, V, C>>
//@ sub `self . leaf . as_ref ( )` => `self . leaf . look_opt ( root )`
//@ spec
    requires self.leaf.nul() || (root.ok() && self.leaf.valid(*root) && vpath(root.st(), self.leaf.path()) && at(root.st(), self.leaf.path()) is L)
    ensures
        r is None == self.leaf.nul(),
        r is Some ==> r->0.ok() && ST::L(r->0.ents()) == at(root.st(), self.leaf.path()),

//@ fn PathedPointer::key in search.rs as key_at
//@ props C07
//@ params &self, root: &'a Branch<K, V, C>
//@ generics 'a
//@ ret_ty Option<&'a K>
//@ sub `self . deref_leaf ( )` => `self . deref_leaf_at ( root )`
//@ spec
    requires self.leaf.nul() || (root.ok() && self.leaf.valid(*root) && vpath(root.st(), self.leaf.path()) && at(root.st(), self.leaf.path()) is L && self.index < ents(at(root.st(), self.leaf.path())).len())
    ensures r is None == self.leaf.nul(), r is Some ==> *r->0 == ents(at(root.st(), self.leaf.path()))[self.index as int].0

//@ fn PathedPointer::value in search.rs as value_at
//@ props C07
//@ params &self, root: &'a Branch<K, V, C>
//@ generics 'a
//@ ret_ty Option<&'a V>
//@ sub `self . deref_leaf ( )` => `self . deref_leaf_at ( root )`
//@ spec
    requires self.leaf.nul() || (root.ok() && self.leaf.valid(*root) && vpath(root.st(), self.leaf.path()) && at(root.st(), self.leaf.path()) is L && self.index < ents(at(root.st(), self.leaf.path())).len())
    ensures r is None == self.leaf.nul(), r is Some ==> *r->0 == ents(at(root.st(), self.leaf.path()))[self.index as int].1
