// Finding and stepping.

//@ fn walk_path in search.rs
//@ attr #[verifier::loop_isolation(false)]
//@ props C01 C02 C03 C06 C15
//@ gparams Ghost(base): Ghost<Seq<int>>, Ghost(whole): Ghost<Branch<K, V, C>>
//@ sub `path . push ( ( $b , $i ) ) ;` => `path . push ( ( BPtr :: of_in ( $b , Ghost ( base + idx ( path @ . skip ( n0 as int ) ) ) , Ghost ( whole ) ) , $i ) ) ;`
//@ spec
    requires branch.ok(), wf(branch.st(), false), whole.ok(), vpath(whole.st(), base), at(whole.st(), base) == branch.st(), old(path)@.len() <= base.len()
    ensures
        final(path)@.len() >= old(path)@.len(),
        final(path)@.take(old(path)@.len() as int) == old(path)@,
        match r {
            None => all_lt(ents(branch.st()), rank(*key)) && !holds(ents(branch.st()), rank(*key)) && lb(ents(branch.st()), rank(*key)) == ents(branch.st()).len()
                && (wf(branch.st(), true) && branch.length > 0 ==> rank(*key) > rank(branch.ks().last())),
            Some(leaf) => {
                let s = final(path)@.skip(old(path)@.len() as int);
                &&& leaf.ok()
                &&& s.len() > 0
                &&& chain(s, branch.st(), base)
                &&& held(s, whole, base)
                &&& kpath(branch.st(), idx(s), rank(*key))
                &&& at(branch.st(), idx(s)) == ST::L(leaf.ents())
            }
        }
//@ start
    hide(wf);
    let ghost t = branch.st();
    let ghost n0 = path@.len();
    let ghost x = rank(*key);
    proof {
        assert(path@.skip(n0 as int) =~= seq![]); chain_none(path@.skip(n0 as int)); assert(path@.take(n0 as int) =~= path@);
    }
//@ loop 0
    invariant
        branch.ok(), wf(t, false), x == rank(*key), path@.len() >= n0, n0 == old(path)@.len(), n0 <= base.len(), path@.take(n0 as int) == old(path)@,
        whole.ok(), vpath(whole.st(), base), at(whole.st(), base) == t, held(path@.skip(n0 as int), whole, base),
        chain(path@.skip(n0 as int), t, base), kpath(t, idx(path@.skip(n0 as int)), x),
        at(t, idx(path@.skip(n0 as int))) == branch.st(),
    decreases branch.st()
//@ body 0
    let ghost p = idx(path@.skip(n0 as int));
    proof {
        path_find(t, p, x);
        child_pre(branch.st(), x);
        if fi(branch.st(), x) < branch.length { walk_step(t, p, x); } else { walk_end(t, p, x); }
    }
//@ before `path . push`
    let ghost s0 = path@;
//@ after `path . push ( $a ) ;`
    proof {
        skip_push(s0, n0 as int, path@.last());
        assert(path@ =~= s0.push(path@.last()));
        chain_push(s0.skip(n0 as int), t, base, path@.last());
        at_add(whole.st(), base, p);
        held_push(s0.skip(n0 as int), whole, base, path@.last());
    }

//@ fn path_for in search.rs
//@ props C01 C06 C15
//@ sub `walk_path ( tree , key , & mut $p )` => `walk_path ( tree , key , & mut $p , Ghost ( Seq :: < int > :: empty ( ) ) , Ghost ( * tree ) )`
//@ spec
    requires tree.ok(), wf(tree.st(), false)
    ensures
        match r {
            None => all_lt(ents(tree.st()), rank(*key)) && !holds(ents(tree.st()), rank(*key)) && lb(ents(tree.st()), rank(*key)) == ents(tree.st()).len()
                && (wf(tree.st(), true) && tree.length > 0 ==> rank(*key) > rank(tree.ks().last())),
            Some((s, leaf)) => {
                &&& leaf.ok()
                &&& s@.len() > 0
                &&& chain(s@, tree.st(), seq![])
                &&& held(s@, *tree, seq![])
                &&& kpath(tree.st(), idx(s@), rank(*key))
                &&& at(tree.st(), idx(s@)) == ST::L(leaf.ents())
            }
        }
//@ before `let mut path`
    proof { assert forall|s: Seq<(BPtr<K, V, C>, isize)>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); } }

//@ fn PathedPointer::null in search.rs
//@ props C06
//@ spec
    ensures r.leaf.nul(), r.stack@.len() == 0

//@ fn PathedPointer::clear in search.rs
//@ props C05 C06
//@ spec
    ensures final(self).leaf.nul()

//@ fn PathedPointer::is_null in search.rs
//@ props C05 C06
//@ spec
    ensures r == self.leaf.nul()

//@ fn PathedPointer::deref_leaf_unchecked in search.rs
//@ sub `( * branch )` => `branch . seen ( )` opt
//@ sub `& * branch` => `branch . seen ( )` opt
//@ sub `( * self . leaf )` => `self . leaf . seen ( )` opt
//@ sub `& * self . leaf` => `self . leaf . seen ( )` opt
//@ sub `self . leaf . as_ref ( )` => `self . leaf . seen_opt ( )` opt
//@ spec
    requires !self.leaf.nul(), unwritten(self.leaf.path())
    ensures *r == self.leaf.snap()

//@ fn PathedPointer::deref_leaf in search.rs
//@ sub `( * branch )` => `branch . seen ( )` opt
//@ sub `& * branch` => `branch . seen ( )` opt
//@ sub `( * self . leaf )` => `self . leaf . seen ( )` opt
//@ sub `& * self . leaf` => `self . leaf . seen ( )` opt
//@ sub `self . leaf . as_ref ( )` => `self . leaf . seen_opt ( )` opt
//@ spec
    requires unwritten(self.leaf.path())
    ensures r is None == self.leaf.nul(), r is Some ==> *r->0 == self.leaf.snap()

//@ fn PathedPointer::key in search.rs
//@ props C05 C06
//@ spec
    requires self.leaf.nul() || (self.leaf.snap().ok() && self.index < self.leaf.snap().length), unwritten(self.leaf.path())
    ensures r is None == self.leaf.nul(), r is Some ==> *r->0 == self.leaf.snap().ks()[self.index as int]

//@ fn PathedPointer::key_unchecked in search.rs
//@ props C06
//@ spec
    requires !self.leaf.nul(), self.leaf.snap().ok(), self.index < self.leaf.snap().length, unwritten(self.leaf.path())
    ensures *r == self.leaf.snap().ks()[self.index as int]

//@ fn PathedPointer::value in search.rs
//@ props C05 C06
//@ spec
    requires self.leaf.nul() || (self.leaf.snap().ok() && self.index < self.leaf.snap().length), unwritten(self.leaf.path())
    ensures r is None == self.leaf.nul(), r is Some ==> *r->0 == self.leaf.snap().vs()[self.index as int]

//@ fn PathedPointer::exact_key in search.rs
//@ props C02 C03 C15
//@ sub `stack , leaf , index , lifetime` => `leaf : LPtr :: of_in ( leaf , Ghost ( idx ( stack @ ) ) , Ghost ( * tree ) ) , stack , index , lifetime`
//@ spec
    requires tree.ok(), wf(tree.st(), false)
    ensures
        match r {
            Ok(p) => p.good(*tree) && p.here(tree.st()) && p.pos(tree.st()) == lb(ents(tree.st()), rank(*key)) && holds(ents(tree.st()), rank(*key)),
            Err(p) => !holds(ents(tree.st()), rank(*key)) && if p.leaf.nul() {
                p.stack@.len() == 0 && all_lt(ents(tree.st()), rank(*key))
                    && (wf(tree.st(), true) && tree.length > 0 ==> rank(*key) > rank(tree.ks().last()))
            } else {
                &&& p.good(*tree) && p.on(tree.st())
                &&& kpath(tree.st(), p.path(), rank(*key))
                &&& p.index == lb(p.leaf.snap().ents(), rank(*key))
                &&& p.index <= p.leaf.snap().length
            }
        }
//@ start
    hide(wf);
//@ before `match leaf . keys ( ) . bsearch`
    proof {
        leaf_pos(tree.st(), idx(stack@), rank(*key));
        chain_root(stack@, tree.st(), seq![]);
        lb_props(leaf.ents(), rank(*key));
        assert(ekeys(leaf.ents()) =~= leaf.ks());
    }

//@ fn PathedPointer::key_or_higher in search.rs
//@ props C06
//@ sub `Some ( ( $p:id , $l:id ) ) = path_for ( $a , $b ) {` => `Some ( ( $p , $l ) ) = path_for ( $a , $b ) { let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `Some ( ( $p:id , $l:id ) ) => {` => `Some ( ( $p , $l ) ) => { let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `let Some ( ( $p:id , $l:id ) ) = path_for ( $a , $b ) else $c ;` => `let Some ( ( $p , $l ) ) = path_for ( $a , $b ) else $c ; let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `ptr . leaf = $l ;` => `ptr . leaf = LPtr :: of_in ( $l , Ghost ( idx ( bs ) ) , Ghost ( * tree ) ) ;`
//@ sub `. step_forward ( )` => `. step_forward ( Ghost ( * tree ) )` opt
//@ sub `. step_back ( )` => `. step_back ( Ghost ( * tree ) )` opt
//@ spec
    requires tree.ok(), wf(tree.st(), false)
    ensures
        r.leaf.nul() == (lb(ents(tree.st()), rank(*key)) >= ents(tree.st()).len()),
        !r.leaf.nul() ==> r.good(*tree) && r.here(tree.st()) && r.pos(tree.st()) == lb(ents(tree.st()), rank(*key)),
//@ start
    hide(wf);
//@ after `let ghost bl = $e ;`
    proof {
        leaf_pos(tree.st(), idx(bs), rank(*key));
        chain_root(bs, tree.st(), seq![]);
        lb_props(bl.ents(), rank(*key));
        assert(ekeys(bl.ents()) =~= bl.ks());
    }

//@ fn PathedPointer::higher_than_key in search.rs
//@ props C06
//@ sub `Some ( ( $p:id , $l:id ) ) = path_for ( $a , $b ) {` => `Some ( ( $p , $l ) ) = path_for ( $a , $b ) { let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `Some ( ( $p:id , $l:id ) ) => {` => `Some ( ( $p , $l ) ) => { let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `let Some ( ( $p:id , $l:id ) ) = path_for ( $a , $b ) else $c ;` => `let Some ( ( $p , $l ) ) = path_for ( $a , $b ) else $c ; let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `ptr . leaf = $l ;` => `ptr . leaf = LPtr :: of_in ( $l , Ghost ( idx ( bs ) ) , Ghost ( * tree ) ) ;`
//@ sub `. step_forward ( )` => `. step_forward ( Ghost ( * tree ) )` opt
//@ sub `. step_back ( )` => `. step_back ( Ghost ( * tree ) )` opt
//@ spec
    requires tree.ok(), wf(tree.st(), false)
    ensures
        r.leaf.nul() == (ub(ents(tree.st()), rank(*key)) >= ents(tree.st()).len()),
        !r.leaf.nul() ==> r.good(*tree) && r.here(tree.st()) && r.pos(tree.st()) == ub(ents(tree.st()), rank(*key)),
//@ start
    hide(wf);
//@ after `let ghost bl = $e ;`
    proof {
        leaf_pos(tree.st(), idx(bs), rank(*key));
        chain_root(bs, tree.st(), seq![]);
        lb_props(bl.ents(), rank(*key));
        assert(ekeys(bl.ents()) =~= bl.ks());
    }

//@ fn PathedPointer::key_or_lower in search.rs
//@ props C06
//@ sub `Some ( ( $p:id , $l:id ) ) = path_for ( $a , $b ) {` => `Some ( ( $p , $l ) ) = path_for ( $a , $b ) { let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `Some ( ( $p:id , $l:id ) ) => {` => `Some ( ( $p , $l ) ) => { let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `let Some ( ( $p:id , $l:id ) ) = path_for ( $a , $b ) else $c ;` => `let Some ( ( $p , $l ) ) = path_for ( $a , $b ) else $c ; let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `ptr . leaf = $l ;` => `ptr . leaf = LPtr :: of_in ( $l , Ghost ( idx ( bs ) ) , Ghost ( * tree ) ) ;`
//@ sub `. step_forward ( )` => `. step_forward ( Ghost ( * tree ) )` opt
//@ sub `. step_back ( )` => `. step_back ( Ghost ( * tree ) )` opt
//@ spec
    requires tree.ok(), wf(tree.st(), false)
    ensures
        r.leaf.nul() == (ub(ents(tree.st()), rank(*key)) == 0),
        !r.leaf.nul() ==> r.good(*tree) && r.here(tree.st()) && r.pos(tree.st()) == ub(ents(tree.st()), rank(*key)) - 1,
//@ start
    hide(wf);
//@ after `let ghost bl = $e ;`
    proof {
        leaf_pos(tree.st(), idx(bs), rank(*key));
        chain_root(bs, tree.st(), seq![]);
        lb_props(bl.ents(), rank(*key));
        assert(ekeys(bl.ents()) =~= bl.ks());
    }
//@ after `ptr . index = $e ;`
    proof {
        let es = bl.ents();
        assert forall|j: int| ptr.index < j < es.len() implies rank((#[trigger] es[j]).0) > rank(*key) by { assert(rank(bl.ks()[j]) > rank(*key)); }
        prev_pos(es, rank(*key), ptr.index as int);
    }

//@ fn PathedPointer::lower_than_key in search.rs
//@ props C06
//@ sub `Some ( ( $p:id , $l:id ) ) = path_for ( $a , $b ) {` => `Some ( ( $p , $l ) ) = path_for ( $a , $b ) { let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `Some ( ( $p:id , $l:id ) ) => {` => `Some ( ( $p , $l ) ) => { let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `let Some ( ( $p:id , $l:id ) ) = path_for ( $a , $b ) else $c ;` => `let Some ( ( $p , $l ) ) = path_for ( $a , $b ) else $c ; let ghost bs = $p @ ; let ghost bl = * $l ;` opt
//@ sub `ptr . leaf = $l ;` => `ptr . leaf = LPtr :: of_in ( $l , Ghost ( idx ( bs ) ) , Ghost ( * tree ) ) ;`
//@ sub `. step_forward ( )` => `. step_forward ( Ghost ( * tree ) )` opt
//@ sub `. step_back ( )` => `. step_back ( Ghost ( * tree ) )` opt
//@ spec
    requires tree.ok(), wf(tree.st(), false)
    ensures
        r.leaf.nul() == (lb(ents(tree.st()), rank(*key)) == 0),
        !r.leaf.nul() ==> r.good(*tree) && r.here(tree.st()) && r.pos(tree.st()) == lb(ents(tree.st()), rank(*key)) - 1,
//@ start
    hide(wf);
//@ after `let ghost bl = $e ;`
    proof {
        leaf_pos(tree.st(), idx(bs), rank(*key));
        chain_root(bs, tree.st(), seq![]);
        lb_props(bl.ents(), rank(*key));
        assert(ekeys(bl.ents()) =~= bl.ks());
    }
//@ after `ptr . index = $e ;`
    proof {
        let es = bl.ents();
        assert forall|j: int| ptr.index < j < es.len() implies rank((#[trigger] es[j]).0) > rank(*key) by { assert(rank(bl.ks()[j]) > rank(*key)); }
        prev_pos(es, rank(*key), ptr.index as int);
    }

//@ fn PathedPointer::lowest in search.rs
//@ props C05 C06
//@ sub `stack . push ( ( branch , $i ) ) ;` => `stack . push ( ( BPtr :: of_in ( branch , Ghost ( idx ( stack @ ) ) , Ghost ( * tree ) ) , $i ) ) ;`
//@ sub `stack , leaf : unsafe { $e } , index : $i ,` => `leaf : LPtr :: of_in ( unsafe { $e } , Ghost ( idx ( stack @ ) ) , Ghost ( * tree ) ) , stack , index : $i ,`
//@ sub `leaf : unsafe { $e } , stack ,` => `leaf : LPtr :: of_in ( unsafe { $e } , Ghost ( idx ( stack @ ) ) , Ghost ( * tree ) ) , stack ,` opt
//@ sub `{ leaf , stack ,` => `{ leaf : LPtr :: of_in ( leaf , Ghost ( idx ( stack @ ) ) , Ghost ( * tree ) ) , stack ,` opt
//@ spec
    requires tree.ok(), wf(tree.st(), false)
    ensures
        r.leaf.nul() == (ents(tree.st()).len() == 0),
        !r.leaf.nul() ==> r.good(*tree) && r.here(tree.st()) && r.pos(tree.st()) == 0,
//@ start
    hide(wf);
    let ghost t = tree.st();
//@ before `loop`
    proof { chain_none(stack@); hollow(t); }
//@ loop 0
    invariant
        branch.ok(), wf(t, false), t == tree.st(), (ents(t).len() == 0) == (nkids(t) == 0),
        chain(stack@, t, seq![]), held(stack@, *tree, seq![]), tree.ok(), vpath(t, idx(stack@)), at(t, idx(stack@)) == branch.st(), off(t, idx(stack@)) == 0,
    decreases branch.st()
//@ body 0
    let ghost s0 = stack@;
    proof {
        path_wf(t, idx(s0), false);
        hollow(branch.st());
        path_push(t, idx(s0), 0);
        off_push(t, idx(s0), 0);
        if branch.length > 0 { before_next(branch.st(), 0); }
        assert(seq![] + idx(s0) =~= idx(s0));
    }
//@ after `stack . push ( $a ) ;`
    proof {
        chain_push(s0, t, seq![], stack@.last());
        held_push(s0, *tree, seq![], stack@.last());
        chain_root(stack@, t, seq![]);
        path_wf(t, idx(stack@), false);
        off_ents(t, idx(stack@));
        assert(decreases_to!(branch.st() => branch.st()->kids));
        assert(decreases_to!(branch.st()->kids => branch.st()->kids[0]));
    }

//@ fn PathedPointer::highest in search.rs
//@ props C05 C06
//@ sub `stack . push ( ( branch , $i ) ) ;` => `stack . push ( ( BPtr :: of_in ( branch , Ghost ( idx ( stack @ ) ) , Ghost ( * tree ) ) , $i ) ) ;`
//@ sub `stack , leaf , index : $e , lifetime` => `index : $e , leaf : LPtr :: of_in ( leaf , Ghost ( idx ( stack @ ) ) , Ghost ( * tree ) ) , stack , lifetime`
//@ sub `leaf : unsafe { $e } , stack ,` => `leaf : LPtr :: of_in ( unsafe { $e } , Ghost ( idx ( stack @ ) ) , Ghost ( * tree ) ) , stack ,` opt
//@ sub `{ leaf , stack ,` => `{ leaf : LPtr :: of_in ( leaf , Ghost ( idx ( stack @ ) ) , Ghost ( * tree ) ) , stack ,` opt
//@ spec
    requires tree.ok(), wf(tree.st(), false)
    ensures
        r.leaf.nul() == (ents(tree.st()).len() == 0),
        !r.leaf.nul() ==> r.good(*tree) && r.here(tree.st()) && r.pos(tree.st()) == ents(tree.st()).len() - 1,
//@ start
    hide(wf);
    let ghost t = tree.st();
//@ before `loop`
    proof { chain_none(stack@); hollow(t); }
//@ loop 0
    invariant
        branch.ok(), wf(t, false), t == tree.st(), (ents(t).len() == 0) == (nkids(t) == 0),
        chain(stack@, t, seq![]), held(stack@, *tree, seq![]), tree.ok(), vpath(t, idx(stack@)), at(t, idx(stack@)) == branch.st(), end(t, idx(stack@)) == ents(t).len(),
    decreases branch.st()
//@ body 0
    let ghost s0 = stack@;
    proof {
        path_wf(t, idx(s0), false);
        hollow(branch.st());
        let n = branch.length - 1;
        path_push(t, idx(s0), n);
        off_push(t, idx(s0), n);
        off_ents(t, idx(s0));
        if branch.length > 0 { end_up(t, idx(s0).push(n)); }
        assert(seq![] + idx(s0) =~= idx(s0));
    }
//@ after `stack . push ( $a ) ;`
    proof {
        chain_push(s0, t, seq![], stack@.last());
        held_push(s0, *tree, seq![], stack@.last());
        chain_root(stack@, t, seq![]);
        path_wf(t, idx(stack@), false);
        off_ents(t, idx(stack@));
        assert(decreases_to!(branch.st() => branch.st()->kids));
        assert(decreases_to!(branch.st()->kids => branch.st()->kids[branch.length - 1]));
    }

//@ fn PathedPointer::step_forward in search.rs
//@ props C05 C06 C07
//@ gparams Ghost(whole): Ghost<Branch<K, V, C>>
//@ sub `self . stack . push ( ( ( * branch ) . $f:id ( $e ) , $n ) ) ;` => `self . stack . push ( ( BPtr :: of_in ( ( * branch ) . $f ( $e ) , Ghost ( idx ( self . stack @ ) ) , Ghost ( whole ) ) , $n ) ) ;`
//@ sub `self . leaf = $l ;` => `self . leaf = LPtr :: of_in ( $l , Ghost ( idx ( self . stack @ ) ) , Ghost ( whole ) ) ;`
//@ sub `( * branch )` => `branch . seen ( )` opt
//@ sub `& * branch` => `branch . seen ( )` opt
//@ sub `( * self . leaf )` => `self . leaf . seen ( )` opt
//@ sub `& * self . leaf` => `self . leaf . seen ( )` opt
//@ sub `self . leaf . as_ref ( )` => `self . leaf . seen_opt ( )` opt
//@ spec
    requires old(self).leaf.nul() || (old(self).here(old(self).tree()) && wf(old(self).tree(), false))
    ensures
        old(self).leaf.nul() ==> r && *final(self) == *old(self),
        !old(self).leaf.nul() ==> {
            let t = old(self).tree();
            let n = old(self).pos(t) + 1;
            &&& r == (n < ents(t).len())
            &&& r ==> final(self).here(t) && final(self).pos(t) == n
            &&& !r ==> final(self).leaf.nul()
            &&& r && old(self).good(whole) && whole.ok() && whole.st() == t ==> final(self).good(whole)
        },
//@ start
    hide(wf); hide(chain); hide(off); hide(fuel); hide(at); hide(vpath); hide(ents);
    let ghost t = self.tree();
    let ghost g = self.good(whole) && whole.ok() && whole.st() == t;
    let ghost n = self.pos(t) + 1;
    proof {
        if !self.leaf.nul() {
            let es = self.leaf.snap().ents();
            off_ents(t, self.path());
            at_leaf(t, self.path(), es);
            if self.index + 1 < es.len() { assert(n < ents(t).len()); }
        }
    }
//@ before `loop`
    proof { fwd_start(self.stack@, t); }
//@ loop 0
    invariant_except_break fwd_inv(self.stack@, t, n)
    invariant wf(t, false), g == (old(self).good(whole) && whole.ok() && whole.st() == t), g ==> held(self.stack@, whole, seq![]), g ==> whole.ok() && whole.st() == t, !old(self).leaf.nul(), !self.leaf.nul(), t == old(self).tree(), n == old(self).pos(t) + 1,
    ensures self.here(t), g ==> self.good(whole), self.pos(t) == n, n < ents(t).len()
    decreases ahead(self.stack@, t)
//@ body 0
    let ghost s0 = self.stack@;
    proof { if s0.len() > 0 { fwd(s0, t, n); held_pop(s0, whole); } }
//@ after `self . stack . push ( ( branch , index ) ) ;`
    let ghost s1 = self.stack@;
    proof { assert(leads(s1, t)); leaf_at(t, idx(s1)); held_top(s1, whole); }

//@ fn PathedPointer::step_back in search.rs
//@ props C05 C06 C07
//@ gparams Ghost(whole): Ghost<Branch<K, V, C>>
//@ sub `self . stack . push ( ( child , $n ) ) ;` => `self . stack . push ( ( BPtr :: of_in ( child , Ghost ( idx ( self . stack @ ) ) , Ghost ( whole ) ) , $n ) ) ;`
//@ sub `self . leaf = $l ;` => `self . leaf = LPtr :: of_in ( $l , Ghost ( idx ( self . stack @ ) ) , Ghost ( whole ) ) ;`
//@ sub `( * branch )` => `branch . seen ( )` opt
//@ sub `& * branch` => `branch . seen ( )` opt
//@ sub `( * self . leaf )` => `self . leaf . seen ( )` opt
//@ sub `& * self . leaf` => `self . leaf . seen ( )` opt
//@ sub `self . leaf . as_ref ( )` => `self . leaf . seen_opt ( )` opt
//@ spec
    requires old(self).leaf.nul() || (old(self).here(old(self).tree()) && wf(old(self).tree(), false))
    ensures
        old(self).leaf.nul() ==> r && *final(self) == *old(self),
        !old(self).leaf.nul() ==> {
            let t = old(self).tree();
            let n = old(self).pos(t);
            &&& r == (n > 0)
            &&& r ==> final(self).here(t) && final(self).pos(t) == n - 1
            &&& !r ==> final(self).leaf.nul()
            &&& r && old(self).good(whole) && whole.ok() && whole.st() == t ==> final(self).good(whole)
        },
//@ start
    hide(wf); hide(chain); hide(off); hide(fuel_b); hide(at); hide(vpath); hide(ents);
    let ghost t = self.tree();
    let ghost g = self.good(whole) && whole.ok() && whole.st() == t;
    let ghost n = self.pos(t);
    proof { if !self.leaf.nul() { off_ents(t, self.path()); at_leaf(t, self.path(), self.leaf.snap().ents()); } }
//@ before `loop`
    proof { fwd_start(self.stack@, t); }
//@ loop 0
    invariant_except_break back_inv(self.stack@, t, n)
    invariant wf(t, false), g == (old(self).good(whole) && whole.ok() && whole.st() == t), g ==> held(self.stack@, whole, seq![]), g ==> whole.ok() && whole.st() == t, !old(self).leaf.nul(), !self.leaf.nul(), t == old(self).tree(), n == old(self).pos(t),
    ensures self.here(t), g ==> self.good(whole), self.pos(t) == n - 1, n > 0
    decreases behind(self.stack@, t)
//@ body 0
    let ghost s0 = self.stack@;
    proof { if s0.len() > 0 { back(s0, t, n); held_pop(s0, whole); } }
//@ after `self . stack . push ( ( branch , index ) ) ;`
    let ghost s1 = self.stack@;
    proof { assert(leads(s1, t)); leaf_at(t, idx(s1)); held_top(s1, whole); }

//@ fn PathedPointer as Clone::clone in search.rs
//@ as_impl inherent
//@ props C05
//@ spec
    ensures r.stack@ == self.stack@, r.leaf == self.leaf, r.index == self.index
