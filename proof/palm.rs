// The tree as its users see it.

//= struct lib.rs PalmTree

impl<K, V, C: TreeConfig<K, V>> PalmTree<K, V, C> {
    // What every operation finds and leaves: nodes in order, and the length right.
    pub open spec fn inv(&self) -> bool {
        match self.root {
            None => self.size == 0,
            Some(p) => p@.ok() && wf(p@.st(), false) && spine(p@.st(), None) && self.size == ents(p@.st()).len(),
        }
    }

    // The same while a key of rank x is on its way in.
    pub open spec fn inv_for(&self, x: real) -> bool {
        match self.root {
            None => self.size == 0,
            Some(p) => p@.ok() && wf(p@.st(), false) && spine(p@.st(), Some(x)) && self.size == ents(p@.st()).len(),
        }
    }

    pub proof fn inv_weak(&self, x: real)
        requires self.inv()
        ensures self.inv_for(x)
    {
        if self.root is Some { spine_weak(self.root->0@.st(), x); }
    }

    // The entries held, in key order.
    pub open spec fn all(&self) -> Seq<(K, V)> {
        match self.root {
            None => seq![],
            Some(p) => ents(p@.st()),
        }
    }

    pub proof fn inv_sorted(&self)
        requires self.inv()
        ensures sorted(self.all()), self.size == self.all().len()
    {
        match self.root {
            None => { assert(self.all() =~= seq![]); }
            Some(p) => { wf_sorted(p@.st(), false); }
        }
    }
}

// A tree of one entry.
pub proof fn unit_wf<K, V>(k: K, v: V)
    ensures
        wf(one_kid(false, k, ST::L(seq![(k, v)])), false),
        ents(one_kid(false, k, ST::L(seq![(k, v)]))) == seq![(k, v)],
        put(seq![], k, v) == seq![(k, v)],
        !holds::<K, V>(seq![], rank(k)),
        get_of::<K, V>(seq![], rank(k)) is None,
{
    let es = seq![(k, v)];
    let t = one_kid(false, k, ST::L(es));
    sorted_intro(es);
    assert(ents(t->kids[0]) == es);
    leaf_facts(es);
    assert(wf(ST::L(es), false));
    assert(kid_ok(false, t->seps, t->kids, 0, false));
    ents_n(t);
    assert(kes(t->kids) =~= seq![es]);
    cat_one(es);
    let nn = Seq::<(K, V)>::empty();
    lb_is(nn, rank(k), 0);
    assert(put(nn, k, v) =~= es);
    assert(nn =~= seq![]);
}

// A node above one tree that was full.
pub proof fn grow_wf<K, V>(t: ST<K, V>, k: K)
    requires wf(t, false), t is N, nkids(t) > 0, rank(k) == rank(t->seps.last())
    ensures
        wf(one_kid(true, k, t), false),
        ents(one_kid(true, k, t)) == ents(t),
        forall|x: Option<real>| #[trigger] spine(t, x) ==> spine(one_kid(true, k, t), x),
{
    let u = one_kid(true, k, t);
    assert(kid_ok(t->br, t->seps, t->kids, 0, false));
    ents_at(t, 0);
    top_bound(t);
    assert(u->kids[0] == t);
    assert(kid_ok(true, u->seps, u->kids, 0, false));
    ents_n(u);
    assert(kes(u->kids) =~= seq![ents(t)]);
    cat_one(ents(t));
}

// No key exceeds the last separator.
pub proof fn top_bound<K, V>(t: ST<K, V>)
    requires wf(t, false), t is N, nkids(t) > 0
    ensures all_le(ents(t), rank(t->seps.last()))
{
    ents_n(t);
    assert forall|j: int| 0 <= j < ents(t).len() implies rank((#[trigger] ents(t)[j]).0) <= rank(t->seps.last()) by {
        let w = cat_in(kes(t->kids), j);
        assert(kid_ok(t->br, t->seps, t->kids, w.0, false));
        assert(ents(t->kids[w.0])[w.1] == ents(t)[j]);
        if w.0 < nkids(t) - 1 { assert(rank(t->seps[w.0]) < rank(t->seps[nkids(t) - 1])); }
    }
}

// The only child of a node in the node's place.
pub proof fn only_kid<K, V>(t: ST<K, V>)
    requires wf(t, false), t is N, nkids(t) == 1
    ensures wf(t->kids[0], false), ents(t->kids[0]) == ents(t), t->br ==> t->kids[0] is N, t->br && spine(t, None) ==> spine(t->kids[0], None)
{
    assert(kid_ok(t->br, t->seps, t->kids, 0, false));
    ents_n(t);
    assert(kes(t->kids) =~= seq![ents(t->kids[0])]);
    cat_one(ents(t->kids[0]));
}

pub proof fn unit_none<K, V>(x: real)
    ensures !holds::<K, V>(seq![], x), get_of::<K, V>(seq![], x) is None
{
    lb_is(Seq::<(K, V)>::empty(), x, 0);
}

// Storing under a key that is there changes no length.
pub proof fn put_len<K, V>(es: Seq<(K, V)>, k: K)
    requires sorted(es)
    ensures holds(es, rank(k)) ==> forall|v: V| (#[trigger] put(es, k, v)).len() == es.len(),
        !holds(es, rank(k)) ==> forall|v: V| (#[trigger] put(es, k, v)).len() == es.len() + 1,
{
    lb_props(es, rank(k));
}

// An empty tree's root has no children.
pub proof fn hollow<K, V>(t: ST<K, V>)
    requires wf(t, false), t is N
    ensures (ents(t).len() == 0) == (nkids(t) == 0), nkids(t) == 0 ==> ents(t) == Seq::<(K, V)>::empty()
{
    if nkids(t) > 0 {
        assert(kid_ok(t->br, t->seps, t->kids, 0, false));
        ents_at(t, 0);
    } else {
        ents_n(t);
        assert(kes(t->kids) =~= seq![]);
        assert(ents(t) =~= Seq::<(K, V)>::empty());
    }
}
