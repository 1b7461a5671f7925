// Entries: a place in the tree, found and not yet written to.

#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//= struct entry.rs VacantEntry
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//= struct entry.rs OccupiedEntry
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//= struct entry.rs Entry

// The root node as the entry's raw pointers reach it: no clone is made, so it must not be shared.
// TRUSTED.
#[verifier::external_body]
pub fn peek_mut<'a, A, Kind>(p: &'a mut Option<Pointer<A, Kind>>) -> (r: &'a mut A)
    requires *old(p) is Some, (*old(p))->0.excl()
    ensures *r == (*old(p))->0@, *final(p) is Some, (*final(p))->0@ == *final(r), (*final(p))->0.excl()
{ unimplemented!() }

pub fn peek<'a, A, Kind>(p: &'a Option<Pointer<A, Kind>>) -> (r: &'a A)
    requires *p is Some
    ensures *r == (*p)->0@
{ p.as_ref().unwrap() }

impl<'a, K: Ord + Clone, V, C: TreeConfig<K, V>> VacantEntry<'a, K, V, C> {
    // A place where the key belongs, and the key isn't there.
    pub open spec fn good(&self) -> bool {
        let x = rank(self.key);
        &&& self.tree.inv_for(x)
        &&& !holds(self.tree.all(), x)
        &&& self.tree.all().len() > 0 ==> {
            let root = self.tree.root->0@;
            let p = self.cursor;
            &&& self.tree.root->0.excl()
            &&& if p.leaf.nul() {
                p.stack@.len() == 0 && all_lt(ents(root.st()), x) && lastr(root.st()) <= x
            } else {
                wf(root.st(), true) && p.aims(root) && kpath(root.st(), p.path(), x) && p.index == lb(ents(at(root.st(), p.path())), x)
            }
        }
    }
}

impl<'a, K: Ord + Clone, V, C: TreeConfig<K, V>> OccupiedEntry<'a, K, V, C> {
    // An entry of the tree, in a root nobody shares.
    pub open spec fn good(&self) -> bool {
        let root = self.tree.root->0@;
        &&& self.tree.root is Some && self.tree.root->0.excl()
        &&& root.ok() && wf(root.st(), true)
        &&& self.tree.size == self.tree.all().len()
        &&& self.cursor.aims(root)
        &&& self.cursor.index < ents(at(root.st(), self.cursor.path())).len()
    }

    pub open spec fn found_in(&self) -> Seq<(K, V)> { self.tree.all() }

    pub open spec fn cur(&self) -> (K, V) {
        ents(at(self.tree.root->0@.st(), self.cursor.path()))[self.cursor.index as int]
    }
}

pub broadcast proof fn here_aims<L, K, V, C: TreeConfig<K, V>>(p: PathedPointer<L, K, V, C>, root: Branch<K, V, C>)
    ensures
        #[trigger] p.good(root) && p.on(root.st()) ==> p.aims(root) && ents(at(root.st(), p.path())) == p.leaf.snap().ents() && ents(at(root.st(), p.path())).len() == p.leaf.snap().length
            && ents(at(root.st(), p.path()))[p.index as int] == p.leaf.snap().ents()[p.index as int],
{
    if p.on(root.st()) { leaf_facts(p.leaf.snap().ents()); }
}

// ---- trees with a key on its way in ----

// On the key's path the last separators are in order or already the key.
pub proof fn kspine<K, V>(t: ST<K, V>, q: Seq<int>, x: real)
    requires kpath(t, q, x), wf(t, false), spine(t, Some(x))
    ensures spine(at(t, q), Some(x))
    decreases q.len()
{
    path_k_v(t, q, x);
    if q.len() > 0 {
        let p = q.drop_last();
        let b = at(t, p);
        kspine(t, p, x);
        path_wf(t, p, false);
        let i = q.last();
        assert(b->kids[i] == at(t, q));
        assert(kid_ok(b->br, b->seps, b->kids, i, false));
        if i < nkids(b) - 1 { assert(wf(b->kids[i], false || i < nkids(b) - 1)); spine_tight(at(t, q)); spine_weak(at(t, q), x); }
    }
}

// A node with a place for the key below it has no separator raised for it.
pub proof fn kspine_up<K, V>(t: ST<K, V>, q: Seq<int>, x: real)
    requires
        kpath(t, q, x), wf(t, false), spine(t, Some(x)), spine(at(t, q), None),
        at(t, q) is N ==> fi(at(t, q), x) < nkids(at(t, q)),
    ensures spine(t, None)
    decreases q.len()
{
    path_k_v(t, q, x);
    if q.len() > 0 {
        let p = q.drop_last();
        let b = at(t, p);
        let i = q.last();
        let c = at(t, q);
        kspine(t, p, x);
        path_wf(t, p, false);
        path_wf(t, q, false);
        assert(b->kids[i] == c);
        assert(kid_ok(b->br, b->seps, b->kids, i, false));
        lbk_props(b->seps, x);
        if b->br {
            if i == nkids(b) - 1 {
                lbk_props(c->seps, x);
                kids_nonempty(c);
            } else {
                assert(rank(b->seps[i]) < rank(b->seps[nkids(b) - 1]));
                spine_even(b, x);
            }
        }
        kspine_up(t, p, x);
    }
}

pub proof fn found_tight<K, V>(t: ST<K, V>, q: Seq<int>, x: real)
    requires kpath(t, q, x), wf(t, false), spine(t, Some(x)), at(t, q) is L
    ensures wf(t, true), spine(t, None)
{
    kspine_up(t, q, x);
    tight_spine(t);
}

pub proof fn past_end<K, V>(t: ST<K, V>, x: real)
    requires
        wf(t, false), spine(t, Some(x)), t is N,
        wf(t, true) && nkids(t) > 0 ==> x > lastr(t),
    ensures nkids(t) > 0 ==> lastr(t) <= x
{
    if nkids(t) > 0 && lastr(t) > x { spine_even(t, x); tight_spine(t); }
}

// What `unwrap_err` would print of a cursor.
#[verifier::external]
impl<L, K, V, C: TreeConfig<K, V>> std::fmt::Debug for PathedPointer<L, K, V, C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}

// ---- writing a value ----

// Another value in the i-th slot of the leaf at p.
pub proof fn set_val<K, V>(t: ST<K, V>, p: Seq<int>, i: int, v: V)
    requires wf(t, true), vpath(t, p), at(t, p) is L, 0 <= i < ents(at(t, p)).len()
    ensures
        ({
            let es = ents(at(t, p));
            let k = es[i].0;
            let u = upd(t, p, ST::L(es.update(i, (k, v))));
            &&& sorted(es) && i == lb(es, rank(k)) && holds(ents(t), rank(k)) && lb(ents(t), rank(k)) == off(t, p) + i
            &&& 0 <= off(t, p) + i < ents(t).len() && ents(t)[off(t, p) + i] == es[i]
            &&& wf(u, true) && ents(u) == put(ents(t), k, v) && ents(u).len() == ents(t).len()
            &&& spine(t, None) && spine(u, None)
        })
{
    let es = ents(at(t, p));
    let k = es[i].0;
    let x = rank(k);
    wf_any(t);
    leaf_facts(es);
    path_wf(t, p, false);
    wf_sorted(at(t, p), false);
    sorted_elim(es);
    lb_is(es, x, i);
    path_key(t, p, x);
    key_pos(t, p, x);
    off_ents(t, p);
    assert(es.update(i, (k, v)) =~= put(es, k, v));
    fill_leaf(t, p, k, v);
    wf_sorted(t, false);
    put_len(ents(t), k);
    spine_tight(t);
    spine_tight(upd(t, p, ST::L(put(es, k, v))));
    wf_any(upd(t, p, ST::L(put(es, k, v))));
}

pub proof fn put_put<K, V>(es: Seq<(K, V)>, k: K, u: V, v: V)
    requires sorted(es)
    ensures put(put(es, k, u), k, v) == put(es, k, v)
{
    let x = rank(k);
    let a = put(es, k, u);
    put_props(es, k, u);
    lb_props(es, x);
    lb_props(a, x);
    sorted_elim(a);
    let i = lb(es, x);
    assert(rank(a[i].0) == x);
    lb_is(a, x, i);
    assert(put(a, k, v) =~= put(es, k, v));
}

// The root's entries after that, whatever the value turns out to be.
pub proof fn set_vals<K, V>(t: ST<K, V>, p: Seq<int>, i: int)
    requires wf(t, true), vpath(t, p), at(t, p) is L, 0 <= i < ents(at(t, p)).len()
    ensures
        ({
            let es = ents(at(t, p));
            let k = es[i].0;
            &&& holds(ents(t), rank(k)) && lb(ents(t), rank(k)) == off(t, p) + i
            &&& 0 <= off(t, p) + i < ents(t).len() && ents(t)[off(t, p) + i] == es[i]
            &&& forall|v: V| {
                let u = #[trigger] upd(t, p, ST::L(es.update(i, (k, v))));
                wf(u, false) && ents(u) == put(ents(t), k, v) && ents(u).len() == ents(t).len() && spine(u, None)
                    && wf(u, true) && vpath(u, p) && at(u, p) == ST::L(es.update(i, (k, v)))
            }
        })
{
    let es = ents(at(t, p));
    set_val(t, p, i, es[i].1);
    assert forall|v: V| {
        let u = #[trigger] upd(t, p, ST::L(es.update(i, (es[i].0, v))));
        wf(u, false) && ents(u) == put(ents(t), es[i].0, v) && ents(u).len() == ents(t).len() && spine(u, None)
            && wf(u, true) && vpath(u, p) && at(u, p) == ST::L(es.update(i, (es[i].0, v)))
    } by {
        set_val(t, p, i, v);
        at_upd(t, p, ST::L(es.update(i, (es[i].0, v))));
        wf_any(upd(t, p, ST::L(es.update(i, (es[i].0, v)))));
    }
}

// The same for removing it.
pub proof fn cut_val<K, V>(t: ST<K, V>, p: Seq<int>, i: int)
    requires wf(t, true), vpath(t, p), at(t, p) is L, 0 <= i < ents(at(t, p)).len()
    ensures
        ({
            let e = ents(at(t, p))[i];
            let x = rank(e.0);
            &&& 0 <= off(t, p) + i < ents(t).len() && ents(t)[off(t, p) + i] == e
            &&& ents(t).remove(off(t, p) + i) == without(ents(t), x)
            &&& get_of(ents(t), x) == Some(e.1) && holds(ents(t), x)
        })
{
    set_val(t, p, i, ents(at(t, p))[i].1);
}

pub broadcast proof fn tight_inv<K, V>(t: ST<K, V>)
    requires #[trigger] wf(t, true)
    ensures wf(t, false), spine(t, None)
{
    wf_any(t);
    spine_tight(t);
}

// A search's hit is an entry of its key's rank, in a tree in order.
pub proof fn hit_tight<K, V>(t: ST<K, V>, p: Seq<int>, i: int, x: real)
    requires
        wf(t, false), spine(t, Some(x)), vpath(t, p), at(t, p) is L, 0 <= i < ents(at(t, p)).len(),
        off(t, p) + i == lb(ents(t), x), holds(ents(t), x),
    ensures wf(t, true), rank(ents(at(t, p))[i].0) == x
{
    off_ents(t, p);
    wf_sorted(t, false);
    lb_props(ents(t), x);
    assert(ents(t)[off(t, p) + i] == ents(at(t, p))[i]);
    path_wf(t, p, false);
    wf_sorted(at(t, p), false);
    let es = ents(at(t, p));
    sorted_elim(es);
    lb_is(es, x, i);
    path_key(t, p, x);
    found_tight(t, p, x);
}

pub broadcast proof fn held_stays<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, r0: Branch<K, V, C>, r1: Branch<K, V, C>, base: Seq<int>)
    requires
        forall|o: BPtr<K, V, C>| #![trigger o.valid(r1)] o.valid(r0) ==> o.valid(r1),
        #[trigger] held(s, r0, base),
    ensures #[trigger] held(s, r1, base)
    decreases s.len()
{
    if s.len() > 0 { held_stays(s.drop_last(), r0, r1, base); }
}
