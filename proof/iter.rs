// Iterators over shared trees.

// std::ops::Bound and RangeBounds, with what the bounds are for contracts to speak of.  TRUSTED:
// start_bound and end_bound give the same bounds every time.
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }

pub open spec fn bref<K>(b: Bound<&K>) -> Bound<K> {
    match b {
        Bound::Included(k) => Bound::Included(*k),
        Bound::Excluded(k) => Bound::Excluded(*k),
        Bound::Unbounded => Bound::Unbounded,
    }
}

// `==` on bounds, as the derived comparison of std::ops::Bound does it.
impl<'a, K: Ord> PartialEqSpecImpl for Bound<&'a K> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, b: &Bound<&'a K>) -> bool {
        match (*self, *b) {
            (Bound::Included(x), Bound::Included(y)) => rank(*x) == rank(*y),
            (Bound::Excluded(x), Bound::Excluded(y)) => rank(*x) == rank(*y),
            (Bound::Unbounded, Bound::Unbounded) => true,
            _ => false,
        }
    }
}
impl<'a, K: Ord> PartialEq for Bound<&'a K> {
    fn eq(&self, b: &Bound<&'a K>) -> bool {
        match (self, b) {
            (Bound::Included(x), Bound::Included(y)) => **x == **y,
            (Bound::Excluded(x), Bound::Excluded(y)) => **x == **y,
            (Bound::Unbounded, Bound::Unbounded) => true,
            _ => false,
        }
    }
}

pub trait RangeBounds<K>: Sized {
    spec fn lo(&self) -> Bound<K>;
    spec fn hi(&self) -> Bound<K>;
    fn start_bound(&self) -> (r: Bound<&K>)
        ensures bref(r) == self.lo();
    fn end_bound(&self) -> (r: Bound<&K>)
        ensures bref(r) == self.hi();
}

// `..`
pub struct Full;
impl<K> RangeBounds<K> for Full {
    open spec fn lo(&self) -> Bound<K> { Bound::Unbounded }
    open spec fn hi(&self) -> Bound<K> { Bound::Unbounded }
    fn start_bound(&self) -> (r: Bound<&K>) { Bound::Unbounded }
    fn end_bound(&self) -> (r: Bound<&K>) { Bound::Unbounded }
}

// Whether a key satisfies a bound.
pub open spec fn above<K>(lo: Bound<K>, k: K) -> bool {
    match lo {
        Bound::Included(b) => rank(k) >= rank(b),
        Bound::Excluded(b) => rank(k) > rank(b),
        Bound::Unbounded => true,
    }
}
pub open spec fn below<K>(hi: Bound<K>, k: K) -> bool {
    match hi {
        Bound::Included(b) => rank(k) <= rank(b),
        Bound::Excluded(b) => rank(k) < rank(b),
        Bound::Unbounded => true,
    }
}

// Ranges the crate refuses by panicking.
pub open spec fn bkey<K>(b: Bound<K>) -> K {
    match b {
        Bound::Included(k) => k,
        Bound::Excluded(k) => k,
        Bound::Unbounded => arbitrary(),
    }
}
pub open spec fn refused<K>(lo: Bound<K>, hi: Bound<K>) -> bool {
    !(lo is Unbounded) && !(hi is Unbounded) && {
        ||| rank(bkey(lo)) > rank(bkey(hi))
        ||| lo is Excluded && hi is Excluded && rank(bkey(lo)) == rank(bkey(hi))
    }
}

// The first entry satisfying a lower bound, and one past the last satisfying an upper bound.
pub open spec fn cut_lo<K, V>(es: Seq<(K, V)>, lo: Bound<K>) -> int {
    match lo {
        Bound::Included(b) => lb(es, rank(b)),
        Bound::Excluded(b) => ub(es, rank(b)),
        Bound::Unbounded => 0,
    }
}
pub open spec fn cut_hi<K, V>(es: Seq<(K, V)>, hi: Bound<K>) -> int {
    match hi {
        Bound::Included(b) => ub(es, rank(b)),
        Bound::Excluded(b) => lb(es, rank(b)),
        Bound::Unbounded => es.len() as int,
    }
}

pub open spec fn between<E>(es: Seq<E>, a: int, b: int) -> Seq<E> {
    if a < b { es.subrange(a, b) } else { seq![] }
}

// The entries within the bounds.
pub open spec fn window_of<K, V>(es: Seq<(K, V)>, lo: Bound<K>, hi: Bound<K>) -> Seq<(K, V)> {
    between(es, cut_lo(es, lo), cut_hi(es, hi))
}

// C06: they are exactly the entries whose keys satisfy both.
pub proof fn window_exact<K, V>(es: Seq<(K, V)>, lo: Bound<K>, hi: Bound<K>)
    requires sorted(es)
    ensures
        0 <= cut_lo(es, lo) <= es.len(), 0 <= cut_hi(es, hi) <= es.len(),
        forall|i: int| 0 <= i < es.len() ==> above(lo, (#[trigger] es[i]).0) == (i >= cut_lo(es, lo)),
        forall|i: int| 0 <= i < es.len() ==> below(hi, (#[trigger] es[i]).0) == (i < cut_hi(es, hi)),
        sorted(window_of(es, lo, hi)),
        forall|e: (K, V)| #[trigger] window_of(es, lo, hi).contains(e) <==> es.contains(e) && above(lo, e.0) && below(hi, e.0),
{
    sorted_elim(es);
    match lo { Bound::Included(b) => lb_props(es, rank(b)), Bound::Excluded(b) => lb_props(es, rank(b)), Bound::Unbounded => {} }
    match hi { Bound::Included(b) => lb_props(es, rank(b)), Bound::Excluded(b) => lb_props(es, rank(b)), Bound::Unbounded => {} }
    let w = window_of(es, lo, hi);
    let a = cut_lo(es, lo);
    let z = cut_hi(es, hi);
    sorted_intro(w);
    assert forall|e: (K, V)| #[trigger] w.contains(e) implies es.contains(e) && above(lo, e.0) && below(hi, e.0) by {
        let i = choose|i: int| 0 <= i < w.len() && w[i] == e;
        assert(es[a + i] == e);
    }
    assert forall|e: (K, V)| es.contains(e) && above(lo, e.0) && below(hi, e.0) implies #[trigger] w.contains(e) by {
        let i = choose|i: int| 0 <= i < es.len() && es[i] == e;
        assert(w[i - a] == e);
    }
}

// Seen through a cast of its lifetime parameter, a cursor is the same cursor.
#[verifier::external_body]
pub fn cast_ptr<'a, L, M, K, V, C: TreeConfig<K, V>>(p: &PathedPointer<L, K, V, C>) -> (r: &'a PathedPointer<M, K, V, C>)
    ensures r.stack@ == p.stack@, r.leaf == p.leaf, r.index == p.index
{ unimplemented!() }

#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//= struct iter/ref_iter.rs Iter

impl<'a, K, V, C: TreeConfig<K, V>> Iter<'a, K, V, C> {
    // One end pointing nowhere is enough for nothing to be left.
    pub open spec fn nul(&self) -> bool { self.left.leaf.nul() || self.right.leaf.nul() }
    pub open spec fn tree(&self) -> ST<K, V> { if self.left.leaf.nul() { self.right.tree() } else { self.left.tree() } }

    // Both ends point at entries of the same tree, or nowhere.
    pub open spec fn inv(&self) -> bool {
        &&& self.left.leaf.nul() || self.left.here(self.tree())
        &&& self.right.leaf.nul() || self.right.here(self.tree())
        &&& (self.left.leaf.nul() && self.right.leaf.nul()) || wf(self.tree(), false)
    }

    // What is still to come.
    pub open spec fn rest(&self) -> Seq<(K, V)> {
        if self.nul() { seq![] } else { between(ents(self.tree()), self.left.pos(self.tree()), self.right.pos(self.tree()) + 1) }
    }
}

// The entry a cursor points at.
pub proof fn here_entry<L, K, V, C: TreeConfig<K, V>>(p: PathedPointer<L, K, V, C>, t: ST<K, V>)
    requires p.here(t)
    ensures
        p.leaf.snap().ok(), !p.leaf.nul(),
        0 <= p.pos(t) < ents(t).len(),
        ents(t)[p.pos(t)] == (p.leaf.snap().ks()[p.index as int], p.leaf.snap().vs()[p.index as int]),
{
    off_ents(t, p.path());
    let es = p.leaf.snap().ents();
    at_leaf(t, p.path(), es);
    assert(ents(at(t, p.path()))[p.index as int] == es[p.index as int]);
}

pub open spec fn pair<'a, K, V>(r: (&'a K, &'a V)) -> (K, V) { (*r.0, *r.1) }
