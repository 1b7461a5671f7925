// Iterators that hand out mutable references.

// `&mut V` into the i-th slot of the leaf at some place in a tree.  The iterator makes it through a
// raw pointer, so that the verifier cannot follow the borrow; what is stated here is which slot of
// which tree it leads to and what is found there.  TRUSTED: writing through it changes that slot
// (place_write says what becomes of the tree) and nothing else; and no client has it before it
// is handed out.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(C)]
pub struct Place<'a, K, V, C: TreeConfig<K, V>> { d: std::marker::PhantomData<(&'a K, &'a mut V, C)> }

impl<'a, K, V, C: TreeConfig<K, V>> Place<'a, K, V, C> {
    pub uninterp spec fn root(&self) -> Pointer<Branch<K, V, C>, C::PointerKind>;
    pub uninterp spec fn path(&self) -> Seq<int>;
    pub uninterp spec fn index(&self) -> int;

    // It leads to the n-th entry of that tree.
    pub open spec fn is(&self, p: Pointer<Branch<K, V, C>, C::PointerKind>, n: int) -> bool {
        let t = p@.st();
        &&& self.root() == p
        &&& vpath(t, self.path()) && at(t, self.path()) is L
        &&& 0 <= self.index() < ents(at(t, self.path())).len()
        &&& n == off(t, self.path()) + self.index()
    }
}

// What writing through a place does: the n-th entry has the new value, and nothing else changes.
pub proof fn place_write<'a, K, V, C: TreeConfig<K, V>>(m: Place<'a, K, V, C>, p: Pointer<Branch<K, V, C>, C::PointerKind>, n: int, v: V)
    requires m.is(p, n), wf(p@.st(), true)
    ensures
        ({
            let t = p@.st();
            let es = ents(at(t, m.path()));
            let u = upd(t, m.path(), ST::L(es.update(m.index(), (es[m.index()].0, v))));
            &&& 0 <= n < ents(t).len()
            &&& wf(u, true) && ents(u) =~= ents(t).update(n, (ents(t)[n].0, v))
        })
{
    let t = p@.st();
    set_val(t, m.path(), m.index(), v);
    wf_any(t);
    wf_sorted(t, false);
    lb_props(ents(t), rank(ents(t)[n].0));
}

// Two entries are in different slots.
pub proof fn places_apart<'a, 'b, K, V, C: TreeConfig<K, V>>(a: Place<'a, K, V, C>, b: Place<'b, K, V, C>, p: Pointer<Branch<K, V, C>, C::PointerKind>, m: int, n: int)
    requires a.is(p, m), b.is(p, n), m != n
    ensures a.path() != b.path() || a.index() != b.index()
{
}

// The slots of a leaf nobody else shares.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(C)]
pub struct LeafSlots<'a, K, V, C: TreeConfig<K, V>> { d: std::marker::PhantomData<(&'a K, &'a mut V, C)> }

impl<'a, K, V, C: TreeConfig<K, V>> LeafSlots<'a, K, V, C> {
    pub uninterp spec fn ptr(&self) -> LPtr<K, V, C>;
    pub uninterp spec fn root(&self) -> Pointer<Branch<K, V, C>, C::PointerKind>;

    #[verifier::external_body]
    pub fn values_mut(self) -> (r: Self)
        ensures r == self
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get_un_mut(self, i: usize) -> (r: Place<'a, K, V, C>)
        requires i < self.ptr().snap().length
        ensures r.root() == self.root(), r.path() == self.ptr().path(), r.index() == i
    { unimplemented!() }
}

impl<K, V, C: TreeConfig<K, V>> LPtr<K, V, C> {
    // `deref_mut_leaf` of a cursor whose tree is not at hand.
    #[verifier::external_body]
    pub fn slots_mut<'a>(&self, Ghost(p): Ghost<Pointer<Branch<K, V, C>, C::PointerKind>>) -> (r: Option<LeafSlots<'a, K, V, C>>)
        requires self.nul() || (p.excl() && self.valid(p@))
        ensures r is None == self.nul(), r is Some ==> r->0.ptr() == *self && r->0.root() == p
    { unimplemented!() }
}

#[verifier::external_body]
pub fn cast_mut<'a, L, M, K, V, C: TreeConfig<K, V>>(p: &mut PathedPointer<L, K, V, C>) -> (r: &'a mut PathedPointer<M, K, V, C>)
    ensures *final(p) == *old(p), r.stack@ == old(p).stack@, r.leaf == old(p).leaf, r.index == old(p).index
{ unimplemented!() }

#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//= struct iter/mut_iter.rs IterMut

impl<'a, K, V, C: TreeConfig<K, V>> IterMut<'a, K, V, C> {
    // One end pointing nowhere is enough for nothing to be left.
    pub open spec fn nul(&self) -> bool { self.left.leaf.nul() || self.right.leaf.nul() }

    // Both ends point at entries of this tree, which nobody shares, or nowhere.
    pub open spec fn inv(&self, p: Pointer<Branch<K, V, C>, C::PointerKind>) -> bool {
        let t = p@.st();
        &&& (self.left.leaf.nul() && self.right.leaf.nul()) || (p.excl() && p@.ok() && wf(t, false))
        &&& self.left.leaf.nul() || (self.left.here(t) && self.left.good(p@))
        &&& self.right.leaf.nul() || (self.right.here(t) && self.right.good(p@))
    }

    // What is still to come: the entries from position lo up to hi.
    pub open spec fn lo(&self, p: Pointer<Branch<K, V, C>, C::PointerKind>) -> int {
        if self.nul() { 0 } else { self.left.pos(p@.st()) }
    }
    pub open spec fn hi(&self, p: Pointer<Branch<K, V, C>, C::PointerKind>) -> int {
        if self.nul() { 0 } else { self.right.pos(p@.st()) + 1 }
    }
    pub open spec fn done(&self, p: Pointer<Branch<K, V, C>, C::PointerKind>) -> bool { self.lo(p) >= self.hi(p) }
}
