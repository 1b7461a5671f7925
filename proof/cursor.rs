// Cursors: a stack of (branch pointer, child index) and a leaf pointer.

// `*const Branch`: the node it was taken from, as it was then, and that node's place in the tree.
// TRUSTED: reading through it gives the node as it was when the pointer was made (a cursor that
// reads holds a shared borrow of the tree, or the tree has not been written since), and writing
// through it needs the tree itself (below) and reaches the node at that place.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(C)]
pub struct BPtr<K, V, C: TreeConfig<K, V>> { d: std::marker::PhantomData<(K, V, C)> }

#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(C)]
pub struct LPtr<K, V, C: TreeConfig<K, V>> { d: std::marker::PhantomData<(K, V, C)> }

impl<K, V, C: TreeConfig<K, V>> Copy for BPtr<K, V, C> {}
impl<K, V, C: TreeConfig<K, V>> Clone for BPtr<K, V, C> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
impl<K, V, C: TreeConfig<K, V>> Copy for LPtr<K, V, C> {}
impl<K, V, C: TreeConfig<K, V>> Clone for LPtr<K, V, C> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}

impl<K, V, C: TreeConfig<K, V>> BPtr<K, V, C> {
    // `& * p`, in a tree nothing writes to meanwhile.
    #[verifier::external_body]
    pub fn seen<'a>(&self) -> (r: &'a Branch<K, V, C>)
        requires unwritten(self.path())
        ensures *r == self.snap()
    { unimplemented!() }

    pub uninterp spec fn snap(&self) -> Branch<K, V, C>;
    pub uninterp spec fn path(&self) -> Seq<int>;

    #[verifier::external_body]
    pub fn of(b: &Branch<K, V, C>, Ghost(path): Ghost<Seq<int>>) -> (r: Self)
        ensures r.snap() == *b, r.path() == path
    { unimplemented!() }

    // It is the address of the node at that place in this tree, as the tree is now.
    pub uninterp spec fn valid(&self, root: Branch<K, V, C>) -> bool;

    // The same, for a node known to be part of the tree under `root`.
    #[verifier::external_body]
    pub fn of_in(b: &Branch<K, V, C>, Ghost(path): Ghost<Seq<int>>, Ghost(root): Ghost<Branch<K, V, C>>) -> (r: Self)
        ensures
            r.snap() == *b, r.path() == path,
            root.ok() && vpath(root.st(), path) && at(root.st(), path) == b.st() ==> r.valid(root),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn look<'a>(&self, root: &'a Branch<K, V, C>) -> (r: &'a Branch<K, V, C>)
        requires root.ok(), self.valid(*root), vpath(root.st(), self.path()), at(root.st(), self.path()) is N
        ensures r.ok(), r.st() == at(root.st(), self.path())
    { unimplemented!() }

    // Pointers to the nodes above stay good; pointers to any node do when no child is moved.
    #[verifier::external_body]
    pub fn as_mut<'a>(&self, root: &'a mut Branch<K, V, C>) -> (r: &'a mut Branch<K, V, C>)
        requires old(root).ok(), self.valid(*old(root)), vpath(old(root).st(), self.path()), at(old(root).st(), self.path()) is N
        ensures
            r.ok(), r.st() == at(old(root).st(), self.path()),
            final(r).ok() ==> final(root).ok() && final(root).st() == upd(old(root).st(), self.path(), final(r).st()),
            forall|o: BPtr<K, V, C>| #![trigger o.valid(*final(root))]
                o.valid(*old(root)) && (under(o.path(), self.path()) || final(r).children == r.children) ==> o.valid(*final(root)),
    { unimplemented!() }
}

// q is p or leads to a node above p's.
pub open spec fn under(q: Seq<int>, p: Seq<int>) -> bool {
    q.len() <= p.len() && p.take(q.len() as int) == q
}

impl<K, V, C: TreeConfig<K, V>> LPtr<K, V, C> {
    pub uninterp spec fn snap(&self) -> Leaf<K, V, C>;
    pub uninterp spec fn path(&self) -> Seq<int>;
    pub uninterp spec fn nul(&self) -> bool;

    #[verifier::external_body]
    pub fn of(b: &Leaf<K, V, C>, Ghost(path): Ghost<Seq<int>>) -> (r: Self)
        ensures r.snap() == *b, r.path() == path, !r.nul()
    { unimplemented!() }

    pub uninterp spec fn valid(&self, root: Branch<K, V, C>) -> bool;

    #[verifier::external_body]
    pub fn of_in(b: &Leaf<K, V, C>, Ghost(path): Ghost<Seq<int>>, Ghost(root): Ghost<Branch<K, V, C>>) -> (r: Self)
        ensures
            r.snap() == *b, r.path() == path, !r.nul(),
            root.ok() && vpath(root.st(), path) && at(root.st(), path) == ST::<K, V>::L(b.ents()) ==> r.valid(root),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn as_mut<'a>(&self, root: &'a mut Branch<K, V, C>) -> (r: &'a mut Leaf<K, V, C>)
        requires old(root).ok(), !self.nul(), self.valid(*old(root)), vpath(old(root).st(), self.path()), at(old(root).st(), self.path()) is L
        ensures
            r.ok(), ST::L(r.ents()) == at(old(root).st(), self.path()),
            final(r).ok() ==> final(root).ok() && final(root).st() == upd(old(root).st(), self.path(), ST::L(final(r).ents())),
            forall|o: BPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root)),
            forall|o: LPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root)),
    { unimplemented!() }

    // `(p as *mut Leaf).as_mut()`
    #[verifier::external_body]
    pub fn as_mut_opt<'a>(&self, root: &'a mut Branch<K, V, C>) -> (r: Option<&'a mut Leaf<K, V, C>>)
        requires self.nul() || (old(root).ok() && self.valid(*old(root)) && vpath(old(root).st(), self.path()) && at(old(root).st(), self.path()) is L)
        ensures
            r is None == self.nul(),
            match r {
                None => *final(root) == *old(root),
                Some(l) => {
                    &&& l.ok() && ST::L(l.ents()) == at(old(root).st(), self.path())
                    &&& final(l).ok() ==> final(root).ok() && final(root).st() == upd(old(root).st(), self.path(), ST::L(final(l).ents()))
                    &&& forall|o: BPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root))
                    &&& forall|o: LPtr<K, V, C>| #![trigger o.valid(*final(root))] o.valid(*old(root)) ==> o.valid(*final(root))
                }
            },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn look<'a>(&self, root: &'a Branch<K, V, C>) -> (r: &'a Leaf<K, V, C>)
        requires !self.nul(), root.ok(), self.valid(*root), vpath(root.st(), self.path()), at(root.st(), self.path()) is L
        ensures r.ok(), ST::L(r.ents()) == at(root.st(), self.path())
    { unimplemented!() }

    // `p.as_ref()` once the tree may have been written to.
    #[verifier::external_body]
    pub fn look_opt<'a>(&self, root: &'a Branch<K, V, C>) -> (r: Option<&'a Leaf<K, V, C>>)
        requires self.nul() || (root.ok() && self.valid(*root) && vpath(root.st(), self.path()) && at(root.st(), self.path()) is L)
        ensures
            r is None == self.nul(),
            r is Some ==> r->0.ok() && ST::L(r->0.ents()) == at(root.st(), self.path()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn null() -> (r: Self)
        ensures r.nul()
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool)
        ensures r == self.nul()
    { unimplemented!() }

    // `& * p`, in a tree nothing writes to meanwhile.
    #[verifier::external_body]
    pub fn seen<'a>(&self) -> (r: &'a Leaf<K, V, C>)
        requires !self.nul(), unwritten(self.path())
        ensures *r == self.snap()
    { unimplemented!() }

    // `p . as_ref ( )`, likewise.
    #[verifier::external_body]
    pub fn seen_opt<'a>(&self) -> (r: Option<&'a Leaf<K, V, C>>)
        requires unwritten(self.path())
        ensures r is None == self.nul(), r is Some ==> *r->0 == self.snap()
    { unimplemented!() }
}

// ArrayVec<[(*const Branch, isize); 16]>, whose push panics when it is full.  A push is shown to come at
// the level of the tree the pushed branch is at, or above it, so there is room on all of the first 16 levels
// (a higher tree is a known finding).  How many a stack holds is read off the crate's type.
//= levels
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(C)]
pub struct Stack<K, V, C: TreeConfig<K, V>> { d: std::marker::PhantomData<(K, V, C)> }

impl<K, V, C: TreeConfig<K, V>> View for Stack<K, V, C> {
    type V = Seq<(BPtr<K, V, C>, isize)>;
    uninterp spec fn view(&self) -> Seq<(BPtr<K, V, C>, isize)>;
}

impl<K, V, C: TreeConfig<K, V>> Stack<K, V, C> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@.len() == 0
    { unimplemented!() }

    #[verifier::external_body]
    pub fn push(&mut self, e: (BPtr<K, V, C>, isize))
        requires old(self)@.len() <= e.0.path().len(), e.0.path().len() < 16 ==> old(self)@.len() < levels()
        ensures final(self)@ == old(self)@.push(e)
    { unimplemented!() }

    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<(BPtr<K, V, C>, isize)>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() && old(self)@ == final(self)@.push(old(self)@.last()),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r@ == self@
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { unimplemented!() }

    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&(BPtr<K, V, C>, isize)>)
        ensures r is Some == (self@.len() > 0), r is Some ==> *r->0 == self@.last()
    { unimplemented!() }

    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@.len() == 0
    { unimplemented!() }

    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n < old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ })
    { unimplemented!() }
}

#[verifier::external_body]
pub fn prefetch<A>(a: &A) { unimplemented!() }

#[verifier::reject_recursive_types(C)]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
//= struct search.rs PathedPointer

// ---- stacks as paths ----

pub open spec fn idx<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>) -> Seq<int> {
    Seq::new(s.len(), |i: int| s[i].1 as int)
}

// Each pointer is the node the indices below it lead to, in the tree t found at `base`.
pub open spec fn chain<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>, base: Seq<int>) -> bool
    decreases s.len()
{
    s.len() == 0 || {
        let q = idx(s.drop_last());
        let b = s.last().0;
        &&& chain(s.drop_last(), t, base)
        &&& vpath(t, q)
        &&& b.snap().ok() && b.snap().st() == at(t, q) && b.path() == base + q
    }
}

pub proof fn chain_push<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>, base: Seq<int>, e: (BPtr<K, V, C>, isize))
    ensures
        idx(s.push(e)) == idx(s).push(e.1 as int),
        s.push(e).drop_last() == s,
        chain(s.push(e), t, base) == (chain(s, t, base) && vpath(t, idx(s)) && e.0.snap().ok() && e.0.snap().st() == at(t, idx(s)) && e.0.path() == base + idx(s)),
{
    assert(s.push(e).drop_last() =~= s);
    assert(idx(s.push(e)) =~= idx(s).push(e.1 as int));
}

pub proof fn chain_pop<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>)
    requires s.len() > 0
    ensures idx(s) == idx(s.drop_last()).push(s.last().1 as int), idx(s.drop_last()) == idx(s).drop_last(), idx(s).last() == s.last().1,
{
    assert(idx(s) =~= idx(s.drop_last()).push(s.last().1 as int));
    assert(idx(s.drop_last()) =~= idx(s).drop_last());
}

pub proof fn chain_none<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>)
    ensures s.len() == 0 ==> idx(s) == Seq::<int>::empty() && (forall|b: Seq<int>| #[trigger] (b + idx(s)) == b)
{
    if s.len() == 0 {
        assert(idx(s) =~= Seq::<int>::empty());
        assert forall|b: Seq<int>| #[trigger] (b + idx(s)) == b by { assert(b + idx(s) =~= b); }
    }
}

// The stack's pointers are good in this tree; they lead on from the node at `base`.
pub open spec fn held<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, root: Branch<K, V, C>, base: Seq<int>) -> bool
    decreases s.len()
{
    s.len() == 0 || {
        &&& held(s.drop_last(), root, base)
        &&& s.last().0.valid(root) && s.last().0.path() == base + idx(s.drop_last())
    }
}

pub proof fn held_push<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, root: Branch<K, V, C>, base: Seq<int>, e: (BPtr<K, V, C>, isize))
    ensures
        idx(s.push(e)) == idx(s).push(e.1 as int),
        held(s.push(e), root, base) == (held(s, root, base) && e.0.valid(root) && e.0.path() == base + idx(s)),
{
    assert(s.push(e).drop_last() =~= s);
    assert(idx(s.push(e)) =~= idx(s).push(e.1 as int));
}

pub proof fn held_pop<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, root: Branch<K, V, C>)
    requires s.len() > 0
    ensures
        held(s, root, seq![]) ==> held(s.drop_last(), root, seq![]),
        held(s, root, seq![]) ==> forall|j: isize| held(#[trigger] s.drop_last().push((s.last().0, j)), root, seq![]),
{
    let d = s.drop_last();
    if held(s, root, seq![]) {
        assert forall|j: isize| held(#[trigger] d.push((s.last().0, j)), root, seq![]) by { held_push(d, root, seq![], (s.last().0, j)); }
    }
}

// A child's pointer on top of its parent's.
pub proof fn held_top<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, root: Branch<K, V, C>)
    ensures
        forall|x: BPtr<K, V, C>, j: isize| #![trigger s.push((x, j))] held(s, root, seq![]) && x.valid(root) && x.path() == idx(s) ==> held(s.push((x, j)), root, seq![]),
{
    assert forall|x: BPtr<K, V, C>, j: isize| #![trigger s.push((x, j))] held(s, root, seq![]) && x.valid(root) && x.path() == idx(s) implies held(s.push((x, j)), root, seq![]) by {
        held_push(s, root, seq![], (x, j));
        assert(seq![] + idx(s) =~= idx(s));
    }
}

pub proof fn at_add<K, V>(t: ST<K, V>, a: Seq<int>, b: Seq<int>)
    ensures
        at(t, a + b) == at(at(t, a), b),
        vpath(t, a) && vpath(at(t, a), b) ==> vpath(t, a + b),
        forall|x: real| kpath(t, a, x) && #[trigger] kpath(at(t, a), b, x) ==> kpath(t, a + b, x),
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        at_add(t, a, b.drop_last());
        assert forall|x: real| kpath(t, a, x) && #[trigger] kpath(at(t, a), b, x) implies kpath(t, a + b, x) by {
            assert(kpath(at(t, a), b.drop_last(), x));
        }
    }
}

// ---- positions ----

// How many entries lie before the subtree at p.
pub open spec fn off<K, V>(t: ST<K, V>, p: Seq<int>) -> int
    decreases p.len()
{
    if p.len() == 0 { 0 } else { off(t, p.drop_last()) + before(at(t, p.drop_last()), p.last()).len() }
}

// How many lie before its end.
pub open spec fn end<K, V>(t: ST<K, V>, p: Seq<int>) -> int {
    if p.len() == 0 { ents(t).len() as int } else { off(t, p.drop_last()) + before(at(t, p.drop_last()), p.last() + 1).len() }
}

pub proof fn before_next<K, V>(t: ST<K, V>, i: int)
    requires t is N, 0 <= i < nkids(t)
    ensures before(t, i + 1) == before(t, i) + ents(t->kids[i]), before(t, 0).len() == 0, before(t, nkids(t)) == ents(t)
{
    let a = kes(t->kids.take(i + 1));
    assert(a.drop_last() =~= kes(t->kids.take(i)));
    assert(a.last() == ents(t->kids[i]));
    assert(kes(t->kids.take(0)) =~= seq![]);
    assert(t->kids.take(nkids(t)) =~= t->kids);
    ents_n(t);
}

pub proof fn off_push<K, V>(t: ST<K, V>, p: Seq<int>, i: int)
    ensures
        off(t, p.push(i)) == off(t, p) + before(at(t, p), i).len(),
        end(t, p.push(i)) == off(t, p) + before(at(t, p), i + 1).len(),
{
    assert(p.push(i).drop_last() =~= p);
}

// The entries of the subtree at p, within the whole.
pub proof fn off_ents<K, V>(t: ST<K, V>, p: Seq<int>)
    requires vpath(t, p)
    ensures
        0 <= off(t, p), end(t, p) == off(t, p) + ents(at(t, p)).len(), end(t, p) <= ents(t).len(),
        forall|j: int| 0 <= j < ents(at(t, p)).len() ==> ents(t)[off(t, p) + j] == #[trigger] ents(at(t, p))[j],
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let b = at(t, q);
        let i = p.last();
        off_ents(t, q);
        before_next(b, i);
        ents_at(b, i);
        assert forall|j: int| 0 <= j < ents(at(t, p)).len() implies ents(t)[off(t, p) + j] == #[trigger] ents(at(t, p))[j] by {
            assert(ents(b)[before(b, i).len() + j] == ents(at(t, p))[j]);
        }
    }
}

// Everything under the child just left behind: the next position is its parent's, one up.
pub proof fn end_up<K, V>(t: ST<K, V>, p: Seq<int>)
    requires p.len() > 0, vpath(t, p.drop_last()), at(t, p.drop_last()) is N
    ensures
        p.last() + 1 == nkids(at(t, p.drop_last())) ==> end(t, p) == end(t, p.drop_last()),
        p.last() == 0 ==> off(t, p) == off(t, p.drop_last()),
{
    let q = p.drop_last();
    let b = at(t, q);
    off_ents(t, q);
    assert(b->kids.take(nkids(b)) =~= b->kids);
    ents_n(b);
    assert(kes(b->kids.take(0)) =~= seq![]);
}

// Where a search for x ends up is where x belongs.
pub proof fn key_pos<K, V>(t: ST<K, V>, p: Seq<int>, x: real)
    requires kpath(t, p, x), wf(t, false)
    ensures
        lb(ents(t), x) == off(t, p) + lb(ents(at(t, p)), x),
        holds(ents(t), x) == holds(ents(at(t, p)), x),
    decreases p.len()
{
    path_find(t, p, x);
    if p.len() > 0 {
        let q = p.drop_last();
        key_pos(t, q, x);
        path_find(t, q, x);
        let b = at(t, q);
        lbk_props(b->seps, x);
        around(b, p.last(), false);
        wf_sorted(b->kids[p.last()], false);
        window(before(b, p.last()), ents(b->kids[p.last()]), after(b, p.last()), x);
    }
}

// ---- what makes the walks end ----

pub open spec fn wt<K, V>(t: ST<K, V>) -> nat
    decreases t, 1nat, 0nat
{
    match t {
        ST::L(_) => 1,
        ST::N { br, seps, kids } => 2 + wts(t, kids.len()),
    }
}

pub open spec fn wts<K, V>(t: ST<K, V>, n: nat) -> nat
    decreases t, 0nat, n
{
    if t is L || n == 0 || n > t->kids.len() { 0 } else { wts(t, (n - 1) as nat) + wt(t->kids[n - 1]) }
}

pub open spec fn tot<K, V>(t: ST<K, V>) -> nat { wts(t, t->kids.len()) }

pub proof fn wts_le<K, V>(t: ST<K, V>, n: nat)
    requires t is N, n <= t->kids.len()
    ensures wts(t, n) <= tot(t)
    decreases t->kids.len() - n
{
    if n < t->kids.len() { wts_le(t, n + 1); }
}

pub proof fn wts_next<K, V>(t: ST<K, V>, i: int)
    requires t is N, 0 <= i < nkids(t)
    ensures
        wts(t, (i + 1) as nat) == wts(t, i as nat) + wt(t->kids[i]),
        t->kids[i] is N ==> wt(t->kids[i]) == 2 + tot(t->kids[i]),
        wts(t->kids[i], 0) == 0,
{
}

pub proof fn before_whole<K, V>(t: ST<K, V>)
    requires t is N
    ensures before(t, nkids(t)).len() == ents(t).len()
{
    assert(t->kids.take(nkids(t)) =~= t->kids);
    ents_n(t);
}

// What is left to walk through going forward / back.
pub open spec fn fuel<K, V>(t: ST<K, V>, p: Seq<int>) -> int
    decreases p.len()
{
    if p.len() == 0 { 0 } else { fuel(t, p.drop_last()) + 1 + tot(at(t, p.drop_last())) - wts(at(t, p.drop_last()), (p.last() + 1) as nat) }
}

pub open spec fn fuel_b<K, V>(t: ST<K, V>, p: Seq<int>) -> int
    decreases p.len()
{
    if p.len() == 0 { 0 } else { fuel_b(t, p.drop_last()) + 1 + wts(at(t, p.drop_last()), p.last() as nat) }
}

pub proof fn fuel_push<K, V>(t: ST<K, V>, p: Seq<int>, i: int)
    ensures
        fuel(t, p.push(i)) == fuel(t, p) + 1 + tot(at(t, p)) - wts(at(t, p), (i + 1) as nat),
        fuel_b(t, p.push(i)) == fuel_b(t, p) + 1 + wts(at(t, p), i as nat),
{
    assert(p.push(i).drop_last() =~= p);
}

pub proof fn fuel_pos<K, V>(t: ST<K, V>, p: Seq<int>)
    requires p.len() == 0 || (vpath(t, p.drop_last()) && at(t, p.drop_last()) is N && -1 <= p.last() <= nkids(at(t, p.drop_last())))
    ensures
        p.len() == 0 || p.last() < nkids(at(t, p.drop_last())) ==> fuel(t, p) >= 0,
        p.len() == 0 || p.last() >= 0 ==> fuel_b(t, p) >= 0,
    decreases p.len()
{
    if p.len() > 0 {
        fuel_pos(t, p.drop_last());
        if p.last() < nkids(at(t, p.drop_last())) { wts_le(at(t, p.drop_last()), (p.last() + 1) as nat); }
    }
}

// ---- cursors ----

impl<Lifetime, K, V, C: TreeConfig<K, V>> PathedPointer<Lifetime, K, V, C> {
    // The tree it was made for.
    pub open spec fn tree(&self) -> ST<K, V> { self.stack@[0].0.snap().st() }
    pub open spec fn path(&self) -> Seq<int> { idx(self.stack@) }

    // It points into a leaf of t.
    pub open spec fn on(&self, t: ST<K, V>) -> bool {
        &&& !self.leaf.nul()
        &&& self.stack@.len() > 0
        &&& self.tree() == t
        &&& chain(self.stack@, t, seq![])
        &&& vpath(t, self.path())
        &&& self.leaf.snap().ok()
        &&& at(t, self.path()) == ST::L(self.leaf.snap().ents())
        &&& self.leaf.path() == self.path()
    }

    pub open spec fn pos(&self, t: ST<K, V>) -> int { off(t, self.path()) + self.index }

    // Its pointers are good in this tree.
    pub open spec fn good(&self, root: Branch<K, V, C>) -> bool {
        held(self.stack@, root, seq![]) && self.leaf.valid(root)
    }

    // It leads to a leaf of this tree.
    pub open spec fn aims(&self, root: Branch<K, V, C>) -> bool {
        &&& self.good(root)
        &&& !self.leaf.nul()
        &&& self.stack@.len() > 0
        &&& self.leaf.path() == self.path()
        &&& vpath(root.st(), self.path())
        &&& at(root.st(), self.path()) is L
    }

    // It points at this entry of this tree.  (Its stack may not be good.)
    pub open spec fn set(&self, root: Branch<K, V, C>, k: K, v: V) -> bool {
        let es = ents(at(root.st(), self.leaf.path()));
        &&& !self.leaf.nul()
        &&& self.leaf.valid(root)
        &&& vpath(root.st(), self.leaf.path())
        &&& at(root.st(), self.leaf.path()) is L
        &&& self.index < es.len() && es[self.index as int] == (k, v)
    }

    // It points at an entry of t.
    pub open spec fn here(&self, t: ST<K, V>) -> bool {
        self.on(t) && self.index < self.leaf.snap().length
    }
}

pub proof fn chain_root<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>, base: Seq<int>)
    requires chain(s, t, base), s.len() > 0
    ensures s[0].0.snap().st() == t
    decreases s.len()
{
    if s.len() > 1 { chain_root(s.drop_last(), t, base); assert(s.drop_last()[0] == s[0]); }
    else { assert(idx(s.drop_last()) =~= Seq::<int>::empty()); }
}

// One past the entries not above x.
pub open spec fn ub<K, V>(es: Seq<(K, V)>, x: real) -> int { lb(es, x) + hit(es, x) }

// The path a search takes, one step on.
pub proof fn walk_step<K, V>(t: ST<K, V>, p: Seq<int>, x: real)
    requires kpath(t, p, x), wf(t, false), at(t, p) is N, fi(at(t, p), x) < nkids(at(t, p))
    ensures
        0 <= fi(at(t, p), x),
        kpath(t, p.push(fi(at(t, p), x)), x), at(t, p.push(fi(at(t, p), x))) == at(t, p)->kids[fi(at(t, p), x)],
        decreases_to!(at(t, p) => at(t, p)->kids[fi(at(t, p), x)]),
        at(t, p)->kids[fi(at(t, p), x)] is N <==> at(t, p)->br,
{
    path_find(t, p, x);
    descend(at(t, p), x, false);
    path_push(t, p, fi(at(t, p), x));
}

// A search runs out of separators at the top only.
pub proof fn walk_end<K, V>(t: ST<K, V>, p: Seq<int>, x: real)
    requires kpath(t, p, x), wf(t, false), at(t, p) is N, fi(at(t, p), x) == nkids(at(t, p))
    ensures
        lb(ents(t), x) == ents(t).len(), all_lt(ents(t), x), !holds(ents(t), x),
        wf(t, true) && nkids(t) > 0 ==> x > rank(t->seps.last()),
{
    path_k_v(t, p, x);
    if wf(t, true) { walk_right(t, p, x, true); tpath_tight(t, p); }
    walk_right(t, p, x, false);
    path_find(t, p, x);
    key_pos(t, p, x);
    descend(at(t, p), x, false);
    right_end(t, p);
    off_ents(t, p);
    wf_sorted(t, false);
    lb_props(ents(t), x);
    child_pre(at(t, p), x);
}

pub proof fn walk_right<K, V>(t: ST<K, V>, p: Seq<int>, x: real, tight: bool)
    requires kpath(t, p, x), wf(t, tight), at(t, p) is N, fi(at(t, p), x) == nkids(at(t, p))
    ensures
        !tpath(t, p, false),
        tpath(t, p, tight) ==> p.len() == 0,
{
    path_k_v(t, p, x);
    if tight { wf_any(t); }
    if p.len() > 0 {
        let q = p.drop_last();
        let b = at(t, q);
        path_wf(t, q, tight);
        path_wf(t, p, tight);
        path_wf(t, q, false);
        path_wf(t, p, false);
        lbk_props(b->seps, x);
        let c = at(t, p);
        lbk_props(c->seps, x);
        assert(kid_ok(b->br, b->seps, b->kids, p.last(), tpath(t, q, tight)));
        assert(kid_ok(b->br, b->seps, b->kids, p.last(), tpath(t, q, false)));
        if c->seps.len() > 0 { assert(rank(c->seps[c->seps.len() - 1]) < x); }
        assert(rank(b->seps[p.last()]) >= x);
    }
}

pub proof fn right_end<K, V>(t: ST<K, V>, p: Seq<int>)
    requires vpath(t, p), !tpath(t, p, false)
    ensures end(t, p) == ents(t).len()
    decreases p.len()
{
    if p.len() > 0 {
        right_end(t, p.drop_last());
        end_up(t, p);
        off_ents(t, p.drop_last());
    }
}

pub proof fn skip_push<A>(s: Seq<A>, n: int, a: A)
    requires 0 <= n <= s.len()
    ensures s.push(a).skip(n) == s.skip(n).push(a), s.push(a).take(n) == s.take(n)
{
    assert(s.push(a).skip(n) =~= s.skip(n).push(a));
    assert(s.push(a).take(n) =~= s.take(n));
}

// Where a search for x ended up, within the leaf and within the whole.
pub proof fn leaf_pos<K, V>(t: ST<K, V>, p: Seq<int>, x: real)
    requires kpath(t, p, x), wf(t, false), at(t, p) is L, p.len() > 0
    ensures
        lb(ents(t), x) == off(t, p) + lb(ents(at(t, p)), x),
        ub(ents(t), x) == off(t, p) + ub(ents(at(t, p)), x),
        holds(ents(t), x) == holds(ents(at(t, p)), x),
        sorted(ents(at(t, p))), ents(at(t, p)).len() > 0, vpath(t, p),
        ents(at(t, p)) == at(t, p)->L_0,
        0 <= lb(ents(at(t, p)), x) <= ents(at(t, p)).len(),
        off(t, p) >= 0, end(t, p) == off(t, p) + ents(at(t, p)).len(), end(t, p) <= ents(t).len(),
        sorted(ents(t)),
        forall|j: int| 0 <= j < ents(at(t, p)).len() ==> ents(t)[off(t, p) + j] == #[trigger] ents(at(t, p))[j],
{
    path_find(t, p, x);
    path_wf(t, p, false);
    key_pos(t, p, x);
    wf_sorted(at(t, p), false);
    wf_sorted(t, false);
    lb_props(ents(at(t, p)), x);
    off_ents(t, p);
}

pub proof fn tpath_tight<K, V>(t: ST<K, V>, p: Seq<int>)
    ensures tpath(t, p, true)
    decreases p.len()
{
    if p.len() > 0 { tpath_tight(t, p.drop_last()); }
}

// ---- stepping ----

// On the way forward to position n: everything before n is behind the child the stack points at.
pub open spec fn fwd_inv<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>, n: int) -> bool {
    let p = idx(s);
    &&& chain(s, t, seq![])
    &&& n <= ents(t).len()
    &&& s.len() == 0 ==> n == ents(t).len()
    &&& s.len() > 0 ==> -1 <= p.last() < nkids(at(t, p.drop_last())) && end(t, p) == n && s[0].0.snap().st() == t
}

pub open spec fn back_inv<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>, n: int) -> bool {
    let p = idx(s);
    &&& chain(s, t, seq![])
    &&& 0 <= n <= ents(t).len()
    &&& s.len() == 0 ==> n == 0
    &&& s.len() > 0 ==> 0 <= p.last() <= nkids(at(t, p.drop_last())) && off(t, p) == n && s[0].0.snap().st() == t
}

pub open spec fn ahead<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>) -> int { fuel(t, idx(s)) }
pub open spec fn behind<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>) -> int { fuel_b(t, idx(s)) }

// The stack leads to a node of t.
pub open spec fn leads<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>) -> bool {
    s.len() > 0 && chain(s, t, seq![]) && vpath(t, idx(s)) && s[0].0.snap().st() == t
}

pub proof fn fwd<K, V, C: TreeConfig<K, V>>(s0: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>, n: int)
    requires fwd_inv(s0, t, n), s0.len() > 0, wf(t, false)
    ensures
        ahead(s0, t) >= 0,
        s0.last().0.snap().ok(), s0.last().0.path().len() == s0.len() - 1,
        ({
            let d = s0.drop_last();
            let e = s0.last();
            let b = e.0.snap().st();
            &&& -1 <= e.1 < nkids(b)
            &&& e.1 + 1 == nkids(b) ==> fwd_inv(d, t, n) && 0 <= ahead(d, t) < ahead(s0, t)
            &&& e.1 + 1 < nkids(b) ==> {
                let s1 = d.push((e.0, (e.1 + 1) as isize));
                let c = b->kids[e.1 + 1];
                &&& leads(s1, t)
                &&& at(t, idx(s1)) == c && off(t, idx(s1)) == n && n < ents(t).len() && ents(c).len() > 0 && (c is N <==> b->br)
                &&& forall|x: BPtr<K, V, C>| x.snap().ok() && x.snap().st() == c && x.path() == idx(s1) ==> fwd_inv(#[trigger] s1.push((x, -1isize)), t, n) && 0 <= ahead(s1.push((x, -1isize)), t) < ahead(s0, t)
            }
        }),
{
    let d = s0.drop_last();
    let e = s0.last();
    let q = idx(d);
    let b = at(t, q);
    let i = e.1 as int;
    assert(b == e.0.snap().st());
    chain_pop(s0);
    path_split(idx(s0));
    path_wf(t, q, false);
    off_push(t, q, i);
    fuel_push(t, q, i);
    fuel_pos(t, idx(s0));
    fuel_pos(t, q);
    off_ents(t, q);
    if d.len() > 0 { chain_pop(d); assert(d[0] == s0[0]); }
    if i + 1 < nkids(b) {
        let j = i + 1;
        assert(kid_ok(b->br, b->seps, b->kids, j, false)) by { path_wf(t, q, false); }
        before_next(b, j);
        off_push(t, q, j);
        fuel_push(t, q, j);
        path_push(t, q, j);
        path_wf(t, q.push(j), false);
        off_ents(t, q.push(j));
        wts_next(b, j);
        let c = b->kids[j];
        let s1 = d.push((e.0, (e.1 + 1) as isize));
        chain_push(d, t, seq![], (e.0, (e.1 + 1) as isize));
        chain_root(s1, t, seq![]);
        assert(seq![] + idx(s1) =~= idx(s1));
        assert forall|x: BPtr<K, V, C>| x.snap().ok() && x.snap().st() == c && x.path() == idx(s1) implies fwd_inv(#[trigger] s1.push((x, -1isize)), t, n) && 0 <= ahead(s1.push((x, -1isize)), t) < ahead(s0, t) by {
            let s2 = s1.push((x, -1isize));
            chain_push(s1, t, seq![], (x, -1isize));
            chain_root(s2, t, seq![]);
            off_push(t, idx(s1), -1);
            fuel_push(t, idx(s1), -1);
            path_push(t, idx(s1), -1);
            before_next(c, 0);
            fuel_pos(t, idx(s2));
        }
    } else {
        end_up(t, idx(s0));
    }
}

pub proof fn back<K, V, C: TreeConfig<K, V>>(s0: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>, n: int)
    requires back_inv(s0, t, n), s0.len() > 0, wf(t, false)
    ensures
        behind(s0, t) >= 0,
        s0.last().0.snap().ok(), s0.last().0.path().len() == s0.len() - 1,
        ({
            let d = s0.drop_last();
            let e = s0.last();
            let b = e.0.snap().st();
            &&& 0 <= e.1 <= nkids(b)
            &&& e.1 == 0 ==> back_inv(d, t, n) && 0 <= behind(d, t) < behind(s0, t)
            &&& e.1 > 0 ==> {
                let s1 = d.push((e.0, (e.1 - 1) as isize));
                let c = b->kids[e.1 - 1];
                &&& leads(s1, t)
                &&& at(t, idx(s1)) == c && off(t, idx(s1)) + ents(c).len() == n && n > 0 && ents(c).len() > 0 && (c is N <==> b->br)
                &&& forall|x: BPtr<K, V, C>, m: isize| x.snap().ok() && x.snap().st() == c && x.path() == idx(s1) && m == nkids(c) ==> back_inv(#[trigger] s1.push((x, m)), t, n) && 0 <= behind(s1.push((x, m)), t) < behind(s0, t)
            }
        }),
{
    let d = s0.drop_last();
    let e = s0.last();
    let q = idx(d);
    let b = at(t, q);
    let i = e.1 as int;
    assert(b == e.0.snap().st());
    chain_pop(s0);
    path_split(idx(s0));
    path_wf(t, q, false);
    off_push(t, q, i);
    fuel_push(t, q, i);
    fuel_pos(t, idx(s0));
    fuel_pos(t, q);
    off_ents(t, q);
    if d.len() > 0 { chain_pop(d); assert(d[0] == s0[0]); }
    if i > 0 {
        let j = i - 1;
        before_next(b, j);
        off_push(t, q, j);
        fuel_push(t, q, j);
        path_push(t, q, j);
        path_wf(t, q.push(j), false);
        off_ents(t, q.push(j));
        wts_next(b, j);
        let c = b->kids[j];
        let s1 = d.push((e.0, (e.1 - 1) as isize));
        chain_push(d, t, seq![], (e.0, (e.1 - 1) as isize));
        chain_root(s1, t, seq![]);
        assert(seq![] + idx(s1) =~= idx(s1));
        assert forall|x: BPtr<K, V, C>, m: isize| x.snap().ok() && x.snap().st() == c && x.path() == idx(s1) && m == nkids(c) implies back_inv(#[trigger] s1.push((x, m)), t, n) && 0 <= behind(s1.push((x, m)), t) < behind(s0, t) by {
            let s2 = s1.push((x, m));
            chain_push(s1, t, seq![], (x, m));
            chain_root(s2, t, seq![]);
            off_push(t, idx(s1), m as int);
            fuel_push(t, idx(s1), m as int);
            path_push(t, idx(s1), m as int);
            before_whole(c);
            fuel_pos(t, idx(s2));
        }
    } else {
        end_up(t, idx(s0));
    }
}

pub proof fn at_leaf<K, V>(t: ST<K, V>, p: Seq<int>, es: Seq<(K, V)>)
    ensures at(t, p) == ST::L(es) ==> ents(at(t, p)) == es
{
}

pub proof fn leaf_at<K, V>(t: ST<K, V>, p: Seq<int>)
    ensures at(t, p) is L ==> ents(at(t, p)) == at(t, p)->L_0
{
}

pub proof fn fwd_start<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, t: ST<K, V>)
    requires leads(s, t)
    ensures fwd_inv(s, t, end(t, idx(s))), back_inv(s, t, off(t, idx(s))), end(t, idx(s)) == off(t, idx(s)) + ents(at(t, idx(s))).len()
{
    chain_pop(s);
    path_split(idx(s));
    off_ents(t, idx(s));
}

// The last key not above x, or the first key, and what that says about x's place.
pub proof fn prev_pos<K, V>(es: Seq<(K, V)>, x: real, r: int)
    requires
        sorted(es), 0 <= r < es.len(), rank(es[r].0) <= x || r == 0,
        forall|j: int| r < j < es.len() ==> rank((#[trigger] es[j]).0) > x,
    ensures
        rank(es[r].0) <= x ==> ub(es, x) == r + 1,
        rank(es[r].0) < x ==> lb(es, x) == r + 1,
        rank(es[r].0) == x ==> lb(es, x) == r,
        rank(es[r].0) > x ==> r == 0 && lb(es, x) == 0 && ub(es, x) == 0,
{
    sorted_elim(es);
    if rank(es[r].0) < x { lb_is(es, x, r + 1); } else { lb_is(es, x, r); }
}
