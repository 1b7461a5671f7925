// Part of the generated proof file: what the extracted code is written against.
// Everything marked external_body, uninterp, axiom or assume_specification here is TRUSTED.

pub trait ArrayLength: Sized { const USIZE: usize; }

pub trait TreeConfig<K, V>: Sized {
    type BranchSize: ArrayLength;
    type LeafSize: ArrayLength;
    type PointerKind;
}

pub open spec fn bsize<K, V, C: TreeConfig<K, V>>() -> nat { C::BranchSize::USIZE as nat }
pub open spec fn lsize<K, V, C: TreeConfig<K, V>>() -> nat { C::LeafSize::USIZE as nat }

// The documented bound on node capacities (IsGreater<U3>), and an upper bound that every array
// that fits in memory meets.
pub broadcast axiom fn axiom_sizes<N: ArrayLength>()
    ensures 4 <= #[trigger] N::USIZE < 0x1000_0000;

// ---------------------------------------------------------------------------------------------
// Keys: a lawful total order, embedded in the reals (every countable total order embeds there).

pub uninterp spec fn rank<K>(k: K) -> real;

pub open spec fn ord_of(a: real, b: real) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

pub broadcast axiom fn axiom_ord_obeys<K: Ord>()
    ensures #[trigger] K::obeys_cmp_spec();
pub broadcast axiom fn axiom_pord_obeys<K: Ord>()
    ensures #[trigger] K::obeys_partial_cmp_spec();
pub broadcast axiom fn axiom_eq_obeys<K: Ord>()
    ensures #[trigger] K::obeys_eq_spec();
pub broadcast axiom fn axiom_ord<K: Ord>(a: &K, b: &K)
    ensures #[trigger] a.cmp_spec(b) == ord_of(rank(*a), rank(*b));
pub broadcast axiom fn axiom_pord<K: Ord>(a: &K, b: &K)
    ensures #[trigger] a.partial_cmp_spec(b) == Some(ord_of(rank(*a), rank(*b)));
pub broadcast axiom fn axiom_eq<K: Ord>(a: &K, b: &K)
    ensures #[trigger] a.eq_spec(b) == (rank(*a) == rank(*b));

// `==` on std::cmp::Ordering.
pub broadcast axiom fn axiom_ordering_obeys()
    ensures #[trigger] <Ordering as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_ordering_eq(a: Ordering, b: Ordering)
    ensures #[trigger] a.eq_spec(&b) == (a == b);

// Clone gives back an indistinguishable key or value.
pub broadcast axiom fn axiom_cloned<T: Clone>(a: T, b: T)
    ensures #[trigger] cloned(a, b) ==> a == b;
pub broadcast axiom fn axiom_clone<T: Clone>(a: T, b: T)
    ensures #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b;

pub broadcast group group_laws {
    axiom_ord_obeys, axiom_pord_obeys, axiom_eq_obeys, axiom_ord, axiom_pord, axiom_eq,
    axiom_ordering_obeys, axiom_ordering_eq, axiom_cloned, axiom_clone, axiom_sizes, axiom_arr_len,
}

// ---------------------------------------------------------------------------------------------
// Array: `MaybeUninit<[A; N]>`, seen as N slots that hold a value or nothing.

#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
#[verifier::reject_recursive_types(N)]
pub struct Array<A, N: ArrayLength> { d: std::marker::PhantomData<(A, N)> }

impl<A, N: ArrayLength> View for Array<A, N> {
    type V = Seq<Option<A>>;
    uninterp spec fn view(&self) -> Seq<Option<A>>;
}

pub broadcast axiom fn axiom_arr_len<A, N: ArrayLength>(a: Array<A, N>)
    ensures (#[trigger] a@).len() == N::USIZE;
pub axiom fn axiom_arr_height<A, N: ArrayLength>(a: Array<A, N>, i: int)
    ensures 0 <= i < a@.len() ==> decreases_to!(a => a@[i]);

// The first n slots hold values and no other slot does.
pub open spec fn live<A>(s: Seq<Option<A>>, n: int) -> bool {
    &&& 0 <= n <= s.len()
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (s[i] is Some <==> i < n)
}

pub open spec fn vals<A>(s: Seq<Option<A>>, n: int) -> Seq<A> {
    Seq::new(n as nat, |i: int| s[i]->0)
}

// The same slots with other values in the first of them.
pub open spec fn refill<A>(s: Seq<Option<A>>, xs: Seq<A>) -> Seq<Option<A>> {
    Seq::new(s.len(), |i: int| if i < xs.len() { Some(xs[i]) } else { s[i] })
}

pub broadcast proof fn refill_vals<A>(s: Seq<Option<A>>, xs: Seq<A>, n: int)
    requires xs.len() == n <= s.len()
    ensures #[trigger] vals(refill(s, xs), n) == xs, live(s, n) ==> live(refill(s, xs), n)
{
    assert(vals(refill(s, xs), n) =~= xs);
}

pub open spec fn moved<A>(s: Seq<Option<A>>, from: int, to: int, n: int) -> Seq<Option<A>> {
    Seq::new(s.len(), |i: int|
        if to <= i < to + n { s[i - to + from] }
        else if from <= i < from + n { None }
        else { s[i] })
}

impl<A, N: ArrayLength> Array<A, N> {
    #[verifier::external_body]
    pub fn uninit() -> (r: Self)
        ensures forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is None
    { unimplemented!() }

    // ptr::write to a slot: the slot must not hold a value, which would be leaked.
    #[verifier::external_body]
    pub fn slot_write(&mut self, i: usize, value: A)
        requires i < old(self)@.len(), old(self)@[i as int] is None
        ensures final(self)@ == old(self)@.update(i as int, Some(value))
    { unimplemented!() }

    // ptr::read from a slot: the value moves out.
    #[verifier::external_body]
    pub fn slot_read(&mut self, i: usize) -> (r: A)
        requires i < old(self)@.len(), old(self)@[i as int] is Some
        ensures final(self)@ == old(self)@.update(i as int, None), r == old(self)@[i as int]->0
    { unimplemented!() }

    // ptr::copy_to within the array (memmove): the values move; none may be overwritten.
    #[verifier::external_body]
    pub fn slot_copy(&mut self, from: usize, to: usize, n: usize)
        requires
            from + n <= old(self)@.len(), to + n <= old(self)@.len(),
            forall|i: int| from <= i < from + n ==> (#[trigger] old(self)@[i]) is Some,
            forall|i: int| to <= i < to + n && !(from <= i < from + n) ==> (#[trigger] old(self)@[i]) is None,
        ensures final(self)@ == moved(old(self)@, from as int, to as int, n as int)
    { unimplemented!() }

    // copy_from_nonoverlapping from another array: the values move over.
    #[verifier::external_body]
    pub fn slot_take_from<N2: ArrayLength>(&mut self, to: usize, other: &mut Array<A, N2>, from: usize, n: usize)
        requires
            from + n <= old(other)@.len(), to + n <= old(self)@.len(),
            forall|i: int| from <= i < from + n ==> (#[trigger] old(other)@[i]) is Some,
            forall|i: int| to <= i < to + n ==> (#[trigger] old(self)@[i]) is None,
        ensures
            final(self)@ == Seq::new(old(self)@.len(), |i: int|
                if to <= i < to + n { old(other)@[i - to + from] } else { old(self)@[i] }),
            final(other)@ == Seq::new(old(other)@.len(), |i: int|
                if from <= i < from + n { None } else { old(other)@[i] }),
    { unimplemented!() }

    // slice::from_raw_parts over the first n slots.
    #[verifier::external_body]
    pub fn slots(&self, n: usize) -> (r: &[A])
        requires n <= self@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] self@[i]) is Some
        ensures r@ == vals(self@, n as int)
    { unimplemented!() }

    #[verifier::external_body]
    pub fn slots_mut(&mut self, n: usize) -> (r: &mut [A])
        requires n <= old(self)@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] old(self)@[i]) is Some
        ensures
            r@ == vals(old(self)@, n as int),
            final(r)@.len() == n ==> final(self)@ == Seq::new(old(self)@.len(), |i: int|
                if i < n { Some(final(r)@[i]) } else { old(self)@[i] }),
    { unimplemented!() }

    // drop_in_place of the first n slots.
    #[verifier::external_body]
    pub fn slots_drop(&mut self, n: usize)
        requires n <= old(self)@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] old(self)@[i]) is Some
        ensures final(self)@ == Seq::new(old(self)@.len(), |i: int| if i < n { None } else { old(self)@[i] })
    { unimplemented!() }
}

// ---------------------------------------------------------------------------------------------
// Pointer: Box, Rc or Arc behind one interface.

// What cloning behind a shared pointer may assume and must give.
pub trait Mirror: Sized {
    spec fn sound(&self) -> bool;
    spec fn same(&self, o: &Self) -> bool;
}

#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
#[verifier::reject_recursive_types(Kind)]
pub struct Pointer<A, Kind> { d: std::marker::PhantomData<(A, Kind)> }

impl<A, Kind> View for Pointer<A, Kind> {
    type V = A;
    uninterp spec fn view(&self) -> A;
}

pub axiom fn axiom_ptr_height<A, Kind>(p: Pointer<A, Kind>)
    ensures #[trigger] decreases_to!(p => p@);

impl<A, Kind> Deref for Pointer<A, Kind> {
    type Target = A;
    #[verifier::external_body]
    fn deref(&self) -> (r: &A)
        ensures *r == self@
    { unimplemented!() }
}

impl<A, Kind> Pointer<A, Kind> {
    // Nobody else holds a pointer to the same allocation.
    pub uninterp spec fn excl(&self) -> bool;

    #[verifier::external_body]
    pub fn new(value: A) -> (r: Self)
        ensures r@ == value, r.excl()
    { unimplemented!() }

    // Box: the value.  Rc/Arc: the value if nobody shares it, otherwise a fresh clone of it.
    #[verifier::external_body]
    pub fn make_mut(this: &mut Self) -> (r: &mut A)
        where A: Mirror
        requires old(this)@.sound()
        ensures
            r.same(&old(this)@), old(this).excl() ==> *r == old(this)@,
            final(this)@ == *final(r), final(this).excl(),
    { unimplemented!() }
}

// Option<Pointer>::clone.  Box: a clone of the value.  Rc/Arc: another pointer to the same value.
// (No Clone impl: axiom_cloned is about keys and values and must not reach pointers.)
impl<A: Mirror, Kind> Pointer<A, Kind> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        requires self@.sound()
        ensures r@.same(&self@)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn clone_ptr<A: Mirror, Kind>(p: &Option<Pointer<A, Kind>>) -> (r: Option<Pointer<A, Kind>>)
    requires *p is Some ==> (*p)->0@.sound()
    ensures r is Some == *p is Some, *p is Some ==> r->0@.same(&(*p)->0@)
{ unimplemented!() }

// ---------------------------------------------------------------------------------------------
// Option helpers the crate uses and vstd does not specify, and std::mem::replace.

pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

pub assume_specification<T, E> [std::result::Result::<T, E>::expect_err] (r: std::result::Result<T, E>, m: &str) -> (e: E)
    where T: std::fmt::Debug,
    requires r is Err
    ensures e == r->Err_0;

pub assume_specification<T> [std::mem::needs_drop::<T>] () -> (r: bool) where T: ?Sized;

pub fn rt_assert(b: bool)
    requires b
{ }

// Is this a build with debug assertions?  Either; the same all along.
pub uninterp spec fn in_debug() -> bool;

#[verifier::external_body]
pub fn rt_debug() -> (r: bool)
    ensures r == in_debug()
{ unimplemented!() }

#[verifier::external_body]
pub fn rt_unreachable<T>() -> (r: T)
    requires false
{ unimplemented!() }

pub fn rt_stop()
    requires false
{ }

pub trait SliceX<T> {
    spec fn sq(&self) -> Seq<T>;
    fn get_un(&self, i: usize) -> (r: &T)
        requires i < self.sq().len()
        ensures *r == self.sq()[i as int];
    fn get_un_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).sq().len()
        ensures *r == old(self).sq()[i as int], final(self).sq() == old(self).sq().update(i as int, *final(r));
    // [T]::binary_search on a strictly ascending slice.
    fn bsearch(&self, x: &T) -> (r: Result<usize, usize>)
        where T: Ord
        requires sortedk(self.sq())
        ensures match r {
            Ok(i) => i < self.sq().len() && i == lbk(self.sq(), rank(*x)) && rank(self.sq()[i as int]) == rank(*x),
            Err(i) => i <= self.sq().len() && i == lbk(self.sq(), rank(*x))
                && (i < self.sq().len() ==> rank(self.sq()[i as int]) != rank(*x)),
        };
}

impl<T> SliceX<T> for [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    fn get_un(&self, i: usize) -> (r: &T) { &self[i] }
    fn get_un_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
    #[verifier::external_body]
    fn bsearch(&self, x: &T) -> (r: Result<usize, usize>) where T: Ord { self.binary_search(x) }
}

// Into/From as the crate uses them.
pub trait Conv<T>: Sized {
    spec fn conv_rel(self, r: T) -> bool;
    fn conv(self) -> (r: T)
        ensures self.conv_rel(r);
}

impl<A, Kind> Conv<Pointer<A, Kind>> for A {
    open spec fn conv_rel(self, r: Pointer<A, Kind>) -> bool { r@ == self && r.excl() }
    fn conv(self) -> (r: Pointer<A, Kind>) { Pointer::new(self) }
}

// A documented panic: the code does not go on past it.
#[verifier::external_body]
pub fn rt_diverge<T>() -> (r: T)
    ensures false
{ unimplemented!() }

// No node has been written to since the cursor took its pointers.  True where the tree is borrowed
// for as long as the cursor lives (the modules cursor, iter and muti, which say so by using the
// axiom); the functions that edit the tree under a cursor never have it, and reach every node
// through the root.
pub uninterp spec fn unwritten(path: Seq<int>) -> bool;
pub broadcast axiom fn axiom_unwritten(path: Seq<int>)
    ensures #[trigger] unwritten(path);

// `drop ( x )`: what becomes of a value that goes out of scope is Rust's business.
pub fn rt_gone<T>(x: T) {}
