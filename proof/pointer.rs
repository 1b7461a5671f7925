// pointer.rs and branch/node.rs on a model of Box, Rc and Arc.  No other module sees these names: the
// rest of the proof uses the contracts of Pointer in base and of Node in conc, which this module shows
// the crate's code to meet for pointers that are well typed (`ok`); every function that makes a pointer
// is shown to make a well typed one.

// What an allocation holds, whatever its type.
#[verifier::external_body]
pub struct Any { d: PhantomData<()> }
pub uninterp spec fn any<A>(a: A) -> Any;
pub uninterp spec fn un<A>(x: Any) -> Option<A>;      // the value, if seeing an A there is sound
pub uninterp spec fn is<A>(x: Any) -> bool;           // it was allocated as an A
pub broadcast axiom fn axiom_any<A>(a: A)
    ensures un::<A>(#[trigger] any(a)) == Some(a), is::<A>(any(a));

pub enum How { Box, Rc, Arc }

// A pointer that owns (a share of) an allocation.
pub ghost struct Held { pub how: How, pub obj: Any, pub excl: bool }

pub open spec fn now<A>(how: How, a: A) -> Held { Held { how, obj: any(a), excl: true } }

// A copy of a pointer's allocation or another share of it.
pub open spec fn twin<A: Mirror>(h: Held, r: Held) -> bool {
    r.how == h.how && un::<A>(r.obj) is Some && un::<A>(r.obj)->0.same(&un::<A>(h.obj)->0) && (is::<A>(h.obj) ==> is::<A>(r.obj))
}

// std::ptr::NonNull and *mut, TRUSTED and linear: using one twice is refused.
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct NonNull<A> { d: PhantomData<A> }
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Raw<A> { d: PhantomData<A> }
impl<A> View for NonNull<A> { type V = Held; uninterp spec fn view(&self) -> Held; }
impl<A> View for Raw<A> { type V = Held; uninterp spec fn view(&self) -> Held; }

impl<A> NonNull<A> {
    #[verifier::external_body]
    pub fn as_mut(self) -> (r: Raw<A>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(self) -> (r: Raw<A>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn new_unchecked(p: Raw<A>) -> (r: Self) ensures r@ == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn cast<B>(self) -> (r: NonNull<B>) ensures r@ == self@ { unimplemented!() }
}

// std::boxed::Box, std::rc::Rc, std::sync::Arc, TRUSTED.
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Box<A> { d: PhantomData<A> }
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Rc<A> { d: PhantomData<A> }
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Arc<A> { d: PhantomData<A> }

pub trait Handle: Sized {
    spec fn held(&self) -> Held;
    spec fn how() -> How;
    spec fn own(h: Held) -> bool;     // dropping it is sound
}
impl<A> Handle for Box<A> {
    uninterp spec fn held(&self) -> Held;
    open spec fn how() -> How { How::Box }
    open spec fn own(h: Held) -> bool { is::<A>(h.obj) }
}
impl<A> Handle for Rc<A> {
    uninterp spec fn held(&self) -> Held;
    open spec fn how() -> How { How::Rc }
    open spec fn own(h: Held) -> bool { is::<A>(h.obj) }
}
impl<A> Handle for Arc<A> {
    uninterp spec fn held(&self) -> Held;
    open spec fn how() -> How { How::Arc }
    open spec fn own(h: Held) -> bool { is::<A>(h.obj) }
}

impl<A> Conv<NonNull<A>> for Raw<A> {
    open spec fn conv_rel(self, r: NonNull<A>) -> bool { r@ == self@ }
    fn conv(self) -> (r: NonNull<A>) { NonNull::new_unchecked(self) }
}

impl<A> Box<A> {
    #[verifier::external_body]
    pub fn new(value: A) -> (r: Self) ensures r.held() == now(How::Box, value) { unimplemented!() }
    #[verifier::external_body]
    pub fn leak(b: Self) -> (r: Raw<A>) ensures r@ == b.held() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(p: Raw<A>) -> (r: Self) requires p@.how == How::Box ensures r.held() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &A) requires un::<A>(self.held().obj) is Some ensures *r == un::<A>(self.held().obj)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn deref_mut(&mut self) -> (r: &mut A)
        requires un::<A>(old(self).held().obj) is Some
        ensures *r == un::<A>(old(self).held().obj)->0, final(self).held() == now(How::Box, *final(r))
    { unimplemented!() }
}

impl<A> Rc<A> {
    #[verifier::external_body]
    pub fn new(value: A) -> (r: Self) ensures r.held() == now(How::Rc, value) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_raw(b: Self) -> (r: Raw<A>) ensures r@ == b.held() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(p: Raw<A>) -> (r: Self) requires p@.how == How::Rc ensures r.held() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &A) requires un::<A>(self.held().obj) is Some ensures *r == un::<A>(self.held().obj)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.held().how == How::Rc, r.held().obj == self.held().obj { unimplemented!() }
    // The value itself if nobody shares it, otherwise a clone of it.
    #[verifier::external_body]
    pub fn make_mut(this: &mut Self) -> (r: &mut A)
        where A: Mirror
        requires un::<A>(old(this).held().obj) is Some, un::<A>(old(this).held().obj)->0.sound()
        ensures
            r.same(&un::<A>(old(this).held().obj)->0),
            old(this).held().excl ==> *r == un::<A>(old(this).held().obj)->0,
            final(this).held() == now(How::Rc, *final(r)),
    { unimplemented!() }
}

impl<A> Arc<A> {
    #[verifier::external_body]
    pub fn new(value: A) -> (r: Self) ensures r.held() == now(How::Arc, value) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_raw(b: Self) -> (r: Raw<A>) ensures r@ == b.held() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(p: Raw<A>) -> (r: Self) requires p@.how == How::Arc ensures r.held() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &A) requires un::<A>(self.held().obj) is Some ensures *r == un::<A>(self.held().obj)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.held().how == How::Arc, r.held().obj == self.held().obj { unimplemented!() }
    #[verifier::external_body]
    pub fn make_mut(this: &mut Self) -> (r: &mut A)
        where A: Mirror
        requires un::<A>(old(this).held().obj) is Some, un::<A>(old(this).held().obj)->0.sound()
        ensures
            r.same(&un::<A>(old(this).held().obj)->0),
            old(this).held().excl ==> *r == un::<A>(old(this).held().obj)->0,
            final(this).held() == now(How::Arc, *final(r)),
    { unimplemented!() }
}

// MaybeUninit<Box<()>> and its like: one machine word, holding a pointer or nothing.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MaybeUninit<T> { d: PhantomData<T> }
impl<T> View for MaybeUninit<T> { type V = Option<Held>; uninterp spec fn view(&self) -> Option<Held>; }

impl<T> MaybeUninit<T> {
    #[verifier::external_body]
    pub fn uninit() -> (r: Self) ensures r@ is None { unimplemented!() }
    #[verifier::external_body]
    pub fn put<H: Handle>(&mut self, h: H)
        requires old(self)@ is None
        ensures final(self)@ == Some(h.held()), h.held().how == H::how()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn out<H: Handle>(self) -> (r: H)
        requires self@ is Some, self@->0.how == H::how()
        ensures r.held() == self@->0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at<H: Handle>(&self) -> (r: &H)
        requires self@ is Some, self@->0.how == H::how()
        ensures r.held() == self@->0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at_mut<H: Handle>(&mut self) -> (r: &mut H)
        requires old(self)@ is Some, old(self)@->0.how == H::how()
        ensures r.held() == old(self)@->0, final(self)@ == Some(final(r).held())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drop_at<H: Handle>(&mut self)
        requires old(self)@ is Some, old(self)@->0.how == H::how(), H::own(old(self)@->0)
        ensures final(self)@ is None
    { unimplemented!() }
}

// std::mem::ManuallyDrop, TRUSTED.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ManuallyDrop<T> { d: PhantomData<T> }
impl<T> View for ManuallyDrop<T> { type V = Option<T>; uninterp spec fn view(&self) -> Option<T>; }

impl<T> ManuallyDrop<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r@ == Some(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(m: Self) -> (r: T) requires m@ is Some ensures m@ == Some(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(m: &mut Self) -> (r: T) requires old(m)@ is Some ensures old(m)@ == Some(r), final(m)@ is None { unimplemented!() }
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &T) requires self@ is Some ensures *r == self@->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn deref_mut(&mut self) -> (r: &mut T) requires old(self)@ is Some ensures *r == old(self)@->0, final(self)@ == Some(*final(r)) { unimplemented!() }
}

// The clones Box, Rc and Arc make.
pub trait Copies: Mirror {
    fn copy(&self) -> (r: Self)
        requires self.sound()
        ensures r.same(self);
    proof fn refl(&self)
        requires self.sound()
        ensures self.same(self);
}
impl<K: Clone, V: Clone, C: TreeConfig<K, V>> Copies for Leaf<K, V, C> {
    fn copy(&self) -> (r: Self) { self.clone() }
    proof fn refl(&self) { }
}
impl<K: Clone, V: Clone, C: TreeConfig<K, V>> Copies for Branch<K, V, C> {
    fn copy(&self) -> (r: Self) { self.clone() }
    proof fn refl(&self) { }
}

//= struct pointer.rs Unique
//= struct pointer.rs Shared
//= struct pointer.rs SyncShared

pub open spec fn word<A>(w: Option<Held>, how: How) -> bool { w is Some && w->0.how == how && un::<A>(w->0.obj) is Some }

// pointer.rs's trait, with the contract Pointer relies on.
pub trait PointerKind: Sized {
    spec fn held(&self) -> Option<Held>;
    spec fn how() -> How;
    fn new<A>(value: A) -> (r: Self)
        ensures r.held() == Some(now(Self::how(), value));
    fn into_raw<A>(self) -> (r: NonNull<A>)
        requires self.held() is Some, self.held()->0.how == Self::how()
        ensures r@ == self.held()->0;
    fn from_raw<A>(ptr: NonNull<A>) -> (r: Self)
        requires ptr@.how == Self::how()
        ensures r.held() == Some(ptr@);
    fn deref<A>(&self) -> (r: &A)
        requires word::<A>(self.held(), Self::how())
        ensures *r == un::<A>(self.held()->0.obj)->0;
    fn make_mut<A: Copies>(&mut self) -> (r: &mut A)
        requires word::<A>(old(self).held(), Self::how()), un::<A>(old(self).held()->0.obj)->0.sound()
        ensures
            r.same(&un::<A>(old(self).held()->0.obj)->0), old(self).held()->0.excl ==> *r == un::<A>(old(self).held()->0.obj)->0,
            final(self).held() == Some(now(Self::how(), *final(r)));
    fn drop_ptr<A>(&mut self)
        requires old(self).held() is Some, old(self).held()->0.how == Self::how(), is::<A>(old(self).held()->0.obj)
        ensures final(self).held() is None;
    fn clone<A: Copies>(&self) -> (r: Self)
        requires word::<A>(self.held(), Self::how()), un::<A>(self.held()->0.obj)->0.sound()
        ensures r.held() is Some, twin::<A>(self.held()->0, r.held()->0);
}

impl PointerKind for Unique {
    open spec fn held(&self) -> Option<Held> { self.data@ }
    open spec fn how() -> How { How::Box }
    fn new<A>(value: A) -> (r: Self) { Unique::new::<A>(value) }
    fn into_raw<A>(self) -> (r: NonNull<A>) { Unique::into_raw::<A>(self) }
    fn from_raw<A>(ptr: NonNull<A>) -> (r: Self) { Unique::from_raw::<A>(ptr) }
    fn deref<A>(&self) -> (r: &A) { Unique::deref::<A>(self) }
    fn make_mut<A: Copies>(&mut self) -> (r: &mut A) { Unique::make_mut::<A>(self) }
    fn drop_ptr<A>(&mut self) { Unique::drop_ptr::<A>(self) }
    fn clone<A: Copies>(&self) -> (r: Self) { Unique::clone::<A>(self) }
}

impl Unique {
    pub fn uninit() -> (r: Self) ensures r.data@ is None { Unique { data: MaybeUninit::uninit() } }
}

impl PointerKind for Shared {
    open spec fn held(&self) -> Option<Held> { self.data@ }
    open spec fn how() -> How { How::Rc }
    fn new<A>(value: A) -> (r: Self) { Shared::new::<A>(value) }
    fn into_raw<A>(self) -> (r: NonNull<A>) { Shared::into_raw::<A>(self) }
    fn from_raw<A>(ptr: NonNull<A>) -> (r: Self) { Shared::from_raw::<A>(ptr) }
    fn deref<A>(&self) -> (r: &A) { Shared::deref::<A>(self) }
    fn make_mut<A: Copies>(&mut self) -> (r: &mut A) { Shared::make_mut::<A>(self) }
    fn drop_ptr<A>(&mut self) { Shared::drop_ptr::<A>(self) }
    fn clone<A: Copies>(&self) -> (r: Self) { Shared::clone::<A>(self) }
}

impl Shared {
    pub fn uninit() -> (r: Self) ensures r.data@ is None { Shared { data: MaybeUninit::uninit() } }
}

impl PointerKind for SyncShared {
    open spec fn held(&self) -> Option<Held> { self.data@ }
    open spec fn how() -> How { How::Arc }
    fn new<A>(value: A) -> (r: Self) { SyncShared::new::<A>(value) }
    fn into_raw<A>(self) -> (r: NonNull<A>) { SyncShared::into_raw::<A>(self) }
    fn from_raw<A>(ptr: NonNull<A>) -> (r: Self) { SyncShared::from_raw::<A>(ptr) }
    fn deref<A>(&self) -> (r: &A) { SyncShared::deref::<A>(self) }
    fn make_mut<A: Copies>(&mut self) -> (r: &mut A) { SyncShared::make_mut::<A>(self) }
    fn drop_ptr<A>(&mut self) { SyncShared::drop_ptr::<A>(self) }
    fn clone<A: Copies>(&self) -> (r: Self) { SyncShared::clone::<A>(self) }
}

impl SyncShared {
    pub fn uninit() -> (r: Self) ensures r.data@ is None { SyncShared { data: MaybeUninit::uninit() } }
}

//= struct pointer.rs Pointer
//= struct branch/node.rs Node where C: TreeConfig<K, V>, C::PointerKind: PointerKind

impl<A, Kind: PointerKind> Pointer<A, Kind> {
    pub open spec fn held(&self) -> Held { self.data@->0.held()->0 }
    // It holds an allocation of its kind,
    pub open spec fn full(&self) -> bool { self.data@ is Some && self.data@->0.held() is Some && self.held().how == Kind::how() }
    // in which an A is to be seen.
    pub open spec fn sees<B>(&self) -> bool { self.full() && un::<B>(self.held().obj) is Some && is::<B>(self.held().obj) }
    pub open spec fn as_b<B>(&self) -> B { un::<B>(self.held().obj)->0 }
    pub open spec fn ok(&self) -> bool { self.sees::<A>() }
    pub open spec fn excl(&self) -> bool { self.held().excl }
}

impl<A, Kind: PointerKind> View for Pointer<A, Kind> {
    type V = A;
    open spec fn view(&self) -> A { self.as_b::<A>() }
}

impl<K, V, C: TreeConfig<K, V>> Node<K, V, C> where C::PointerKind: PointerKind {
    pub open spec fn p(&self) -> Pointer<(), C::PointerKind> { self.node@->0 }
    pub open spec fn is_b(&self) -> bool { self.node@ is Some && self.p().sees::<Branch<K, V, C>>() }
    pub open spec fn is_l(&self) -> bool { self.node@ is Some && self.p().sees::<Leaf<K, V, C>>() }
    pub open spec fn b(&self) -> Branch<K, V, C> { self.p().as_b::<Branch<K, V, C>>() }
    pub open spec fn l(&self) -> Leaf<K, V, C> { self.p().as_b::<Leaf<K, V, C>>() }
    pub open spec fn excl(&self) -> bool { self.p().excl() }
}

// std::mem::forget of a pointer: it must not hold anything any more, or that would be leaked.
#[verifier::external_body]
pub fn rt_forget<A, Kind: PointerKind>(p: Pointer<A, Kind>)
    requires p.data@ is None
{ unimplemented!() }

// What the end of a scope does to a pointer still in it: Pointer::drop.
#[verifier::external_body]
pub fn rt_drop<A, Kind: PointerKind>(p: Pointer<A, Kind>)
    requires p.ok()
{ unimplemented!() }
