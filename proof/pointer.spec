// Contracts on pointer.rs and branch/node.rs.

//@ fn Unique::from_box in pointer.rs
//@ props C11 C12 C13
//@ spec
    ensures r.data@ == Some(data.held()), data.held().how == How::Box

//@ fn Unique::cast_into in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires self.data@ is Some, self.data@->0.how == How::Box
    ensures r.held() == self.data@->0

//@ fn Unique as PointerKind::new in pointer.rs
//@ props C11 C12 C13
//@ spec
    ensures r.data@ == Some(now(How::Box, value))

//@ fn Unique as PointerKind::into_raw in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires self.data@ is Some, self.data@->0.how == How::Box
    ensures r@ == self.data@->0

//@ fn Unique as PointerKind::from_raw in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires ptr@.how == How::Box
    ensures r.data@ == Some(ptr@)

//@ fn Unique as PointerKind::deref in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires word::<A>(self.data@, How::Box)
    ensures *r == un::<A>(self.data@->0.obj)->0

//@ fn Unique as PointerKind::make_mut in pointer.rs
//@ props C11 C12 C13
//@ generics A: Copies
//@ spec
    requires word::<A>(old(self).data@, How::Box), un::<A>(old(self).data@->0.obj)->0.sound()
    ensures
        r.same(&un::<A>(old(self).data@->0.obj)->0), old(self).data@->0.excl ==> *r == un::<A>(old(self).data@->0.obj)->0,
        final(self).data@ == Some(now(How::Box, *final(r)))
//@ start
    proof { un::<A>(self.data@->0.obj)->0.refl(); }

//@ fn Unique as PointerKind::drop_ptr in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires old(self).data@ is Some, old(self).data@->0.how == How::Box, is::<A>(old(self).data@->0.obj)
    ensures final(self).data@ is None

//@ fn Unique as PointerKind::clone in pointer.rs
//@ props C11 C12 C13
//@ generics A: Copies
//@ spec
    requires word::<A>(self.data@, How::Box), un::<A>(self.data@->0.obj)->0.sound()
    ensures r.data@ is Some, twin::<A>(self.data@->0, r.data@->0)
//@ start
    broadcast use axiom_any;
    proof { un::<A>(self.data@->0.obj)->0.refl(); }

//@ fn Shared::from_rc in pointer.rs
//@ props C11 C12 C13
//@ spec
    ensures r.data@ == Some(data.held()), data.held().how == How::Rc

//@ fn Shared::cast_into in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires self.data@ is Some, self.data@->0.how == How::Rc
    ensures r.held() == self.data@->0

//@ fn Shared as PointerKind::new in pointer.rs
//@ props C11 C12 C13
//@ spec
    ensures r.data@ == Some(now(How::Rc, value))

//@ fn Shared as PointerKind::into_raw in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires self.data@ is Some, self.data@->0.how == How::Rc
    ensures r@ == self.data@->0

//@ fn Shared as PointerKind::from_raw in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires ptr@.how == How::Rc
    ensures r.data@ == Some(ptr@)

//@ fn Shared as PointerKind::deref in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires word::<A>(self.data@, How::Rc)
    ensures *r == un::<A>(self.data@->0.obj)->0

//@ fn Shared as PointerKind::make_mut in pointer.rs
//@ props C11 C12 C13
//@ generics A: Copies
//@ spec
    requires word::<A>(old(self).data@, How::Rc), un::<A>(old(self).data@->0.obj)->0.sound()
    ensures
        r.same(&un::<A>(old(self).data@->0.obj)->0), old(self).data@->0.excl ==> *r == un::<A>(old(self).data@->0.obj)->0,
        final(self).data@ == Some(now(How::Rc, *final(r)))

//@ fn Shared as PointerKind::drop_ptr in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires old(self).data@ is Some, old(self).data@->0.how == How::Rc, is::<A>(old(self).data@->0.obj)
    ensures final(self).data@ is None

//@ fn Shared as PointerKind::clone in pointer.rs
//@ props C11 C12 C13
//@ generics A: Copies
//@ spec
    requires word::<A>(self.data@, How::Rc), un::<A>(self.data@->0.obj)->0.sound()
    ensures r.data@ is Some, twin::<A>(self.data@->0, r.data@->0)
//@ start
    proof { un::<A>(self.data@->0.obj)->0.refl(); }

//@ fn SyncShared::from_arc in pointer.rs
//@ props C11 C12 C13
//@ spec
    ensures r.data@ == Some(data.held()), data.held().how == How::Arc

//@ fn SyncShared::cast_into in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires self.data@ is Some, self.data@->0.how == How::Arc
    ensures r.held() == self.data@->0

//@ fn SyncShared as PointerKind::new in pointer.rs
//@ props C11 C12 C13
//@ spec
    ensures r.data@ == Some(now(How::Arc, value))

//@ fn SyncShared as PointerKind::into_raw in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires self.data@ is Some, self.data@->0.how == How::Arc
    ensures r@ == self.data@->0

//@ fn SyncShared as PointerKind::from_raw in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires ptr@.how == How::Arc
    ensures r.data@ == Some(ptr@)

//@ fn SyncShared as PointerKind::deref in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires word::<A>(self.data@, How::Arc)
    ensures *r == un::<A>(self.data@->0.obj)->0

//@ fn SyncShared as PointerKind::make_mut in pointer.rs
//@ props C11 C12 C13
//@ generics A: Copies
//@ spec
    requires word::<A>(old(self).data@, How::Arc), un::<A>(old(self).data@->0.obj)->0.sound()
    ensures
        r.same(&un::<A>(old(self).data@->0.obj)->0), old(self).data@->0.excl ==> *r == un::<A>(old(self).data@->0.obj)->0,
        final(self).data@ == Some(now(How::Arc, *final(r)))

//@ fn SyncShared as PointerKind::drop_ptr in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires old(self).data@ is Some, old(self).data@->0.how == How::Arc, is::<A>(old(self).data@->0.obj)
    ensures final(self).data@ is None

//@ fn SyncShared as PointerKind::clone in pointer.rs
//@ props C11 C12 C13
//@ generics A: Copies
//@ spec
    requires word::<A>(self.data@, How::Arc), un::<A>(self.data@->0.obj)->0.sound()
    ensures r.data@ is Some, twin::<A>(self.data@->0, r.data@->0)
//@ start
    proof { un::<A>(self.data@->0.obj)->0.refl(); }

//@ fn Pointer::from_data in pointer.rs
//@ props C11 C12 C13
//@ spec
    ensures r.data@ == Some(data)

//@ fn Pointer::new in pointer.rs
//@ props C11 C12 C13
//@ spec
    ensures r.ok(), r@ == value, r.excl()
//@ start
    broadcast use axiom_any;

//@ fn Pointer::into_raw in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires this.full()
    ensures r@ == this.held()

//@ fn Pointer::from_raw in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires ptr@.how == Kind::how()
    ensures r.full(), r.held() == ptr@

//@ fn Pointer::make_mut in pointer.rs
//@ props C11 C12 C13
//@ where A: Copies
//@ spec
    requires old(this).ok(), old(this)@.sound()
    ensures
        r.same(&old(this)@), old(this).excl() ==> *r == old(this)@,
        final(this).ok(), final(this)@ == *final(r), final(this).excl()
//@ start
    broadcast use axiom_any;

//@ fn Pointer::cast_into in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires this.full()
    ensures r.full(), r.held() == this.held()

//@ fn Pointer::deref_cast in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires this.sees::<B>()
    ensures *r == this.as_b::<B>()

//@ fn Pointer::make_mut_cast in pointer.rs
//@ props C11 C12 C13
//@ where B: Copies
//@ spec
    requires old(this).sees::<B>(), old(this).as_b::<B>().sound()
    ensures
        r.same(&old(this).as_b::<B>()), old(this).excl() ==> *r == old(this).as_b::<B>(),
        final(this).sees::<B>(), final(this).as_b::<B>() == *final(r), final(this).excl()
//@ start
    broadcast use axiom_any;

//@ fn Pointer as Drop::drop in pointer.rs as drop_slots
//@ props C11 C12 C13
//@ spec
    requires old(self).ok()
    ensures final(self).data@ is Some, final(self).data@->0.held() is None

//@ fn Pointer as Deref::deref in pointer.rs
//@ props C11 C12 C13
//@ spec
    requires self.ok()
    ensures *r == self@

//@ fn Pointer as From::from in pointer.rs
//@ props C11 C12 C13
//@ spec
    ensures r.ok(), r@ == value, r.excl()

//@ fn Pointer as Clone::clone in pointer.rs
//@ props C11 C12 C13
//@ impl_where A: Copies, Kind: PointerKind
//@ spec
    requires self.ok(), self@.sound()
    ensures r.ok(), r@.same(&self@)
//@ start
    broadcast use axiom_any;

//@ fn Node as From::from in branch/node.rs as from_leaf
//@ props C11 C12 C13
//@ impl_where C: TreeConfig<K, V>, C::PointerKind: PointerKind
//@ spec
    requires node.ok()
    ensures r.is_l(), r.l() == node@, r.excl() == node.excl()

//@ fn Node as From::from in branch/node.rs#1 as from_branch
//@ props C11 C12 C13
//@ impl_where C: TreeConfig<K, V>, C::PointerKind: PointerKind
//@ spec
    requires node.ok()
    ensures r.is_b(), r.b() == node@, r.excl() == node.excl()

//@ fn Node::unwrap_branch in branch/node.rs
//@ props C11 C12 C13
//@ impl_where C: TreeConfig<K, V>, C::PointerKind: PointerKind
//@ spec
    requires self.is_b()
    ensures r.ok(), r@ == self.b(), r.excl() == self.excl()

//@ fn Node::unwrap_leaf in branch/node.rs
//@ props C11 C12 C13
//@ impl_where C: TreeConfig<K, V>, C::PointerKind: PointerKind
//@ spec
    requires self.is_l()
    ensures r.ok(), r@ == self.l(), r.excl() == self.excl()

//@ fn Node::as_branch in branch/node.rs
//@ props C11 C12 C13
//@ impl_where C: TreeConfig<K, V>, C::PointerKind: PointerKind
//@ spec
    requires self.is_b()
    ensures *r == self.b()

//@ fn Node::as_leaf in branch/node.rs
//@ props C11 C12 C13
//@ impl_where C: TreeConfig<K, V>, C::PointerKind: PointerKind
//@ spec
    requires self.is_l()
    ensures *r == self.l()

//@ fn Node::as_branch_mut in branch/node.rs
//@ props C11 C12 C13
//@ impl_where C: TreeConfig<K, V>, C::PointerKind: PointerKind
//@ spec
    requires old(self).is_b(), old(self).b().sound()
    ensures
        r.same(&old(self).b()), old(self).excl() ==> *r == old(self).b(),
        final(self).is_b(), final(self).b() == *final(r), final(self).excl()

//@ fn Node::as_leaf_mut in branch/node.rs
//@ props C11 C12 C13
//@ impl_where C: TreeConfig<K, V>, C::PointerKind: PointerKind
//@ spec
    requires old(self).is_l(), old(self).l().sound()
    ensures
        r.same(&old(self).l()), old(self).excl() ==> *r == old(self).l(),
        final(self).is_l(), final(self).l() == *final(r), final(self).excl()
