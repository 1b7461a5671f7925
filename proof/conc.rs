// The nodes of the crate and the abstract tree each stands for.

//= struct leaf.rs Leaf
//= struct branch.rs Branch
//= struct lib.rs InsertResult

// branch/node.rs keeps one untyped pointer and relies on the parent's flag to tell which kind of
// node it leads to; here the kind is explicit and every use states which it must be.  TRUSTED.
pub enum Node<K, V, C: TreeConfig<K, V>> {
    B(Pointer<Branch<K, V, C>, C::PointerKind>),
    L(Pointer<Leaf<K, V, C>, C::PointerKind>),
}

impl<K, V, C: TreeConfig<K, V>> Conv<Node<K, V, C>> for Pointer<Leaf<K, V, C>, C::PointerKind> {
    open spec fn conv_rel(self, r: Node<K, V, C>) -> bool { r == Node::<K, V, C>::L(self) }
    fn conv(self) -> (r: Node<K, V, C>) { Node::L(self) }
}

impl<K, V, C: TreeConfig<K, V>> Conv<Node<K, V, C>> for Pointer<Branch<K, V, C>, C::PointerKind> {
    open spec fn conv_rel(self, r: Node<K, V, C>) -> bool { r == Node::<K, V, C>::B(self) }
    fn conv(self) -> (r: Node<K, V, C>) { Node::B(self) }
}

// Where a branch that is dropped puts its nodes: a Node does not drop what it holds by itself, it has to
// be unwrapped first.  (Ghost: `unwrap_branch_in` is `unwrap_branch`.)
pub tracked struct Bin<K, V, C: TreeConfig<K, V>> { pub ghost nodes: Seq<Node<K, V, C>> }

impl<K, V, C: TreeConfig<K, V>> Node<K, V, C> {
    pub fn unwrap_branch_in(self, Tracked(bin): Tracked<&mut Bin<K, V, C>>) -> (r: Pointer<Branch<K, V, C>, C::PointerKind>)
        requires self is B
        ensures r == self->B_0, final(bin).nodes == old(bin).nodes.push(self)
    {
        proof { bin.nodes = bin.nodes.push(self); }
        self.unwrap_branch()
    }

    pub fn unwrap_leaf_in(self, Tracked(bin): Tracked<&mut Bin<K, V, C>>) -> (r: Pointer<Leaf<K, V, C>, C::PointerKind>)
        requires self is L
        ensures r == self->L_0, final(bin).nodes == old(bin).nodes.push(self)
    {
        proof { bin.nodes = bin.nodes.push(self); }
        self.unwrap_leaf()
    }

    #[verifier::external_body]
    pub fn unwrap_branch(self) -> (r: Pointer<Branch<K, V, C>, C::PointerKind>)
        requires self is B
        ensures r == self->B_0
    { unimplemented!() }

    #[verifier::external_body]
    pub fn unwrap_leaf(self) -> (r: Pointer<Leaf<K, V, C>, C::PointerKind>)
        requires self is L
        ensures r == self->L_0
    { unimplemented!() }

    #[verifier::external_body]
    pub fn as_branch(&self) -> (r: &Branch<K, V, C>)
        requires self is B
        ensures *r == self->B_0@
    { unimplemented!() }

    #[verifier::external_body]
    pub fn as_leaf(&self) -> (r: &Leaf<K, V, C>)
        requires self is L
        ensures *r == self->L_0@
    { unimplemented!() }

    #[verifier::external_body]
    pub fn as_branch_mut(&mut self) -> (r: &mut Branch<K, V, C>)
        requires *old(self) is B, (*old(self))->B_0@.sound()
        ensures
            r.same(&(*old(self))->B_0@), (*old(self))->B_0.excl() ==> *r == (*old(self))->B_0@,
            *final(self) is B, (*final(self))->B_0@ == *final(r), (*final(self))->B_0.excl(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn as_leaf_mut(&mut self) -> (r: &mut Leaf<K, V, C>)
        requires *old(self) is L, (*old(self))->L_0@.sound()
        ensures
            r.same(&(*old(self))->L_0@), (*old(self))->L_0.excl() ==> *r == (*old(self))->L_0@,
            *final(self) is L, (*final(self))->L_0@ == *final(r), (*final(self))->L_0.excl(),
    { unimplemented!() }
}

impl<K, V, C: TreeConfig<K, V>> Leaf<K, V, C> {
    // The first `length` slots hold keys and values and no other slot does.
    pub open spec fn ok(&self) -> bool {
        &&& live(self.keys@, self.length as int)
        &&& live(self.values@, self.length as int)
    }
    pub open spec fn ks(&self) -> Seq<K> { vals(self.keys@, self.length as int) }
    pub open spec fn vs(&self) -> Seq<V> { vals(self.values@, self.length as int) }
    pub open spec fn ents(&self) -> Seq<(K, V)> { zip(self.ks(), self.vs()) }
}

impl<K, V, C: TreeConfig<K, V>> Mirror for Leaf<K, V, C> {
    open spec fn sound(&self) -> bool { self.ok() }
    open spec fn same(&self, o: &Self) -> bool { self.ok() && self.ents() == o.ents() && self.length == o.length }
}

impl<K, V, C: TreeConfig<K, V>> Branch<K, V, C> {
    pub open spec fn ks(&self) -> Seq<K> { vals(self.keys@, self.length as int) }
    pub open spec fn ns(&self) -> Seq<Node<K, V, C>> { vals(self.children@, self.length as int) }

    // The node itself: slots, and children of the kind the flag says, not shared with anyone.
    pub open spec fn ok1(&self) -> bool {
        &&& live(self.keys@, self.length as int)
        &&& live(self.children@, self.length as int)
        &&& forall|i: int| 0 <= i < self.length ==> kind_ok(#[trigger] self.ns()[i], self.has_branches)
    }

    pub open spec fn ok(&self) -> bool
        decreases self, 1nat
    {
        &&& self.ok1()
        &&& forall|i: int| 0 <= i < self.length && 0 <= i < self.children@.len() && (#[trigger] self.children@[i]) is Some ==> self.kid_sound(i)
    }

    pub open spec fn kid_sound(&self, i: int) -> bool
        decreases self, 0nat
        when 0 <= i < self.length && 0 <= i < self.children@.len() && self.children@[i] is Some
        via Self::kid_sound_dec
    {
        match self.children@[i]->0 {
            Node::B(p) => p@.ok(),
            Node::L(p) => p@.ok(),
        }
    }

    pub open spec fn kid(&self, i: int) -> ST<K, V>
        decreases self, 0nat
        when 0 <= i < self.length && 0 <= i < self.children@.len() && self.children@[i] is Some
        via Self::kid_dec
    {
        match self.children@[i]->0 {
            Node::B(p) => p@.st(),
            Node::L(p) => ST::L(p@.ents()),
        }
    }

    pub open spec fn st(&self) -> ST<K, V>
        decreases self, 1nat
    {
        ST::N {
            br: self.has_branches,
            seps: self.ks(),
            kids: Seq::new(self.length as nat, |i: int|
                if 0 <= i < self.length && 0 <= i < self.children@.len() && self.children@[i] is Some { self.kid(i) } else { arbitrary() }),
        }
    }

    #[via_fn]
    proof fn kid_dec(&self, i: int) { self.smaller(i); }

    #[via_fn]
    proof fn kid_sound_dec(&self, i: int) { self.smaller(i); }

    pub proof fn smaller(&self, i: int)
        requires 0 <= i < self.children@.len()
        ensures self.children@[i] is Some && self.children@[i]->0 is B ==> decreases_to!(self => self.children@[i]->0->B_0@)
    {
        axiom_arr_height(self.children, i);
        assert(decreases_to!(self => self.children));
        assert(decreases_to!(self.children => self.children@[i]));
        if self.children@[i] is Some && (self.children@[i]->0) is B {
            let p = self.children@[i]->0->B_0;
            axiom_ptr_height(p);
            assert(decreases_to!(self.children@[i] => self.children@[i]->0));
            assert(decreases_to!(self.children@[i]->0 => self.children@[i]->0->B_0));
            assert(decreases_to!(p => p@));
            assert(decreases_to!(self.children@[i] => p@));
            assert(decreases_to!(self.children => p@));
            assert(decreases_to!(self => p@));
        }
    }
}

pub open spec fn kind_ok<K, V, C: TreeConfig<K, V>>(n: Node<K, V, C>, br: bool) -> bool {
    match n {
        Node::B(p) => br && p.excl(),
        Node::L(p) => !br && p.excl(),
    }
}

// What a child pointer stands for.
pub open spec fn nst<K, V, C: TreeConfig<K, V>>(n: Node<K, V, C>) -> ST<K, V> {
    match n {
        Node::B(p) => p@.st(),
        Node::L(p) => ST::L(p@.ents()),
    }
}

pub open spec fn nok<K, V, C: TreeConfig<K, V>>(n: Node<K, V, C>) -> bool {
    match n {
        Node::B(p) => p.excl() && p@.ok(),
        Node::L(p) => p.excl() && p@.ok(),
    }
}

// st and ok in terms of the children, without recursion: what every proof about nodes uses.
pub broadcast proof fn b_st<K, V, C: TreeConfig<K, V>>(b: Branch<K, V, C>)
    requires b.ok1()
    ensures (#[trigger] b.st()) == (ST::N { br: b.has_branches, seps: b.ks(), kids: nsts(b.ns()) })
{
    let s = b.st();
    let q = nsts(b.ns());
    assert(s->kids.len() == q.len());
    assert forall|i: int| 0 <= i < b.length implies s->kids[i] == q[i] by {
        assert(b.children@[i] is Some);
        assert(s->kids[i] == b.kid(i));
    }
    assert(s->kids =~= q);
}

pub broadcast proof fn b_ok<K, V, C: TreeConfig<K, V>>(b: Branch<K, V, C>)
    ensures (#[trigger] b.ok()) == (b.ok1() && forall|i: int| 0 <= i < b.length ==> nok(#[trigger] b.ns()[i]))
{
    if b.ok() {
        assert forall|i: int| 0 <= i < b.length implies nok(#[trigger] b.ns()[i]) by {
            assert(b.children@[i] is Some);
            assert(b.ns()[i] == b.children@[i]->0);
            assert(b.kid_sound(i));
            assert(kind_ok(b.ns()[i], b.has_branches));
        }
    }
    if b.ok1() && forall|i: int| 0 <= i < b.length ==> nok(#[trigger] b.ns()[i]) {
        assert forall|i: int| 0 <= i < b.length && 0 <= i < b.children@.len() && (#[trigger] b.children@[i]) is Some implies b.kid_sound(i) by {
            assert(b.ns()[i] == b.children@[i]->0);
            assert(nok(b.ns()[i]));
        }
    }
}

pub open spec fn nsts<K, V, C: TreeConfig<K, V>>(ns: Seq<Node<K, V, C>>) -> Seq<ST<K, V>> {
    Seq::new(ns.len(), |i: int| nst(ns[i]))
}

pub broadcast group group_nodes { b_st, b_ok }

impl<K, V, C: TreeConfig<K, V>> Mirror for Branch<K, V, C> {
    open spec fn sound(&self) -> bool { self.ok() }
    open spec fn same(&self, o: &Self) -> bool { self.ok() && self.st() == o.st() && self.length == o.length && self.has_branches == o.has_branches }
}
