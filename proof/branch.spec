// Branch: children and the separators over them.

//@ fn Branch::new in branch.rs
//@ props C02 C09
//@ spec
    ensures r.ok(), r.length == 0, r.has_branches == has_branches, eqn(r.st(), no_kids(has_branches))

//@ fn Branch::unit in branch.rs
//@ props C02
//@ spec
    requires leaf@.ok(), leaf@.length > 0, leaf.excl()
    ensures r.ok(), r.length == 1, !r.has_branches, eqn(r.st(), one_kid(false, leaf@.ents().last().0, ST::L(leaf@.ents())))

//@ fn Branch as Drop::drop in branch.rs as drop_slots
//@ props C13
//@ gparams Tracked(bin): Tracked<&mut Bin<K, V, C>>
//@ sub `. unwrap_branch ( )` => `. unwrap_branch_in ( Tracked ( &mut * bin ) )` opt
//@ sub `. unwrap_leaf ( )` => `. unwrap_leaf_in ( Tracked ( &mut * bin ) )` opt
//@ spec
    requires old(self).ok1(), old(bin).nodes.len() == 0
    ensures
        final(self).length == 0, live(final(self).keys@, 0), live(final(self).children@, 0),
        // every child is unwrapped, once
        final(bin).nodes.len() == old(self).length,
        forall|i: int| 0 <= i < old(self).length ==> #[trigger] final(bin).nodes[i] == old(self).ns()[old(self).length - 1 - i],
//@ loop 0
    invariant
        bin.nodes.len() == old(self).length - self.length,
        forall|i: int| 0 <= i < bin.nodes.len() ==> #[trigger] bin.nodes[i] == old(self).ns()[old(self).length - 1 - i],
        live(self.keys@, 0), live(self.children@, self.length as int),
        self.has_branches == old(self).has_branches, self.length <= old(self).length,
        forall|i: int| 0 <= i < old(self).length ==> kind_ok(#[trigger] old(self).ns()[i], old(self).has_branches),
        self.ns() =~= old(self).ns().take(self.length as int),
    decreases self.length

//@ fn Branch::len in branch.rs
//@ spec
    ensures r == self.length

//@ fn Branch::is_empty in branch.rs
//@ spec
    ensures r == (self.length == 0)

//@ fn Branch::is_full in branch.rs
//@ props C02 C09 C12
//@ spec
    ensures r == (self.length == bsize::<K, V, C>())

//@ fn Branch::has_leaves in branch.rs
//@ spec
    ensures r == !self.has_branches

//@ fn Branch::has_branches in branch.rs
//@ spec
    ensures r == self.has_branches

//@ fn Branch::keys in branch.rs
//@ spec
    requires self.ok1()
    ensures r@ == self.ks()

//@ fn Branch::highest in branch.rs
//@ props C02 C09
//@ spec
    requires self.ok1(), self.length > 0
    ensures *r == self.ks().last()

//@ fn Branch::keys_mut in branch.rs
//@ spec
    requires old(self).ok1()
    ensures
        r@ == old(self).ks(),
        final(self).length == old(self).length, final(self).has_branches == old(self).has_branches,
        final(self).children == old(self).children,
        final(r)@.len() == r@.len() ==> final(self).ok1() && final(self).ks() =~= final(r)@
            && (old(self).ok() ==> final(self).ok() && eqn(final(self).st(), ST::N { br: old(self).has_branches, seps: final(r)@, kids: old(self).st()->kids })),

//@ fn Branch::children in branch.rs
//@ spec
    requires self.ok1()
    ensures r@ == self.ns()

//@ fn Branch::children_mut in branch.rs
//@ spec
    requires old(self).ok1()
    ensures
        r@ == old(self).ns(),
        final(self).length == old(self).length, final(self).has_branches == old(self).has_branches,
        final(self).keys == old(self).keys,
        final(r)@.len() == r@.len() ==> live(final(self).children@, old(self).length as int) && final(self).ns() =~= final(r)@,

//@ fn Branch::get_branch in branch.rs
//@ props C01
//@ spec
    requires self.ok(), self.has_branches, index < self.length
    ensures r.ok(), r.st() == self.st()->kids[index as int]

//@ fn Branch::get_branch_unchecked in branch.rs
//@ props C05 C06
//@ spec
    requires self.ok(), self.has_branches, index < self.length
    ensures r.ok(), r.st() == self.st()->kids[index as int]

//@ fn Branch::get_leaf in branch.rs
//@ props C01
//@ spec
    requires self.ok(), !self.has_branches, index < self.length
    ensures r.ok(), ST::L(r.ents()) == self.st()->kids[index as int]

//@ fn Branch::get_leaf_unchecked in branch.rs
//@ props C05 C06
//@ spec
    requires self.ok(), !self.has_branches, index < self.length
    ensures r.ok(), ST::L(r.ents()) == self.st()->kids[index as int]

//@ fn Branch::get_branch_mut in branch.rs
//@ props C01 C02 C07
//@ spec
    requires old(self).ok(), old(self).has_branches, index < old(self).length
    ensures
        r.ok(), r.st() == old(self).st()->kids[index as int],
        final(self).length == old(self).length, final(self).has_branches == old(self).has_branches,
        final(r).ok() ==> final(self).ok() && eqn(final(self).st(), with_kid(old(self).st(), index as int, final(r).st())),

//@ fn Branch::get_leaf_mut in branch.rs
//@ props C01 C02 C07
//@ spec
    requires old(self).ok(), !old(self).has_branches, index < old(self).length
    ensures
        r.ok(), ST::L(r.ents()) == old(self).st()->kids[index as int],
        final(self).length == old(self).length, final(self).has_branches == old(self).has_branches,
        final(r).ok() ==> final(self).ok() && eqn(final(self).st(), with_kid(old(self).st(), index as int, ST::L(final(r).ents()))),

//@ fn Branch::push_branch in branch.rs
//@ props C02 C09
//@ spec
    requires old(self).ok(), old(self).has_branches, old(self).length < bsize::<K, V, C>(), branch@.ok(), branch.excl()
    ensures final(self).ok(), final(self).length == old(self).length + 1, eqn(final(self).st(), push_kid(old(self).st(), key, branch@.st()))

//@ fn Branch::push_leaf in branch.rs
//@ props C02 C09
//@ spec
    requires old(self).ok(), !old(self).has_branches, old(self).length < bsize::<K, V, C>(), leaf@.ok(), leaf.excl()
    ensures final(self).ok(), final(self).length == old(self).length + 1, eqn(final(self).st(), push_kid(old(self).st(), key, ST::L(leaf@.ents())))

//@ fn Branch::remove_branch in branch.rs
//@ props C02 C03 C16
//@ spec
    requires old(self).ok(), old(self).has_branches, index < old(self).length
    ensures
        final(self).ok(), final(self).length == old(self).length - 1, eqn(final(self).st(), drop_kid(old(self).st(), index as int)),
        r.0 == old(self).st()->seps[index as int], r.1@.ok(), r.1.excl(), r.1@.st() == old(self).st()->kids[index as int],

//@ fn Branch::remove_leaf in branch.rs
//@ props C02 C03 C16
//@ spec
    requires old(self).ok(), !old(self).has_branches, index < old(self).length
    ensures
        final(self).ok(), final(self).length == old(self).length - 1, eqn(final(self).st(), drop_kid(old(self).st(), index as int)),
        r.0 == old(self).st()->seps[index as int], r.1@.ok(), r.1.excl(), ST::L(r.1@.ents()) == old(self).st()->kids[index as int],

//@ fn Branch::remove_last_branch in branch.rs
//@ props C02 C09 C16
//@ spec
    requires old(self).ok(), old(self).has_branches, old(self).length > 0
    ensures
        final(self).ok(), final(self).length == old(self).length - 1, eqn(final(self).st(), drop_kid(old(self).st(), old(self).length - 1)),
        r.0 == old(self).st()->seps.last(), r.1@.ok(), r.1.excl(), r.1@.st() == old(self).st()->kids.last(),

//@ fn Branch::push_branch_pair in branch.rs
//@ props C02 C16
//@ spec
    requires
        old(self).ok(), old(self).has_branches, old(self).length + 2 <= bsize::<K, V, C>(),
        left@.ok(), left.excl(), right@.ok(), right.excl(),
    ensures
        final(self).ok(), final(self).length == old(self).length + 2,
        eqn(final(self).st(), two_kids(old(self).st(), old(self).length as int, left_key, left@.st(), right_key, right@.st())),

//@ fn Branch::insert_branch_pair in branch.rs
//@ props C02 C16
//@ spec
    requires
        old(self).ok(), old(self).has_branches, old(self).length + 2 <= bsize::<K, V, C>(), index <= old(self).length,
        left@.ok(), left.excl(), right@.ok(), right.excl(),
    ensures
        final(self).ok(), final(self).length == old(self).length + 2,
        eqn(final(self).st(), two_kids(old(self).st(), index as int, left_key, left@.st(), right_key, right@.st())),

//@ fn Branch::insert_leaf_pair in branch.rs
//@ props C02 C16
//@ spec
    requires
        old(self).ok(), !old(self).has_branches, old(self).length + 2 <= bsize::<K, V, C>(), index <= old(self).length,
        left@.ok(), left.excl(), right@.ok(), right.excl(),
    ensures
        final(self).ok(), final(self).length == old(self).length + 2,
        eqn(final(self).st(), two_kids(old(self).st(), index as int, left_key, ST::L(left@.ents()), right_key, ST::L(right@.ents()))),

//@ fn Branch::split in branch.rs
//@ props C02 C12 C16
//@ spec
    requires this@.ok(), this@.length >= 2
    ensures
        r.0.excl(), r.1.excl(), r.0@.ok(), r.1@.ok(),
        0 < r.0@.length < this@.length,
        r.1@.length == this@.length - r.0@.length,
        eqn(r.0@.st(), first_kids(this@.st(), r.0@.length as int)),
        eqn(r.1@.st(), last_kids(this@.st(), r.0@.length as int)),

//@ fn Branch as Clone::clone in branch.rs
//@ props C11 C13
//@ spec
    requires self.ok()
    ensures r.ok(), r.length == self.length, r.has_branches == self.has_branches, eqn(r.st(), self.st())
    decreases *self
//@ sub `self . children . clone_with ( self . length , | $n:id | $b )` => `self . children . clone_with ( self . length , | $n : & Node < K , V , C > | -> ( o : Node < K , V , C > ) requires nok ( * $n ) , kind_ok ( * $n , self . has_branches ) , below ( self , * $n ) ensures nok ( o ) , kind_ok ( o , self . has_branches ) , nst ( o ) == nst ( * $n ) { $b } )`
//@ start
    proof {
        assert forall|i: int| 0 <= i < self.length implies below(self, #[trigger] self.ns()[i]) by { self.smaller(i); }
    }

//@ end
pub open spec fn below<K, V, C: TreeConfig<K, V>>(b: &Branch<K, V, C>, n: Node<K, V, C>) -> bool {
    n is B ==> decreases_to!(*b => n->B_0@)
}
