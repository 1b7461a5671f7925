// Leaf: an ascending run of entries.

//@ fn Leaf::new in leaf.rs
//@ props C02 C09
//@ spec
    ensures r.ok(), r.ents() =~= Seq::<(K, V)>::empty(), r.length == 0

//@ fn Leaf::unit in leaf.rs
//@ props C02
//@ spec
    ensures r.ok(), r.ents() =~= seq![(key, value)], r.length == 1

//@ fn Leaf as Drop::drop in leaf.rs as drop_slots
//@ props C13
//@ spec
    requires old(self).ok()
    ensures live(final(self).keys@, 0), live(final(self).values@, 0)

//@ fn Leaf as Clone::clone in leaf.rs
//@ props C11 C13
//@ spec
    requires self.ok()
    ensures r.ok(), r.length == self.length, r.ents() =~= self.ents()

//@ fn Leaf::len in leaf.rs
//@ spec
    ensures r == self.length

//@ fn Leaf::is_empty in leaf.rs
//@ spec
    ensures r == (self.length == 0)

//@ fn Leaf::is_full in leaf.rs
//@ props C02 C09 C12
//@ spec
    ensures r == (self.length == lsize::<K, V, C>())

//@ fn Leaf::keys in leaf.rs
//@ spec
    requires self.ok()
    ensures r@ == self.ks()

//@ fn Leaf::values in leaf.rs
//@ spec
    requires self.ok()
    ensures r@ == self.vs()

//@ fn Leaf::highest in leaf.rs
//@ props C02 C09 C16
//@ spec
    requires self.ok(), self.length > 0
    ensures *r == self.ks()[self.length - 1], *r == self.ents().last().0

//@ fn Leaf::keys_mut in leaf.rs
//@ spec
    requires old(self).ok()
    ensures
        r@ == old(self).ks(),
        final(self).length == old(self).length,
        final(self).vs() == old(self).vs(),
        final(r)@.len() == r@.len() ==> final(self).ok() && final(self).ks() =~= final(r)@,

//@ fn Leaf::values_mut in leaf.rs
//@ props C07
//@ spec
    requires old(self).ok()
    ensures
        r@ == old(self).vs(),
        final(self).length == old(self).length,
        final(self).ks() == old(self).ks(),
        final(r)@.len() == r@.len() ==> final(self).ok() && final(self).vs() =~= final(r)@,

//@ fn Leaf::split in leaf.rs
//@ props C02 C12 C13 C16
//@ spec
    requires this@.ok(), this@.length >= 2
    ensures
        r.0.excl(), r.1.excl(), r.0@.ok(), r.1@.ok(),
        0 < r.0@.length < this@.length,
        r.1@.length == this@.length - r.0@.length,
        r.0@.ents() =~= this@.ents().take(r.0@.length as int),
        r.1@.ents() =~= this@.ents().skip(r.0@.length as int),

//@ fn Leaf::push_unchecked in leaf.rs
//@ props C02 C09 C13
//@ spec
    requires old(self).ok(), old(self).length < lsize::<K, V, C>()
    ensures
        final(self).ok(), final(self).length == old(self).length + 1,
        final(self).ents() =~= old(self).ents().push((key, value)),

//@ fn Leaf::insert_unchecked in leaf.rs
//@ props C02 C13
//@ spec
    requires old(self).ok(), old(self).length < lsize::<K, V, C>(), index <= old(self).length
    ensures
        final(self).ok(), final(self).length == old(self).length + 1,
        final(self).ents() =~= old(self).ents().insert(index as int, (key, value)),

//@ fn Leaf::remove_unchecked in leaf.rs
//@ props C03 C13
//@ spec
    requires old(self).ok(), index < old(self).length
    ensures
        final(self).ok(), final(self).length == old(self).length - 1,
        final(self).ents() =~= old(self).ents().remove(index as int),
        r == old(self).ents()[index as int],

//@ fn Leaf::pop_back in leaf.rs
//@ props C08 C13
//@ spec
    requires old(self).ok()
    ensures
        final(self).ok(),
        old(self).length == 0 ==> r is None && *final(self) == *old(self),
        old(self).length > 0 ==> r == Some(old(self).ents().last()) && final(self).length == old(self).length - 1
            && final(self).ents() =~= old(self).ents().drop_last(),

//@ fn Leaf::pop_front in leaf.rs
//@ props C08 C13
//@ spec
    requires old(self).ok()
    ensures
        final(self).ok(),
        old(self).length == 0 ==> r is None && *final(self) == *old(self),
        old(self).length > 0 ==> r == Some(old(self).ents().first()) && final(self).length == old(self).length - 1
            && final(self).ents() =~= old(self).ents().drop_first(),

//@ fn Leaf::get in leaf.rs
//@ props C01
//@ spec
    requires self.ok(), sorted(self.ents())
    ensures match r {
        Some(v) => get_of(self.ents(), rank(*key)) == Some(*v),
        None => get_of(self.ents(), rank(*key)) is None,
    }
//@ start
    proof { self.keyed(rank(*key)); }

//@ fn Leaf::get_mut in leaf.rs
//@ props C01 C07
//@ spec
    requires old(self).ok(), sorted(old(self).ents())
    ensures
        final(self).ok(), final(self).length == old(self).length,
        match r {
            Some(v) => holds(old(self).ents(), rank(*key)) && get_of(old(self).ents(), rank(*key)) == Some(*v)
                && final(self).ents() =~= put(old(self).ents(), *key, *final(v)),
            None => !holds(old(self).ents(), rank(*key)) && final(self).ents() =~= old(self).ents(),
        },
//@ start
    proof { self.keyed(rank(*key)); }

//@ fn Leaf::get_linear in leaf.rs
//@ props C01
//@ spec
    requires self.ok(), sorted(self.ents())
    ensures match r {
        Some(v) => get_of(self.ents(), rank(*key)) == Some(*v),
        None => get_of(self.ents(), rank(*key)) is None,
    }
//@ start
    proof { self.found(rank(*key)); }
//@ loop 0
    invariant
        self.ok(), it_i0 <= it_s0.len(), it_s0@ == self.ks(),
        forall|j: int| 0 <= j < it_i0 ==> rank(#[trigger] self.ks()[j]) != rank(*key),
        forall|j: int| 0 <= j < self.length && rank(#[trigger] self.ks()[j]) == rank(*key) ==> get_of(self.ents(), rank(*key)) == Some(self.vs()[j]),
        get_of(self.ents(), rank(*key)) is Some ==> exists|j: int| 0 <= j < self.length && rank(#[trigger] self.ks()[j]) == rank(*key),
    decreases it_s0.len() - it_i0

//@ fn Leaf::insert in leaf.rs
//@ props C02
//@ spec
    requires old(self).ok(), sorted(old(self).ents())
    ensures
        final(self).ok(),
        match r {
            InsertResult::Added => !holds(old(self).ents(), rank(key)) && final(self).ents() =~= put(old(self).ents(), key, value),
            InsertResult::Replaced(v) => get_of(old(self).ents(), rank(key)) == Some(v) && final(self).ents() =~= put(old(self).ents(), key, value),
            InsertResult::Full(k, v) => k == key && v == value && !holds(old(self).ents(), rank(key)) && *final(self) == *old(self)
                && old(self).length == lsize::<K, V, C>(),
        },
//@ start
    proof { self.keyed(rank(key)); lb_props(self.ents(), rank(key)); }

//@ end
impl<K, V, C: TreeConfig<K, V>> Leaf<K, V, C> {
    pub proof fn keyed(&self, x: real)
        ensures
            ekeys(self.ents()) == self.ks(), evals(self.ents()).len() == self.length, lb(self.ents(), x) == lbk(self.ks(), x),
            sorted(self.ents()) == sortedk(self.ks()),
            forall|i: int| 0 <= i < self.length ==> (#[trigger] self.ents()[i]) == (self.ks()[i], self.vs()[i]),
    {
        assert(ekeys(self.ents()) =~= self.ks());
    }

    pub proof fn found(&self, x: real)
        requires sorted(self.ents())
        ensures
            forall|j: int| 0 <= j < self.length && rank(#[trigger] self.ks()[j]) == x ==> get_of(self.ents(), x) == Some(self.vs()[j]),
            get_of(self.ents(), x) is Some ==> exists|j: int| 0 <= j < self.length && rank(#[trigger] self.ks()[j]) == x,
    {
        self.keyed(x);
        lbk_props(self.ks(), x);
        let l = lb(self.ents(), x);
        assert forall|j: int| 0 <= j < self.length && rank(#[trigger] self.ks()[j]) == x implies get_of(self.ents(), x) == Some(self.vs()[j]) by {
            if l < j { assert(rank(self.ks()[l]) < rank(self.ks()[j])); }
            assert(self.ents()[l] == (self.ks()[l], self.vs()[l]));
        }
        if get_of(self.ents(), x) is Some {
            assert(self.ents()[l] == (self.ks()[l], self.vs()[l]));
            assert(rank(self.ks()[l]) == x);
        }
    }
}
