// Array: every slot access stays in bounds, never reads a slot that holds nothing, and never
// overwrites one that does.

//@ fn Array::deref in array.rs
//@ props C01 C05 C13 C16
//@ spec
    requires length <= N::USIZE, forall|i: int| 0 <= i < length ==> (#[trigger] self@[i]) is Some
    ensures r@ == vals(self@, length as int)

//@ fn Array::deref_mut in array.rs
//@ props C01 C07 C13 C16
//@ spec
    requires length <= N::USIZE, forall|i: int| 0 <= i < length ==> (#[trigger] old(self)@[i]) is Some
    ensures
        r@ == vals(old(self)@, length as int),
        final(r)@.len() == length ==> final(self)@ == refill(old(self)@, final(r)@),

//@ fn Array::new in array.rs
//@ props C13
//@ spec
    ensures live(r@, 0)

//@ fn Array::drop in array.rs as drop
//@ props C13
//@ spec
    requires live(old(self)@, length as int)
    ensures live(final(self)@, 0)

//@ fn Array::unit in array.rs
//@ props C02 C13 C16
//@ spec
    ensures live(r@, 1), vals(r@, 1) =~= seq![value]

//@ fn Array::steal_from in array.rs
//@ props C02 C12 C13 C16
//@ spec
    requires live(old(other)@, length as int), index < length, length - index <= N::USIZE
    ensures
        live(r@, length - index),
        vals(r@, length - index) =~= vals(old(other)@, length as int).skip(index as int),
        live(final(other)@, index as int),
        vals(final(other)@, index as int) =~= vals(old(other)@, length as int).take(index as int),

//@ fn Array::clone in array.rs
//@ props C11 C13 C16
//@ spec
    requires live(self@, length as int)
    ensures live(r@, length as int), vals(r@, length as int) =~= vals(self@, length as int)
//@ loop 0
    invariant
        it_i0 <= it_s0.len(), it_s0@ == vals(self@, length as int),
        length <= N::USIZE, live(out@, it_i0 as int),
        live(self@, length as int),
        forall|j: int| 0 <= j < it_i0 ==> (#[trigger] out@[j])->0 == self@[j]->0,
    decreases it_s0.len() - it_i0

//@ fn Array::clone_with in array.rs
//@ props C11 C13 C16
//@ spec
    requires
        live(self@, length as int),
        forall|i: int| 0 <= i < length ==> call_requires(f, (&#[trigger] vals(self@, length as int)[i],)),
    ensures
        live(r@, length as int),
        forall|i: int| 0 <= i < length ==> call_ensures(f, (&vals(self@, length as int)[i],), #[trigger] vals(r@, length as int)[i]),
//@ loop 0
    invariant
        it_i0 <= it_s0.len(), it_s0@ == vals(self@, length as int),
        length <= N::USIZE, live(out@, it_i0 as int), live(self@, length as int),
        forall|i: int| 0 <= i < length ==> call_requires(f, (&#[trigger] vals(self@, length as int)[i],)),
        forall|j: int| 0 <= j < it_i0 ==> call_ensures(f, (&vals(self@, length as int)[j],), (#[trigger] out@[j])->0),
    decreases it_s0.len() - it_i0

//@ fn Array::push in array.rs
//@ props C02 C09 C13 C16
//@ spec
    requires live(old(self)@, length as int), length < N::USIZE
    ensures live(final(self)@, length + 1), vals(final(self)@, length + 1) =~= vals(old(self)@, length as int).push(value)

//@ fn Array::pop in array.rs
//@ props C08 C13 C16
//@ spec
    requires live(old(self)@, length as int), 0 < length
    ensures
        live(final(self)@, length - 1),
        vals(final(self)@, length - 1) =~= vals(old(self)@, length as int).drop_last(),
        r == vals(old(self)@, length as int).last(),

//@ fn Array::insert in array.rs
//@ props C02 C13 C16
//@ spec
    requires live(old(self)@, length as int), length < N::USIZE, index <= length
    ensures
        live(final(self)@, length + 1),
        vals(final(self)@, length + 1) =~= vals(old(self)@, length as int).insert(index as int, value),

//@ fn Array::insert_pair in array.rs
//@ props C02 C13 C16
//@ spec
    requires live(old(self)@, length as int), length + 1 < N::USIZE, index <= length
    ensures
        live(final(self)@, length + 2),
        vals(final(self)@, length + 2) =~= vals(old(self)@, length as int).insert(index as int, right).insert(index as int, left),

//@ fn Array::remove in array.rs
//@ props C03 C08 C13 C16
//@ spec
    requires live(old(self)@, length as int), index < length
    ensures
        live(final(self)@, length - 1),
        vals(final(self)@, length - 1) =~= vals(old(self)@, length as int).remove(index as int),
        r == vals(old(self)@, length as int)[index as int],
