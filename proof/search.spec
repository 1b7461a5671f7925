// Searching sorted keys.

//@ fn find_key_linear in search.rs
//@ props C01 C12
//@ spec
    requires keys@.len() < 0x1000_0000, sortedk(keys@)
    ensures match r {
        Some(i) => i < keys@.len() && i == lbk(keys@, rank(*target)),
        None => lbk(keys@, rank(*target)) == keys@.len(),
    }
//@ start
    proof { lbk_props(keys@, rank(*target)); }
//@ loop 0
    invariant
        it_i0 <= it_s0.len(), it_s0@ == keys@, sortedk(keys@),
        forall|j: int| 0 <= j < it_i0 ==> rank(#[trigger] keys@[j]) < rank(*target),
        0 <= lbk(keys@, rank(*target)) <= keys@.len(),
        forall|j: int| 0 <= j < lbk(keys@, rank(*target)) ==> #[trigger] rank(keys@[j]) < rank(*target),
        forall|j: int| lbk(keys@, rank(*target)) <= j < keys@.len() ==> #[trigger] rank(keys@[j]) >= rank(*target),
        lbk(keys@, rank(*target)) >= it_i0,
    decreases it_s0.len() - it_i0

//@ fn find_key in search.rs
//@ props C01 C02 C12
//@ spec
    requires keys@.len() < 0x1000_0000, sortedk(keys@)
    ensures match r {
        Some(i) => i < keys@.len() && i == lbk(keys@, rank(*key)),
        None => lbk(keys@, rank(*key)) == keys@.len(),
    }
//@ start
    proof { lbk_props(keys@, rank(*key)); }
//@ loop 0
    invariant
        size == keys@.len(), low <= high < size, sortedk(keys@), size < 0x1000_0000,
        0 <= lbk(keys@, rank(*key)) <= keys@.len(),
        forall|j: int| 0 <= j < lbk(keys@, rank(*key)) ==> #[trigger] rank(keys@[j]) < rank(*key),
        forall|j: int| lbk(keys@, rank(*key)) <= j < keys@.len() ==> #[trigger] rank(keys@[j]) >= rank(*key),
        low <= lbk(keys@, rank(*key)),
        high < size - 1 ==> lbk(keys@, rank(*key)) <= high,
    decreases high - low

//@ fn find_key_or_next in search.rs
//@ props C06 C12
//@ spec
    requires keys@.len() < 0x1000_0000, sortedk(keys@), keys@.len() > 0
    ensures r < keys@.len(), r == lbk(keys@, rank(*key)) || (r == keys@.len() - 1 && lbk(keys@, rank(*key)) == keys@.len())
//@ start
    proof { lbk_props(keys@, rank(*key)); }
//@ loop 0
    invariant
        size == keys@.len(), low <= high < size, sortedk(keys@), size < 0x1000_0000,
        0 <= lbk(keys@, rank(*key)) <= keys@.len(),
        forall|j: int| 0 <= j < lbk(keys@, rank(*key)) ==> #[trigger] rank(keys@[j]) < rank(*key),
        forall|j: int| lbk(keys@, rank(*key)) <= j < keys@.len() ==> #[trigger] rank(keys@[j]) >= rank(*key),
        low <= lbk(keys@, rank(*key)),
        high < size - 1 ==> lbk(keys@, rank(*key)) <= high,
    decreases high - low

//@ fn find_key_or_prev in search.rs
//@ props C06 C12
//@ spec
    requires keys@.len() < 0x1000_0000, sortedk(keys@), keys@.len() > 0
    ensures
        r < keys@.len(),
        rank(keys@[r as int]) <= rank(*key) || r == 0,
        forall|j: int| r < j < keys@.len() ==> rank(#[trigger] keys@[j]) > rank(*key),
//@ start
    proof { lbk_props(keys@, rank(*key)); }
//@ loop 0
    invariant
        size == keys@.len(), low <= high < size, sortedk(keys@), size < 0x1000_0000,
        forall|j: int| high < j < keys@.len() ==> rank(#[trigger] keys@[j]) > rank(*key),
        low == 0 || rank(keys@[low as int]) <= rank(*key),
    decreases high - low
