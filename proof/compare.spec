// Comparing and hashing trees.

//@ fn PalmTree as PartialEq::eq in lib.rs
//@ as_impl inherent
//@ props C14
//@ spec
    requires self.inv(), other.inv()
    ensures r == all_eq(self.all(), other.all())
//@ start
    broadcast use derefs_refs;
    proof { self.inv_sorted(); other.inv_sorted(); }

//@ fn PalmTree as PartialOrd::partial_cmp in lib.rs
//@ as_impl inherent
//@ props C14
//@ spec
    requires self.inv(), other.inv()
    ensures r == lex_pcmp(self.all(), other.all())
//@ start
    broadcast use derefs_refs;

//@ fn PalmTree as Ord::cmp in lib.rs
//@ as_impl inherent
//@ props C14
//@ spec
    requires self.inv(), other.inv()
    ensures r == lex_cmp(self.all(), other.all())
//@ start
    broadcast use derefs_refs;

//@ fn PalmTree as Hash::hash in lib.rs
//@ as_impl inherent
//@ props C14
//@ impl_where K: Ord + Clone, C: TreeConfig<K, V>
//@ where H: Sized
//@ sub `$e . hash ( state )` => `feed($e, state)`
//@ spec
    requires self.inv()
    ensures *final(state) == fed_all(*old(state), self.all())
//@ start
    broadcast use derefs_refs;
//@ loop 0
    invariant_except_break fed_all(*old(state), self.all()) == fed_all(*state, derefs(it_x0.coming()))
    invariant it_x0.live()
    ensures *state == fed_all(*old(state), self.all())
    decreases it_x0.coming().len()
//@ body 0
    proof { if it_x0.coming().len() > 0 {
        let c = it_x0.coming();
        assert(c.skip(1) =~= refs(it_x0.rest().skip(1)));
        derefs_skip(c);
        assert((&derefs(c)[0].0, &derefs(c)[0].1) == c[0]);
        assert(fed_all(*state, derefs(c)) == fed_all(fed(*state, c[0]), derefs(c.skip(1))));
    } }
