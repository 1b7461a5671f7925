// Comparing and hashing.

// What == on two entries says: equal keys (see rank) and, by V's own ==, equal values.
pub open spec fn ent_eq<K, V: PartialEq>(a: (K, V), b: (K, V)) -> bool { rank(a.0) == rank(b.0) && a.1.eq_spec(&b.1) }

pub open spec fn all_eq<K, V: PartialEq>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> ent_eq(#[trigger] a[i], b[i])
}

pub open spec fn ent_pcmp<K, V: PartialOrd>(a: (K, V), b: (K, V)) -> Option<Ordering> {
    if rank(a.0) == rank(b.0) { a.1.partial_cmp_spec(&b.1) } else { Some(ord_of(rank(a.0), rank(b.0))) }
}

pub open spec fn ent_cmp<K, V: Ord>(a: (K, V), b: (K, V)) -> Ordering {
    if rank(a.0) == rank(b.0) { a.1.cmp_spec(&b.1) } else { ord_of(rank(a.0), rank(b.0)) }
}

// Lexicographic order.
pub open spec fn lex_pcmp<K, V: PartialOrd>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> Option<Ordering>
    decreases a.len()
{
    if a.len() == 0 { Some(if b.len() == 0 { Ordering::Equal } else { Ordering::Less }) }
    else if b.len() == 0 { Some(Ordering::Greater) }
    else if ent_pcmp(a[0], b[0]) == Some(Ordering::Equal) { lex_pcmp(a.skip(1), b.skip(1)) }
    else { ent_pcmp(a[0], b[0]) }
}

pub open spec fn lex_cmp<K, V: Ord>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if ent_cmp(a[0], b[0]) == Ordering::Equal { lex_cmp(a.skip(1), b.skip(1)) }
    else { ent_cmp(a[0], b[0]) }
}

// std's Iterator::eq, partial_cmp and cmp, TRUSTED: element by element, a shorter one first, and pairs
// by key, then by value.
pub trait SourceCmp<'a, K: Ord + 'a, V: 'a>: Source<Item = (&'a K, &'a V)> {
    fn eq<O: Source<Item = (&'a K, &'a V)>>(self, other: O) -> (r: bool) where V: PartialEq
        requires self.live(), other.live()
        ensures r == all_eq(derefs(self.coming()), derefs(other.coming()));
    fn partial_cmp<O: Source<Item = (&'a K, &'a V)>>(self, other: O) -> (r: Option<Ordering>) where V: PartialOrd
        requires self.live(), other.live()
        ensures r == lex_pcmp(derefs(self.coming()), derefs(other.coming()));
    fn cmp<O: Source<Item = (&'a K, &'a V)>>(self, other: O) -> (r: Ordering) where V: Ord
        requires self.live(), other.live()
        ensures r == lex_cmp(derefs(self.coming()), derefs(other.coming()));
}

impl<'a, K: Ord + 'a, V: 'a, S: Source<Item = (&'a K, &'a V)>> SourceCmp<'a, K, V> for S {
    #[verifier::external_body]
    fn eq<O: Source<Item = (&'a K, &'a V)>>(self, other: O) -> (r: bool) where V: PartialEq { unimplemented!() }
    #[verifier::external_body]
    fn partial_cmp<O: Source<Item = (&'a K, &'a V)>>(self, other: O) -> (r: Option<Ordering>) where V: PartialOrd { unimplemented!() }
    #[verifier::external_body]
    fn cmp<O: Source<Item = (&'a K, &'a V)>>(self, other: O) -> (r: Ordering) where V: Ord { unimplemented!() }
}

pub broadcast proof fn derefs_refs<'a, K, V>(s: Seq<(K, V)>)
    ensures derefs(#[trigger] refs::<'a, K, V>(s)) == s
{
    assert(derefs(refs::<'a, K, V>(s)) =~= s);
}

// Hashing: TRUSTED, that hashing an entry takes the hasher from one state to another that depends on
// nothing but the first and the entry.
pub uninterp spec fn fed<H, E>(h: H, e: E) -> H;

#[verifier::external_body]
pub fn feed<E, H>(e: E, state: &mut H)
    ensures *final(state) == fed(*old(state), e)
{ unimplemented!() }

pub open spec fn fed_all<'a, H, K, V>(h: H, s: Seq<(K, V)>) -> H
    decreases s.len()
{
    if s.len() == 0 { h } else { fed_all::<H, K, V>(fed(h, (&s[0].0, &s[0].1)), s.skip(1)) }
}

// A lawful Hash: what is equal feeds the hasher alike.
pub open spec fn hash_law<H, K, V: PartialEq>() -> bool {
    forall|h: H, a: (K, V), b: (K, V)| ent_eq(a, b) ==> #[trigger] fed(h, (&a.0, &a.1)) == #[trigger] fed(h, (&b.0, &b.1))
}

// Equal trees hash equally.
pub proof fn equal_hash<H, K, V: PartialEq>(h: H, a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires all_eq(a, b), hash_law::<H, K, V>()
    ensures fed_all(h, a) == fed_all(h, b)
    decreases a.len()
{
    if a.len() > 0 {
        assert(ent_eq(a[0], b[0]));
        assert(all_eq(a.skip(1), b.skip(1))) by {
            assert forall|i: int| 0 <= i < a.len() - 1 implies ent_eq(#[trigger] a.skip(1)[i], b.skip(1)[i]) by { assert(ent_eq(a[i + 1], b[i + 1])); }
        }
        equal_hash(fed(h, (&a[0].0, &a[0].1)), a.skip(1), b.skip(1));
    }
}

// Equal trees are those whose entries compare equal, and no others.
pub proof fn lex_equal<K, V: Ord>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires forall|x: V, y: V| (#[trigger] x.cmp_spec(&y) == Ordering::Equal) == x.eq_spec(&y)
    ensures (lex_cmp(a, b) == Ordering::Equal) == all_eq(a, b)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lex_equal(a.skip(1), b.skip(1));
        if all_eq(a, b) {
            assert(ent_eq(a[0], b[0]));
            assert forall|i: int| 0 <= i < a.len() - 1 implies ent_eq(#[trigger] a.skip(1)[i], b.skip(1)[i]) by { assert(ent_eq(a[i + 1], b[i + 1])); }
        }
        if ent_eq(a[0], b[0]) && all_eq(a.skip(1), b.skip(1)) {
            assert forall|i: int| 0 <= i < a.len() implies ent_eq(#[trigger] a[i], b[i]) by {
                if i > 0 { assert(ent_eq(a.skip(1)[i - 1], b.skip(1)[i - 1])); }
            }
        }
    }
}
