// Where entries come from: the crate's own iterators, and a caller's.

// std::iter::Iterator, as the crate uses it.  TRUSTED of a caller's iterator: it yields some finite
// sequence and then nothing.  The crate's own iterators are shown to be like that.
pub trait Source: Sized {
    type Item;
    spec fn live(&self) -> bool;
    spec fn coming(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).live()
        ensures
            final(self).live(),
            drew(old(self).coming(), r, final(self).coming());
}

pub open spec fn drew<A>(c0: Seq<A>, a: Option<A>, c1: Seq<A>) -> bool {
    match a {
        None => c0.len() == 0 && c1.len() == 0,
        Some(e) => c0.len() > 0 && e == c0[0] && c1 == c0.skip(1),
    }
}

// std::iter::IntoIterator.
pub trait IntoSource: Sized {
    type Item;
    type Src: Source<Item = Self::Item>;
    spec fn ready(&self) -> bool;
    spec fn items(&self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Self::Src)
        requires self.ready()
        ensures r.live(), r.coming() == self.items();
}

impl<S: Source> IntoSource for S {
    type Item = S::Item;
    type Src = S;
    open spec fn ready(&self) -> bool { self.live() }
    open spec fn items(&self) -> Seq<S::Item> { self.coming() }
    fn into_iter(self) -> (r: S) { self }
}

impl<K: Clone + Ord, V, C: TreeConfig<K, V>> Source for OwnedIter<K, V, C> {
    type Item = (K, V);
    open spec fn live(&self) -> bool { self.inv() }
    open spec fn coming(&self) -> Seq<(K, V)> { self.rest() }
    fn next(&mut self) -> (r: Option<(K, V)>) { OwnedIter::next(self) }
}

pub open spec fn refs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }

impl<'a, K: Clone + Ord, V, C: TreeConfig<K, V> + 'a> Source for Iter<'a, K, V, C> {
    type Item = (&'a K, &'a V);
    open spec fn live(&self) -> bool { self.inv() }
    open spec fn coming(&self) -> Seq<(&'a K, &'a V)> { refs(self.rest()) }
    fn next(&mut self) -> (r: Option<(&'a K, &'a V)>) {
        let r = Iter::next(self);
        proof { assert(self.coming() =~= refs(old(self).rest()).skip(if r is Some { 1 } else { 0 })); }
        r
    }
}

impl<'a, K: Clone + Ord, V, C: TreeConfig<K, V> + 'a> IntoSource for &'a PalmTree<K, V, C> {
    type Item = (&'a K, &'a V);
    type Src = Iter<'a, K, V, C>;
    open spec fn ready(&self) -> bool { PalmTree::inv(*self) }
    open spec fn items(&self) -> Seq<(&'a K, &'a V)> { refs(PalmTree::all(*self)) }
    fn into_iter(self) -> (r: Iter<'a, K, V, C>) { PalmTree::ref_into_iter(self) }
}

// Inserting one after the other.
pub open spec fn puts<K, V>(s: Seq<(K, V)>, es: Seq<(K, V)>) -> Seq<(K, V)>
    decreases es.len()
{
    if es.len() == 0 { s } else { puts(put(s, es[0].0, es[0].1), es.skip(1)) }
}

pub open spec fn derefs<'a, K, V>(s: Seq<(&'a K, &'a V)>) -> Seq<(K, V)> { Seq::new(s.len(), |i: int| (*s[i].0, *s[i].1)) }

pub proof fn derefs_skip<'a, K, V>(s: Seq<(&'a K, &'a V)>)
    requires s.len() > 0
    ensures derefs(s).skip(1) == derefs(s.skip(1))
{
    assert(derefs(s).skip(1) =~= derefs(s.skip(1)));
}

// Iterator::map over a source.  (The crate's code gives the function; what it makes of an entry is stated
// beside it, and the function has to give nothing else.)
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(F)]
pub struct Mapped<S: Source, B, F: Fn(S::Item) -> B> { pub s: S, pub f: F, pub g: Ghost<spec_fn(S::Item) -> B> }

pub trait SourceMap: Source {
    fn src_map<B, F: Fn(Self::Item) -> B>(self, f: F, g: Ghost<spec_fn(Self::Item) -> B>) -> (r: Mapped<Self, B, F>)
        requires self.live(), forall|e: Self::Item| #[trigger] f.requires((e,)), forall|e: Self::Item, b: B| #[trigger] f.ensures((e,), b) ==> b == (g@)(e)
        ensures r.live(), r.coming() == self.coming().map_values(g@);
}

impl<S: Source> SourceMap for S {
    fn src_map<B, F: Fn(S::Item) -> B>(self, f: F, g: Ghost<spec_fn(S::Item) -> B>) -> (r: Mapped<S, B, F>) { Mapped { s: self, f, g } }
}

impl<S: Source, B, F: Fn(S::Item) -> B> Source for Mapped<S, B, F> {
    type Item = B;
    open spec fn live(&self) -> bool {
        &&& self.s.live() && forall|e: S::Item| #[trigger] self.f.requires((e,))
        &&& forall|e: S::Item, b: B| #[trigger] self.f.ensures((e,), b) ==> b == (self.g@)(e)
    }
    open spec fn coming(&self) -> Seq<B> { self.s.coming().map_values(self.g@) }
    fn next(&mut self) -> (r: Option<B>) {
        let r = match self.s.next() { Some(e) => Some((self.f)(e)), None => None };
        proof { assert(self.coming() =~= old(self).coming().skip(if r is Some { 1 } else { 0 })); }
        r
    }
}

pub open spec fn copied<'a, K, V>() -> spec_fn((&'a K, &'a V)) -> (K, V) { |e: (&'a K, &'a V)| (*e.0, *e.1) }

pub proof fn derefs_of<'a, K, V>(s: Seq<(K, V)>)
    ensures refs::<'a, K, V>(s).map_values(copied()) == s
{
    assert(refs::<'a, K, V>(s).map_values(copied()) =~= s);
}

// std's BTreeMap, TRUSTED: it holds entries with ascending keys, and gives them in that order.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { d: PhantomData<(K, V)> }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeIter<K, V> { d: PhantomData<(K, V)> }

impl<K, V> View for BTreeMap<K, V> {
    type V = Seq<(K, V)>;
    uninterp spec fn view(&self) -> Seq<(K, V)>;
}

impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: BTreeIter<K, V>)
        ensures r.live(), r.coming() == self@, sorted(self@)
    { unimplemented!() }
}

impl<K, V> Source for BTreeIter<K, V> {
    type Item = (K, V);
    uninterp spec fn live(&self) -> bool;
    uninterp spec fn coming(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(K, V)>) { unimplemented!() }
}

// What a function whose body is left out returns, where its signature says only `impl Iterator`.
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct AnySource<A> { d: PhantomData<A> }

impl<A> Source for AnySource<A> {
    type Item = A;
    uninterp spec fn live(&self) -> bool;
    uninterp spec fn coming(&self) -> Seq<A>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<A>) { unimplemented!() }
}
