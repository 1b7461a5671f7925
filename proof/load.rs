// Bulk loading: the open branches, top first, and what they hold between them.

// A branch with something in it whose separators are all its children's own highest keys.
pub open spec fn snug<K, V>(t: ST<K, V>) -> bool {
    &&& t is N && nkids(t) > 0 && wf(t, true) && ents(t).len() > 0
    &&& t->seps.len() > 0 && lastr(t) == rank(ents(t).last().0)
}

pub open spec fn fresh<K, V>(t: ST<K, V>) -> bool { t is N && t->seps.len() == 0 && t->kids.len() == 0 }

pub type Pile<K, V, C> = Seq<Pointer<Branch<K, V, C>, <C as TreeConfig<K, V>>::PointerKind>>;

pub open spec fn row<K, V, C: TreeConfig<K, V>>(s: Pile<K, V, C>) -> Seq<Seq<(K, V)>> {
    Seq::new(s.len(), |i: int| ents(s[i]@.st()))
}

pub open spec fn held_by<K, V, C: TreeConfig<K, V>>(s: Pile<K, V, C>) -> Seq<(K, V)> { cat(row(s)) }

pub open spec fn pile_ok<K, V, C: TreeConfig<K, V>>(p: Pointer<Branch<K, V, C>, C::PointerKind>) -> bool {
    p@.ok() && p.excl() && p@.has_branches && snug(p@.st())
}

pub open spec fn piled<K, V, C: TreeConfig<K, V>>(s: Pile<K, V, C>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> pile_ok(#[trigger] s[i])
}

pub open spec fn fullp<K, V, C: TreeConfig<K, V>>(p: Pointer<Branch<K, V, C>, C::PointerKind>) -> bool {
    p@.length == bsize::<K, V, C>()
}

// How many of them are full.
pub open spec fn nfull<K, V, C: TreeConfig<K, V>>(s: Pile<K, V, C>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { nfull(s.drop_last()) + if fullp(s.last()) { 1int } else { 0 } }
}

pub proof fn nfull_le<K, V, C: TreeConfig<K, V>>(s: Pile<K, V, C>)
    ensures 0 <= nfull(s) <= s.len()
    decreases s.len()
{
    if s.len() > 0 { nfull_le(s.drop_last()); }
}

pub proof fn pile_push<K, V, C: TreeConfig<K, V>>(s: Pile<K, V, C>, p: Pointer<Branch<K, V, C>, C::PointerKind>)
    ensures
        held_by(s.push(p)) == held_by(s) + ents(p@.st()),
        nfull(s.push(p)) == nfull(s) + if fullp(p) { 1int } else { 0 },
        piled(s) && pile_ok(p) ==> piled(s.push(p)),
{
    assert(row(s.push(p)).drop_last() =~= row(s));
    assert(s.push(p).drop_last() =~= s);
}

pub proof fn pile_last<K, V, C: TreeConfig<K, V>>(s: Pile<K, V, C>)
    requires s.len() > 0
    ensures
        held_by(s) == held_by(s.drop_last()) + ents(s.last()@.st()),
        nfull(s) == nfull(s.drop_last()) + if fullp(s.last()) { 1int } else { 0 },
        piled(s) ==> piled(s.drop_last()) && pile_ok(s.last()),
{
    pile_push(s.drop_last(), s.last());
    assert(s.drop_last().push(s.last()) =~= s);
}

pub proof fn sorted_parts<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires sorted(a + b)
    ensures
        sorted(a), sorted(b),
        a.len() > 0 ==> all_gt(b, rank(a.last().0)),
{
    let e = a + b;
    sorted_elim(e);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies rank((#[trigger] a[i]).0) < rank((#[trigger] a[j]).0) by { assert(e[i] == a[i] && e[j] == a[j]); }
    sorted_intro(a);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies rank((#[trigger] b[i]).0) < rank((#[trigger] b[j]).0) by {
        assert(e[a.len() + i] == b[i] && e[a.len() + j] == b[j]);
    }
    sorted_intro(b);
    if a.len() > 0 {
        assert forall|j: int| 0 <= j < b.len() implies rank((#[trigger] b[j]).0) > rank(a.last().0) by {
            assert(e[a.len() + j] == b[j] && e[a.len() - 1] == a.last());
        }
    }
}

pub proof fn sorted_more<K, V>(a: Seq<(K, V)>, e: (K, V))
    ensures
        sorted(a + seq![e]) ==> sorted(a),
        sorted(a) && (a.len() > 0 ==> rank(a.last().0) < rank(e.0)) ==> sorted(a.push(e)),
{
    if sorted(a + seq![e]) { sorted_parts(a, seq![e]); }
    if sorted(a) && (a.len() > 0 ==> rank(a.last().0) < rank(e.0)) {
        let s = a.push(e);
        sorted_elim(a);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies rank((#[trigger] s[i]).0) < rank((#[trigger] s[j]).0) by {
            if j < a.len() { assert(s[i] == a[i] && s[j] == a[j]); }
            else if i < a.len() - 1 { assert(rank(a[i].0) < rank(a[a.len() - 1].0)); }
        }
        sorted_intro(s);
    }
}

// A child put after the others.
pub proof fn snug_push<K, V>(t: ST<K, V>, k: K, c: ST<K, V>)
    requires
        fresh(t) || snug(t),
        t->br ==> snug(c) && rank(k) == lastr(c),
        !t->br ==> c is L && ents(c).len() > 0 && rank(k) == rank(ents(c).last().0),
        sorted(ents(t) + ents(c)),
    ensures
        snug(push_kid(t, k, c)), ents(push_kid(t, k, c)) == ents(t) + ents(c),
{
    let u = push_kid(t, k, c);
    let n = nkids(t);
    ents_n(u);
    ents_n(t);
    assert(kes(u->kids).drop_last() =~= kes(t->kids));
    assert(kes(u->kids).last() == ents(c));
    if fresh(t) { assert(ents(t).len() == 0) by { assert(kes(t->kids).len() == 0); } }
    sorted_parts(ents(t), ents(c));
    sorted_elim(ents(c));
    assert(c->L_0 == ents(c) || t->br);
    assert(wf(c, true));
    assert(all_le(ents(c), rank(k))) by {
        assert forall|j: int| 0 <= j < ents(c).len() implies rank((#[trigger] ents(c)[j]).0) <= rank(k) by {
            if j < ents(c).len() - 1 { assert(rank(ents(c)[j].0) < rank(ents(c)[ents(c).len() - 1].0)); }
        }
    }
    assert(rank(k) == rank(ents(c).last().0));
    if n > 0 { assert(rank(ents(c)[ents(c).len() - 1].0) > rank(ents(t).last().0)); }
    assert forall|a: int, b: int| 0 <= a < b < n + 1 implies #[trigger] rank(u->seps[a]) < #[trigger] rank(u->seps[b]) by {
        if b < n { assert(rank(t->seps[a]) < rank(t->seps[b])); }
        else if a < n - 1 { assert(rank(t->seps[a]) < rank(t->seps[n - 1])); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] kid_ok(u->br, u->seps, u->kids, j, true) by {
        if j < n { assert(kid_ok(t->br, t->seps, t->kids, j, true)); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies wf(#[trigger] u->kids[j], true || j < n) by {
        if j < n { assert(wf(t->kids[j], true || j < n - 1)); }
    }
}

// The whole tree, when one branch is left.
pub open spec fn whole<K, V, C: TreeConfig<K, V>>(s: Pile<K, V, C>) -> bool {
    wf(s[0]@.st(), false) && spine(s[0]@.st(), None) && ents(s[0]@.st()) == held_by(s)
}

pub proof fn pile_one<K, V, C: TreeConfig<K, V>>(s: Pile<K, V, C>)
    requires piled(s), s.len() == 1
    ensures whole(s)
{
    pile_last(s);
    assert(row(s.drop_last()) =~= seq![]);
    assert(held_by(s) =~= ents(s[0]@.st()));
    assert(pile_ok(s[0]));
    wf_any(s[0]@.st());
    spine_tight(s[0]@.st());
}

pub proof fn fresh_ents<K, V>(t: ST<K, V>)
    requires fresh(t)
    ensures ents(t) == Seq::<(K, V)>::empty()
{
    ents_n(t);
    assert(kes(t->kids) =~= seq![]);
    assert(ents(t) =~= seq![]);
}

// h is below the open parent t, whose open leaf is l.
pub open spec fn load_ready<K, V>(h: Seq<(K, V)>, t: ST<K, V>, l: Seq<(K, V)>) -> bool {
    &&& sorted(h + ents(t)) && (fresh(t) ==> h + ents(t) == h)
    &&& h + ents(t) + l == h + (ents(t) + l)
    &&& l.len() > 0 ==> forall|k: K| rank(k) == rank(l.last().0) ==> snug(#[trigger] push_kid(t, k, ST::L(l))) && ents(push_kid(t, k, ST::L(l))) == ents(t) + l
    &&& l.len() > 0 ==> forall|u: ST<K, V>, k: K| rank(k) == rank(l.last().0) && fresh(u) && !u->br
            ==> snug(#[trigger] push_kid(u, k, ST::L(l))) && ents(push_kid(u, k, ST::L(l))) == l
}

pub proof fn load_step<K, V>(h: Seq<(K, V)>, t: ST<K, V>, l: Seq<(K, V)>)
    requires sorted(h + ents(t) + l), fresh(t) || snug(t), t is N, !t->br
    ensures load_ready(h, t, l)
{
    sorted_parts(h + ents(t), l);
    assert(h + ents(t) + l =~= h + (ents(t) + l));
    sorted_parts(h, ents(t) + l);
    if fresh(t) { fresh_ents(t); assert(h + ents(t) =~= h); }
    if l.len() > 0 {
        assert forall|k: K| rank(k) == rank(l.last().0) implies snug(#[trigger] push_kid(t, k, ST::L(l))) && ents(push_kid(t, k, ST::L(l))) == ents(t) + l by {
            snug_push(t, k, ST::L(l));
        }
        assert forall|u: ST<K, V>, k: K| rank(k) == rank(l.last().0) && fresh(u) && !u->br
            implies snug(#[trigger] push_kid(u, k, ST::L(l))) && ents(push_kid(u, k, ST::L(l))) == l by {
            fresh_ents(u);
            assert(ents(u) + l =~= l);
            snug_push(u, k, ST::L(l));
        }
    }
}

// The next entry.
pub proof fn load_next<K, V>(items: Seq<(K, V)>, n: int, coming: Seq<(K, V)>)
    requires 0 <= n < items.len(), coming == items.skip(n), sorted(items.take(n))
    ensures
        coming[0] == items[n], coming.skip(1) == items.skip(n + 1),
        items.take(n + 1) == items.take(n).push(items[n]),
        n > 0 ==> items.take(n).last() == items[n - 1],
        n > 0 && rank(items[n - 1].0) >= rank(items[n].0) ==> !sorted(items),
        n > 0 ==> rank(items[n - 1].0) < rank(items[n].0) ==> sorted(items.take(n + 1)),
        n == 0 ==> sorted(items.take(n + 1)),
{
    assert(coming.skip(1) =~= items.skip(n + 1));
    assert(items.take(n + 1) =~= items.take(n).push(items[n]));
    sorted_more(items.take(n), items[n]);
    if sorted(items) { sorted_elim(items); }
}

pub proof fn load_pre<K, V>(items: Seq<(K, V)>, n: int)
    requires 0 <= n <= items.len(), sorted(items)
    ensures sorted(items.take(n))
{
    assert(items =~= items.take(n) + items.skip(n));
    sorted_parts(items.take(n), items.skip(n));
}

// A key that may not follow the one before it.
#[verifier::external_body]
pub fn rt_refuse(Ghost(why): Ghost<bool>)
    requires why
    ensures false
{ unimplemented!() }
