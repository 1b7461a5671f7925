// What the edits the crate makes to one node do to the tree under it.  Pure mathematics.

// ---- depth: what makes the recursions end ----

pub open spec fn dep<K, V>(t: ST<K, V>) -> nat
    decreases t, 1nat, 0nat
{
    match t {
        ST::L(_) => 0,
        ST::N { br, seps, kids } => 1 + maxdep(t, kids.len()),
    }
}

pub open spec fn maxdep<K, V>(t: ST<K, V>, n: nat) -> nat
    decreases t, 0nat, n
{
    if t is L || n == 0 || n > t->kids.len() { 0 } else {
        let a = maxdep(t, (n - 1) as nat);
        let b = dep(t->kids[n - 1]);
        if a < b { b } else { a }
    }
}

pub proof fn maxdep_ge<K, V>(t: ST<K, V>, n: nat, i: int)
    requires t is N, 0 <= i < n <= t->kids.len()
    ensures dep(t->kids[i]) <= maxdep(t, n)
    decreases n
{
    if i < n - 1 { maxdep_ge(t, (n - 1) as nat, i); }
}

pub proof fn maxdep_le<K, V>(t: ST<K, V>, n: nat, d: nat)
    requires t is N, n <= t->kids.len(), forall|i: int| 0 <= i < n ==> dep(#[trigger] t->kids[i]) <= d
    ensures maxdep(t, n) <= d
    decreases n
{
    if n > 0 { maxdep_le(t, (n - 1) as nat, d); }
}

pub proof fn dep_kids<K, V>(t: ST<K, V>)
    ensures t is N ==> forall|i: int| 0 <= i < nkids(t) ==> dep(#[trigger] t->kids[i]) < dep(t)
{
    if t is N {
        assert forall|i: int| 0 <= i < nkids(t) implies dep(#[trigger] t->kids[i]) < dep(t) by { maxdep_ge(t, t->kids.len(), i); }
    }
}

pub proof fn dep_le<K, V>(t: ST<K, V>, d: nat)
    requires t is N ==> d > 0 && forall|i: int| 0 <= i < nkids(t) ==> dep(#[trigger] t->kids[i]) < d
    ensures dep(t) <= d
{
    if t is N { maxdep_le(t, t->kids.len(), (d - 1) as nat); }
}

// ---- one child exchanged ----

// Child i, where a search for k leads, exchanged for one with v stored under k.
pub proof fn node_put<K, V>(t: ST<K, V>, i: int, c: ST<K, V>, k: K, v: V)
    requires
        wf(t, false), t is N, i == fi(t, rank(k)), i < nkids(t),
        wf(c, false), c is N <==> t->br, dep(c) <= dep(t->kids[i]),
        i < nkids(t) - 1 || wf(t, true) ==> wf(c, true) && (c is N ==> c->seps.len() > 0 && rank(c->seps.last()) == rank(t->kids[i]->seps.last())),
        ents(c) == put(ents(t->kids[i]), k, v),
    ensures
        wf(with_kid(t, i, c), false),
        wf(t, true) ==> wf(with_kid(t, i, c), true),
        ents(with_kid(t, i, c)) == put(ents(t), k, v),
        dep(with_kid(t, i, c)) <= dep(t),
{
    let p = Seq::<int>::empty();
    path_push(t, p, i);
    lbk_props(t->seps, rank(k));
    assert(kid_ok(t->br, t->seps, t->kids, i, false));
    path_put(t, p.push(i), k, v, c, false);
    if wf(t, true) { path_put(t, p.push(i), k, v, c, true); }
    dep_kids(t);
    dep_le(with_kid(t, i, c), dep(t));
}

// Child i exchanged for one with the same entries.
pub proof fn node_same<K, V>(t: ST<K, V>, i: int, c: ST<K, V>)
    requires
        wf(t, false), t is N, 0 <= i < nkids(t),
        wf(c, false), c is N <==> t->br, dep(c) <= dep(t->kids[i]),
        i < nkids(t) - 1 || wf(t, true) ==> wf(c, true) && (c is N ==> c->seps.len() > 0 && rank(c->seps.last()) == rank(t->kids[i]->seps.last())),
        ents(c) == ents(t->kids[i]),
    ensures
        wf(with_kid(t, i, c), false),
        wf(t, true) ==> wf(with_kid(t, i, c), true),
        ents(with_kid(t, i, c)) == ents(t),
        dep(with_kid(t, i, c)) <= dep(t),
{
    around(t, i, false);
    set_kid_same(t, i, c, false);
    if wf(t, true) { around(t, i, true); set_kid_same(t, i, c, true); }
    dep_kids(t);
    dep_le(with_kid(t, i, c), dep(t));
}

// The last separator of a right-spine node raised.
pub proof fn raise_last<K, V>(t: ST<K, V>, k: K)
    requires wf(t, false), t is N, nkids(t) > 0, rank(t->seps.last()) <= rank(k)
    ensures
        wf(with_sep(t, nkids(t) - 1, k), false),
        ents(with_sep(t, nkids(t) - 1, k)) == ents(t),
        dep(with_sep(t, nkids(t) - 1, k)) <= dep(t),
        fi(with_sep(t, nkids(t) - 1, k), rank(k)) <= nkids(t) - 1,
        rank(t->seps.last()) < rank(k) ==> fi(with_sep(t, nkids(t) - 1, k), rank(k)) == nkids(t) - 1,
{
    let u = with_sep(t, nkids(t) - 1, k);
    let n = nkids(t);
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] rank(u->seps[a]) < #[trigger] rank(u->seps[b]) by {
        assert(rank(t->seps[a]) < rank(t->seps[b]));
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] kid_ok(u->br, u->seps, u->kids, j, false) by {
        assert(kid_ok(t->br, t->seps, t->kids, j, false));
    }
    assert forall|j: int| 0 <= j < n implies wf(#[trigger] u->kids[j], false || j < n - 1) by {
        assert(wf(t->kids[j], false || j < n - 1));
    }
    ents_n(t);
    ents_n(u);
    dep_kids(t);
    dep_le(u, dep(t));
    lbk_props(u->seps, rank(k));
    if rank(t->seps.last()) < rank(k) {
        assert forall|j: int| 0 <= j < n - 1 implies rank(#[trigger] u->seps[j]) < rank(k) by {
            assert(rank(t->seps[j]) < rank(t->seps[n - 1]));
        }
        lbk_is(u->seps, rank(k), n - 1);
    }
}

// ---- one child cut in two ----

pub open spec fn cut_l<K, V>(c: ST<K, V>, h: int) -> ST<K, V> {
    match c { ST::L(es) => ST::L(es.take(h)), ST::N { br, seps, kids } => first_kids(c, h) }
}
pub open spec fn cut_r<K, V>(c: ST<K, V>, h: int) -> ST<K, V> {
    match c { ST::L(es) => ST::L(es.skip(h)), ST::N { br, seps, kids } => last_kids(c, h) }
}
pub open spec fn width<K, V>(c: ST<K, V>) -> int {
    match c { ST::L(es) => es.len() as int, ST::N { br, seps, kids } => kids.len() as int }
}
pub open spec fn cut_key<K, V>(c: ST<K, V>, h: int) -> K {
    match c { ST::L(es) => es[h - 1].0, ST::N { br, seps, kids } => seps[h - 1] }
}
pub open spec fn split_kid<K, V>(t: ST<K, V>, i: int, h: int) -> ST<K, V> {
    let c = t->kids[i];
    two_kids(drop_kid(t, i), i, cut_key(c, h), cut_l(c, h), t->seps[i], cut_r(c, h))
}

pub proof fn cut_wf<K, V>(c: ST<K, V>, h: int, tight: bool)
    requires wf(c, tight), 0 < h < width(c)
    ensures
        wf(cut_l(c, h), true), wf(cut_r(c, h), tight),
        ents(c) == ents(cut_l(c, h)) + ents(cut_r(c, h)),
        ents(cut_l(c, h)).len() > 0, ents(cut_r(c, h)).len() > 0,
        all_le(ents(cut_l(c, h)), rank(cut_key(c, h))),
        all_gt(ents(cut_r(c, h)), rank(cut_key(c, h))),
        dep(cut_l(c, h)) <= dep(c), dep(cut_r(c, h)) <= dep(c),
        c is N ==> cut_l(c, h)->seps.last() == cut_key(c, h) && cut_r(c, h)->seps.last() == c->seps.last(),
{
    let l = cut_l(c, h);
    let r = cut_r(c, h);
    if c is L {
        let es = ents(c);
        sorted_elim(es);
        sorted_intro(ents(l));
        sorted_intro(ents(r));
        assert(es =~= ents(l) + ents(r));
    } else {
        let n = nkids(c);
        assert(sortedk(l->seps)) by {
            assert forall|a: int, b: int| 0 <= a < b < h implies #[trigger] rank(l->seps[a]) < #[trigger] rank(l->seps[b]) by { assert(rank(c->seps[a]) < rank(c->seps[b])); }
        }
        assert(sortedk(r->seps)) by {
            assert forall|a: int, b: int| 0 <= a < b < n - h implies #[trigger] rank(r->seps[a]) < #[trigger] rank(r->seps[b]) by { assert(rank(c->seps[a + h]) < rank(c->seps[b + h])); }
        }
        assert forall|j: int| 0 <= j < h implies #[trigger] kid_ok(l->br, l->seps, l->kids, j, true) by { assert(kid_ok(c->br, c->seps, c->kids, j, tight)); }
        assert forall|j: int| 0 <= j < h implies wf(#[trigger] l->kids[j], true || j < h - 1) by { assert(wf(c->kids[j], tight || j < n - 1)); }
        assert forall|j: int| 0 <= j < n - h implies #[trigger] kid_ok(r->br, r->seps, r->kids, j, tight) by { assert(kid_ok(c->br, c->seps, c->kids, j + h, tight)); }
        assert forall|j: int| 0 <= j < n - h implies wf(#[trigger] r->kids[j], tight || j < n - h - 1) by { assert(wf(c->kids[j + h], tight || j + h < n - 1)); }
        ents_n(c);
        ents_n(l);
        ents_n(r);
        assert(kes(c->kids) =~= kes(l->kids) + kes(r->kids));
        cat_add(kes(l->kids), kes(r->kids));
        ents_at(l, 0);
        ents_at(r, 0);
        assert(kid_ok(c->br, c->seps, c->kids, 0, tight));
        assert(kid_ok(c->br, c->seps, c->kids, h, tight));
        wf_sorted(l, true);
        assert forall|j: int| 0 <= j < ents(r).len() implies rank((#[trigger] ents(r)[j]).0) > rank(cut_key(c, h)) by {
            let w = cat_in(kes(r->kids), j);
            assert(kid_ok(c->br, c->seps, c->kids, w.0 + h, tight));
            assert(ents(c->kids[w.0 + h])[w.1] == ents(r)[j]);
            if w.0 > 0 { assert(rank(c->seps[h - 1]) < rank(c->seps[w.0 + h - 1])); }
        }
        dep_kids(c);
        dep_le(l, dep(c));
        dep_le(r, dep(c));
    }
}

pub proof fn split_kid_wf<K, V>(t: ST<K, V>, i: int, h: int, tight: bool)
    requires wf(t, tight), t is N, 0 <= i < nkids(t), 0 < h < width(t->kids[i])
    ensures
        wf(split_kid(t, i, h), tight),
        ents(split_kid(t, i, h)) == ents(t),
        split_kid(t, i, h)->seps.last() == t->seps.last(),
        nkids(split_kid(t, i, h)) == nkids(t) + 1,
        split_kid(t, i, h)->seps.len() == nkids(t) + 1,
        split_kid(t, i, h)->br == t->br,
        dep(split_kid(t, i, h)) <= dep(t),
        split_kid(t, i, h)->kids[i] == cut_l(t->kids[i], h),
        split_kid(t, i, h)->kids[i + 1] == cut_r(t->kids[i], h),
        split_kid(t, i, h)->seps[i] == cut_key(t->kids[i], h),
        split_kid(t, i, h)->seps[i + 1] == t->seps[i],
        i > 0 ==> split_kid(t, i, h)->seps[i - 1] == t->seps[i - 1],
{
    let u = split_kid(t, i, h);
    let n = nkids(t);
    let c = t->kids[i];
    let l = cut_l(c, h);
    let r = cut_r(c, h);
    around(t, i, tight);
    cut_wf(c, h, tight || i < n - 1);
    split_ents(t, i, h);
    split_seps(t, i, h, tight);
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] kid_ok(u->br, u->seps, u->kids, j, tight) by {
        split_kid_ok(t, i, h, tight, j);
    }
    assert forall|j: int| 0 <= j < n + 1 implies wf(#[trigger] u->kids[j], tight || j < n) by {
        if j < i { assert(u->kids[j] == t->kids[j]); assert(wf(t->kids[j], tight || j < n - 1)); }
        else if j > i + 1 { assert(u->kids[j] == t->kids[j - 1]); assert(wf(t->kids[j - 1], tight || j - 1 < n - 1)); }
    }
    dep_kids(t);
    assert forall|j: int| 0 <= j < n + 1 implies dep(#[trigger] u->kids[j]) < dep(t) by {
        assert(u->kids[j] == if j < i { t->kids[j] } else if j == i { l } else if j == i + 1 { r } else { t->kids[j - 1] });
    }
    dep_le(u, dep(t));
}

pub proof fn split_seps<K, V>(t: ST<K, V>, i: int, h: int, tight: bool)
    requires wf(t, tight), t is N, 0 <= i < nkids(t), 0 < h < width(t->kids[i])
    ensures sortedk(split_kid(t, i, h)->seps), split_kid(t, i, h)->seps == t->seps.insert(i, cut_key(t->kids[i], h))
{
    let u = split_kid(t, i, h);
    let c = t->kids[i];
    let l = cut_l(c, h);
    let r = cut_r(c, h);
    let ck = cut_key(c, h);
    around(t, i, tight);
    cut_wf(c, h, tight || i < nkids(t) - 1);
    assert(ents(l)[0] == ents(c)[0]);
    assert(ents(r)[0] == ents(c)[ents(l).len() as int]);
    assert(rank(ents(r)[0].0) > rank(ck));
    assert(rank(ck) < rank(t->seps[i]));
    if i > 0 { assert(rank(ck) > rank(t->seps[i - 1])) by { assert(rank(ents(l)[0].0) <= rank(ck)); } }
    assert(u->seps =~= t->seps.insert(i, ck));
    insert_sorted(t->seps, i, ck);
}

pub proof fn insert_sorted<K>(ks: Seq<K>, i: int, k: K)
    requires sortedk(ks), 0 <= i <= ks.len(), i < ks.len() ==> rank(k) < rank(ks[i]), i > 0 ==> rank(ks[i - 1]) < rank(k)
    ensures sortedk(ks.insert(i, k))
{
    let u = ks.insert(i, k);
    assert forall|a: int, b: int| 0 <= a < b < u.len() implies #[trigger] rank(u[a]) < #[trigger] rank(u[b]) by {
        if a < i && a < i - 1 { assert(rank(ks[a]) < rank(ks[i - 1])); }
        if b > i + 1 { assert(rank(ks[i]) < rank(ks[b - 1])); }
        if b < i { assert(rank(ks[a]) < rank(ks[b])); }
        if a > i { assert(rank(ks[a - 1]) < rank(ks[b - 1])); }
        if a < i && b > i { if a < b - 1 { assert(rank(ks[a]) < rank(ks[b - 1])); } }
    }
}

proof fn split_kid_ok<K, V>(t: ST<K, V>, i: int, h: int, tight: bool, j: int)
    requires
        wf(t, tight), t is N, 0 <= i < nkids(t), 0 < h < width(t->kids[i]), 0 <= j < nkids(t) + 1,
    ensures
        kid_ok(t->br, split_kid(t, i, h)->seps, split_kid(t, i, h)->kids, j, tight)
{
    let u = split_kid(t, i, h);
    let n = nkids(t);
    let c = t->kids[i];
    let l = cut_l(c, h);
    let r = cut_r(c, h);
    let ck = cut_key(c, h);
    assert(kid_ok(t->br, t->seps, t->kids, i, tight));
    assert(wf(c, tight || i < n - 1));
    cut_wf(c, h, tight || i < n - 1);
    if j < i {
        assert(kid_ok(t->br, t->seps, t->kids, j, tight));
        assert(u->kids[j] == t->kids[j] && u->seps[j] == t->seps[j]);
        if j > 0 { assert(u->seps[j - 1] == t->seps[j - 1]); }
    } else if j > i + 1 {
        assert(kid_ok(t->br, t->seps, t->kids, j - 1, tight));
        assert(u->kids[j] == t->kids[j - 1] && u->seps[j] == t->seps[j - 1]);
        assert(u->seps[j - 1] == t->seps[j - 2]);
    } else if j == i {
        assert(u->kids[j] == l && u->seps[j] == ck);
        if i > 0 {
            assert(u->seps[j - 1] == t->seps[j - 1]);
            assert forall|q: int| 0 <= q < ents(l).len() implies rank((#[trigger] ents(l)[q]).0) > rank(t->seps[i - 1]) by { assert(ents(c)[q] == ents(l)[q]); }
        }
    } else {
        assert(u->kids[j] == r && u->seps[j] == t->seps[i] && u->seps[j - 1] == ck);
        assert forall|q: int| 0 <= q < ents(r).len() implies rank((#[trigger] ents(r)[q]).0) <= rank(t->seps[i]) by { assert(ents(c)[q + ents(l).len()] == ents(r)[q]); }
    }
}

proof fn split_ents<K, V>(t: ST<K, V>, i: int, h: int)
    requires
        t is N, 0 <= i < nkids(t),
        ents(t->kids[i]) == ents(cut_l(t->kids[i], h)) + ents(cut_r(t->kids[i], h)),
    ensures ents(split_kid(t, i, h)) == ents(t)
{
    let u = split_kid(t, i, h);
    let c = t->kids[i];
    let l = cut_l(c, h);
    let r = cut_r(c, h);
    ents_n(u);
    ents_at(t, i);
    assert(kes(u->kids) =~= kes(t->kids.take(i)) + seq![ents(l), ents(r)] + kes(t->kids.skip(i + 1)));
    cat_add(kes(t->kids.take(i)) + seq![ents(l), ents(r)], kes(t->kids.skip(i + 1)));
    cat_add(kes(t->kids.take(i)), seq![ents(l), ents(r)]);
    assert(seq![ents(l), ents(r)] =~= seq![ents(l)] + seq![ents(r)]);
    cat_add(seq![ents(l)], seq![ents(r)]);
    cat_one(ents(l));
    cat_one(ents(r));
}

// ---- a new last leaf ----

pub proof fn push_leaf_wf<K, V>(t: ST<K, V>, k: K, v: V)
    requires wf(t, false), t is N, !t->br, nkids(t) > 0 ==> rank(t->seps.last()) < rank(k)
    ensures
        wf(push_kid(t, k, ST::L(seq![(k, v)])), false),
        ents(push_kid(t, k, ST::L(seq![(k, v)]))) == put(ents(t), k, v),
        !holds(ents(t), rank(k)),
        dep(push_kid(t, k, ST::L(seq![(k, v)]))) <= dep(t),
{
    let c = ST::L(seq![(k, v)]);
    let n = nkids(t);
    let u = push_kid(t, k, c);
    assert forall|a: int, b: int| 0 <= a < b < n + 1 implies #[trigger] rank(u->seps[a]) < #[trigger] rank(u->seps[b]) by {
        if b < n { assert(rank(t->seps[a]) < rank(t->seps[b])); }
        else if a < n - 1 { assert(rank(t->seps[a]) < rank(t->seps[n - 1])); }
    }
    sorted_intro(ents(c));
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] kid_ok(u->br, u->seps, u->kids, j, false) by {
        if j < n { assert(kid_ok(t->br, t->seps, t->kids, j, false)); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies wf(#[trigger] u->kids[j], false || j < n) by {
        if j < n { assert(kid_ok(t->br, t->seps, t->kids, j, false)); assert(wf(t->kids[j], false || j < n - 1)); }
    }
    ents_n(u);
    ents_n(t);
    assert(kes(u->kids).drop_last() =~= kes(t->kids));
    assert(ents(u) == ents(t) + seq![(k, v)]);
    wf_sorted(t, false);
    assert(all_lt(ents(t), rank(k)));
    lb_is(ents(t), rank(k), ents(t).len() as int);
    assert(put(ents(t), k, v) =~= ents(t) + seq![(k, v)]);
    dep_kids(t);
    dep_le(u, dep(t));
}

pub proof fn put_last<K, V>(es: Seq<(K, V)>, k: K, v: V)
    requires all_lt(es, rank(k))
    ensures put(es, k, v) == es.push((k, v)), !holds(es, rank(k)), lb(es, rank(k)) == es.len()
{
    lb_is(es, rank(k), es.len() as int);
    assert(put(es, k, v) =~= es.push((k, v)));
}

// What a recursive insertion into the child a search leads to may rely on.
pub proof fn child_pre<K, V>(t: ST<K, V>, x: real)
    requires wf(t, false), t is N
    ensures
        0 <= fi(t, x) <= nkids(t), sortedk(t->seps), t->seps.len() == nkids(t),
        holds(ents(t), x) ==> fi(t, x) < nkids(t),
        fi(t, x) == nkids(t) ==> !holds(ents(t), x) && (nkids(t) > 0 ==> rank(t->seps.last()) < x) && all_lt(ents(t), x),
        fi(t, x) < nkids(t) ==> {
            let i = fi(t, x);
            let c = t->kids[i];
            &&& wf(c, false) && (c is N <==> t->br) && ents(c).len() > 0 && dep(c) < dep(t)
            &&& c is N ==> nkids(c) > 0
            &&& i < nkids(t) - 1 || (wf(t, true) && x <= rank(t->seps.last())) ==> wf(c, true) && (c is N ==> c->seps.len() > 0 && x <= rank(c->seps.last()))
            &&& holds(ents(t), x) == holds(ents(c), x)
            &&& get_of(ents(t), x) == get_of(ents(c), x)
            &&& sorted(ents(c))
            &&& x <= rank(t->seps.last())
        }
{
    descend(t, x, false);
    lbk_props(t->seps, x);
    dep_kids(t);
    if fi(t, x) < nkids(t) {
        let i = fi(t, x);
        let c = t->kids[i];
        if c is N { kids_nonempty(c); }
        if wf(t, true) { descend(t, x, true); }
        wf_sorted(c, false);
        if i < nkids(t) - 1 { assert(rank(t->seps[i]) < rank(t->seps[nkids(t) - 1])); }
    }
}

// An insertion of a key of rank x finds no room: the node is full and so is the child it leads to.
pub open spec fn jam<K, V>(t: ST<K, V>, x: real, b: nat, l: nat) -> bool {
    let i = if fi(t, x) < nkids(t) { fi(t, x) } else { nkids(t) - 1 };
    t is N && nkids(t) > 0 && nkids(t) == b && width(t->kids[i]) == (if t->br { b } else { l })
}

// A node whose child on the way was just cut in two has room.
pub proof fn split_kid_room<K, V>(t: ST<K, V>, i: int, h: int, x: real, b: nat, l: nat)
    requires
        wf(t, false), t is N, 0 <= i < nkids(t), i == fi(t, x), 0 < h < width(t->kids[i]),
        width(t->kids[i]) <= if t->br { b } else { l },
    ensures !jam(split_kid(t, i, h), x, b, l)
{
    let u = split_kid(t, i, h);
    split_kid_wf(t, i, h, false);
    lbk_props(t->seps, x);
    lbk_props(u->seps, x);
    let f = fi(u, x);
    split_seps(t, i, h, false);
    if f < i { assert(rank(u->seps[f]) == rank(t->seps[f])); }
    if f > i + 1 { assert(u->seps[i + 1] == t->seps[i]); assert(rank(u->seps[i + 1]) < x); }
    assert(i <= f <= i + 1);
}

pub proof fn leaf_facts<K, V>(es: Seq<(K, V)>)
    ensures
        dep(ST::L(es)) == 0, ents(ST::L(es)) == es, width(ST::L(es)) == es.len(),
        forall|tight: bool| #[trigger] wf(ST::L(es), tight) == sorted(es)
{
}

// ---- the right spine ----

pub open spec fn lastr<K, V>(t: ST<K, V>) -> real { rank(t->seps.last()) }

pub open spec fn rmax(a: real, b: real) -> real { if a < b { b } else { a } }

// Each branch on the right spine carries its child's last separator, except that from the top down
// to some level the last separators may be x already and lower ones not yet.
pub open spec fn spine<K, V>(t: ST<K, V>, x: Option<real>) -> bool
    decreases t
{
    t is N && t->br && nkids(t) > 0 ==> {
        let c = t->kids[nkids(t) - 1];
        &&& spine(c, x)
        &&& lastr(t) == lastr(c) || (x is Some && lastr(t) == x->0 && lastr(c) < x->0)
    }
}

pub proof fn spine_tight<K, V>(t: ST<K, V>)
    requires wf(t, true)
    ensures spine(t, None)
    decreases t
{
    if t is N && t->br && nkids(t) > 0 {
        assert(kid_ok(t->br, t->seps, t->kids, nkids(t) - 1, true));
        assert(wf(t->kids[nkids(t) - 1], true || true));
        spine_tight(t->kids[nkids(t) - 1]);
    }
}

pub proof fn tight_spine<K, V>(t: ST<K, V>)
    requires wf(t, false), spine(t, None)
    ensures wf(t, true)
    decreases t
{
    if t is N {
        let n = nkids(t);
        assert forall|i: int| 0 <= i < n implies #[trigger] kid_ok(t->br, t->seps, t->kids, i, true) by {
            assert(kid_ok(t->br, t->seps, t->kids, i, false));
            let c = t->kids[i];
            assert(wf(c, false || i < n - 1));
            if t->br { if i < n - 1 { wf_any(c); } kids_nonempty(c); }
        }
        assert forall|i: int| 0 <= i < n implies wf(#[trigger] t->kids[i], true || i < n - 1) by {
            assert(wf(t->kids[i], false || i < n - 1));
            assert(kid_ok(t->br, t->seps, t->kids, i, false));
            if i == n - 1 {
                if t->br { tight_spine(t->kids[i]); } else { assert(t->kids[i] is L); }
            }
        }
    }
}

pub proof fn spine_weak<K, V>(t: ST<K, V>, x: real)
    requires spine(t, None)
    ensures spine(t, Some(x))
    decreases t
{
    if t is N && t->br && nkids(t) > 0 { spine_weak(t->kids[nkids(t) - 1], x); }
}

pub proof fn spine_even<K, V>(t: ST<K, V>, x: real)
    requires spine(t, Some(x)), t is N && t->br && nkids(t) > 0 ==> lastr(t) != x
    ensures spine(t, None)
    decreases t
{
    if t is N && t->br && nkids(t) > 0 {
        let c = t->kids[nkids(t) - 1];
        spine_even(c, x);
    }
}

// A key was inserted below child i.
pub proof fn spine_put<K, V>(t: ST<K, V>, i: int, c: ST<K, V>, x: real)
    requires
        wf(t, false), t is N, 0 <= i < nkids(t), i == fi(t, x), spine(t, Some(x)),
        t->br ==> spine(c, None) && lastr(c) == rmax(lastr(t->kids[i]), x),
    ensures
        spine(with_kid(t, i, c), None), lastr(with_kid(t, i, c)) == rmax(lastr(t), x),
        t->br && i == nkids(t) - 1 ==> spine(t->kids[i], Some(x)),
{
    lbk_props(t->seps, x);
    let n = nkids(t);
    assert(rank(t->seps[i]) >= x);
    if i < n - 1 {
        assert(rank(t->seps[i]) < rank(t->seps[n - 1]));
        spine_even(t, x);
        if t->br { assert(with_kid(t, i, c)->kids[n - 1] == t->kids[n - 1]); }
    }
}

// Below child i room was made.
pub proof fn spine_same<K, V>(t: ST<K, V>, i: int, c: ST<K, V>, x: real)
    requires
        t is N, 0 <= i < nkids(t), spine(t, Some(x)), x <= lastr(t),
        t->br ==> spine(c, Some(x)) && (lastr(c) == lastr(t->kids[i]) || lastr(c) == rmax(lastr(t->kids[i]), x)),
    ensures
        spine(with_kid(t, i, c), Some(x)), lastr(with_kid(t, i, c)) == lastr(t),
{
    let n = nkids(t);
    if i < n - 1 && t->br { assert(with_kid(t, i, c)->kids[n - 1] == t->kids[n - 1]); }
}

pub proof fn spine_split<K, V>(t: ST<K, V>, i: int, h: int, x: Option<real>)
    requires
        wf(t, false), t is N, 0 <= i < nkids(t), spine(t, x), 0 < h < width(t->kids[i]),
    ensures
        spine(split_kid(t, i, h), x), lastr(split_kid(t, i, h)) == lastr(t),
{
    let n = nkids(t);
    let u = split_kid(t, i, h);
    split_kid_wf(t, i, h, false);
    around(t, i, false);
    if t->br {
        if i < n - 1 { assert(u->kids[n] == t->kids[n - 1]); }
        else {
            let c = t->kids[i];
            let r = cut_r(c, h);
            cut_wf(c, h, false);
            assert(u->kids[n] == r);
            assert(r->kids[nkids(r) - 1] == c->kids[nkids(c) - 1]);
            assert(spine(c, x));
            assert(spine(r, x));
        }
    }
}

pub proof fn spine_raise<K, V>(t: ST<K, V>, k: K)
    requires wf(t, false), t is N, nkids(t) > 0, spine(t, Some(rank(k))), lastr(t) < rank(k)
    ensures
        spine(with_sep(t, nkids(t) - 1, k), Some(rank(k))), lastr(with_sep(t, nkids(t) - 1, k)) == rank(k),
        t->br ==> spine(t->kids[nkids(t) - 1], None) && spine(t->kids[nkids(t) - 1], Some(rank(k))) && lastr(t->kids[nkids(t) - 1]) == lastr(t),
{
    spine_even(t, rank(k));
    if t->br { spine_weak(t->kids[nkids(t) - 1], rank(k)); }
}

// What the child an insertion goes into offers.
pub proof fn spine_child<K, V>(t: ST<K, V>, x: real)
    requires wf(t, false), t is N, spine(t, Some(x)), fi(t, x) < nkids(t), t->br
    ensures spine(t->kids[fi(t, x)], Some(x))
{
    descend(t, x, false);
    let i = fi(t, x);
    if i < nkids(t) - 1 { spine_tight(t->kids[i]); spine_weak(t->kids[i], x); }
}
