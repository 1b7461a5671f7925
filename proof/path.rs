// Paths into the abstract tree, and what an edit at the end of one does to the whole.  Pure
// mathematics: no executable code, nothing assumed.

// ---- exchanging what is stored under x ----

pub open spec fn hit<K, V>(es: Seq<(K, V)>, x: real) -> int { if holds(es, x) { 1 } else { 0 } }

pub open spec fn splice<K, V>(es: Seq<(K, V)>, x: real, e: Seq<(K, V)>) -> Seq<(K, V)> {
    es.take(lb(es, x)) + e + es.skip(lb(es, x) + hit(es, x))
}

pub open spec fn one<K, V>(e: Seq<(K, V)>, x: real) -> bool {
    e.len() <= 1 && (e.len() == 1 ==> rank(e[0].0) == x)
}

pub open spec fn stored<K, V>(es: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> {
    seq![(if holds(es, rank(k)) { es[lb(es, rank(k))].0 } else { k }, v)]
}

pub proof fn splice_put<K, V>(es: Seq<(K, V)>, k: K, v: V)
    requires sorted(es)
    ensures put(es, k, v) == splice(es, rank(k), stored(es, k, v)), one(stored(es, k, v), rank(k))
{
    lb_props(es, rank(k));
    assert(put(es, k, v) =~= splice(es, rank(k), stored(es, k, v)));
}

pub proof fn splice_without<K, V>(es: Seq<(K, V)>, x: real)
    requires sorted(es)
    ensures without(es, x) == splice(es, x, seq![]), one(Seq::<(K, V)>::empty(), x)
{
    lb_props(es, x);
    assert(without(es, x) =~= splice(es, x, seq![]));
}

pub proof fn splice_props<K, V>(es: Seq<(K, V)>, x: real, e: Seq<(K, V)>)
    requires sorted(es), one(e, x)
    ensures
        sorted(splice(es, x, e)),
        splice(es, x, e).len() == es.len() - hit(es, x) + e.len(),
        forall|y: real| all_le(es, y) && (x <= y || e.len() == 0) ==> #[trigger] all_le(splice(es, x, e), y),
        forall|y: real| all_gt(es, y) && (x > y || e.len() == 0) ==> #[trigger] all_gt(splice(es, x, e), y),
{
    lb_props(es, x);
    sorted_elim(es);
    let l = lb(es, x);
    let h = hit(es, x);
    let r = splice(es, x, e);
    assert forall|j: int| 0 <= j < l implies #[trigger] r[j] == es[j] by {}
    assert forall|j: int| l + e.len() <= j < r.len() implies #[trigger] r[j] == es[j - e.len() + h] by {}
    assert(e.len() == 1 ==> r[l] == e[0]);
    assert forall|j: int| l + h <= j < es.len() implies rank((#[trigger] es[j]).0) > x by {}
    sorted_intro(r);
    assert forall|y: real| all_le(es, y) && (x <= y || e.len() == 0) implies #[trigger] all_le(r, y) by {
        assert forall|j: int| 0 <= j < r.len() implies rank((#[trigger] r[j]).0) <= y by {}
    }
    assert forall|y: real| all_gt(es, y) && (x > y || e.len() == 0) implies #[trigger] all_gt(r, y) by {
        assert forall|j: int| 0 <= j < r.len() implies rank((#[trigger] r[j]).0) > y by {}
    }
}

pub proof fn splice_win<K, V>(a: Seq<(K, V)>, m: Seq<(K, V)>, z: Seq<(K, V)>, x: real, e: Seq<(K, V)>)
    requires sorted(m), all_lt(a, x), all_gt(z, x)
    ensures splice(a + m + z, x, e) == a + splice(m, x, e) + z
{
    window(a, m, z, x);
    assert(splice(a + m + z, x, e) =~= a + splice(m, x, e) + z);
}

// ---- exchanging a child ----

pub proof fn set_kid<K, V>(t: ST<K, V>, i: int, c: ST<K, V>, k: K, tight: bool)
    requires
        wf(t, tight), t is N, 0 <= i < nkids(t),
        wf(c, tight || i < nkids(t) - 1), c is N <==> t->br, ents(c).len() > 0,
        all_le(ents(c), rank(k)), rank(k) <= rank(t->seps[i]),
        i > 0 ==> all_gt(ents(c), rank(t->seps[i - 1])),
        t->br && (tight || i < nkids(t) - 1) ==> c->seps.len() > 0 && rank(k) == rank(c->seps.last()),
    ensures
        wf(with_sep(with_kid(t, i, c), i, k), tight),
        ents(with_sep(with_kid(t, i, c), i, k)) == before(t, i) + ents(c) + after(t, i),
        with_sep(with_kid(t, i, c), i, k) == with_kid(with_sep(t, i, k), i, c),
{
    let u = with_sep(with_kid(t, i, c), i, k);
    assert(u == with_kid(with_sep(t, i, k), i, c));
    let n = nkids(t);
    if i > 0 {
        assert(rank(ents(c)[0].0) > rank(t->seps[i - 1]));
        assert(rank(ents(c)[0].0) <= rank(k));
    }
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] rank(u->seps[a]) < #[trigger] rank(u->seps[b]) by {
        if b == i { if a < i - 1 { assert(rank(t->seps[a]) < rank(t->seps[i - 1])); } }
        else if a == i { assert(rank(t->seps[i]) < rank(t->seps[b])); }
        else { assert(rank(t->seps[a]) < rank(t->seps[b])); }
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] kid_ok(u->br, u->seps, u->kids, j, tight) by {
        assert(kid_ok(t->br, t->seps, t->kids, j, tight));
        if j == i + 1 {
            let es = ents(t->kids[j]);
            assert forall|q: int| 0 <= q < es.len() implies rank((#[trigger] es[q]).0) > rank(k) by {
                assert(rank(es[q].0) > rank(t->seps[i]));
            }
        }
    }
    assert forall|j: int| 0 <= j < n implies wf(#[trigger] u->kids[j], tight || j < n - 1) by {
        assert(wf(t->kids[j], tight || j < n - 1) || j == i);
    }
    ents_at(u, i);
    assert(u->kids.take(i) =~= t->kids.take(i));
    assert(u->kids.skip(i + 1) =~= t->kids.skip(i + 1));
}

pub proof fn set_kid_same<K, V>(t: ST<K, V>, i: int, c: ST<K, V>, tight: bool)
    requires
        wf(t, tight), t is N, 0 <= i < nkids(t),
        wf(c, tight || i < nkids(t) - 1), c is N <==> t->br, ents(c).len() > 0,
        all_le(ents(c), rank(t->seps[i])),
        i > 0 ==> all_gt(ents(c), rank(t->seps[i - 1])),
        t->br && (tight || i < nkids(t) - 1) ==> c->seps.len() > 0 && rank(t->seps[i]) == rank(c->seps.last()),
    ensures
        wf(with_kid(t, i, c), tight),
        ents(with_kid(t, i, c)) == before(t, i) + ents(c) + after(t, i),
{
    set_kid(t, i, c, t->seps[i], tight);
    assert(with_sep(with_kid(t, i, c), i, t->seps[i])->seps =~= t->seps);
    assert(with_sep(with_kid(t, i, c), i, t->seps[i]) == with_kid(t, i, c));
}

pub proof fn with_kid_id<K, V>(t: ST<K, V>, i: int)
    requires t is N, 0 <= i < nkids(t)
    ensures with_kid(t, i, t->kids[i]) == t
{
    assert(t->kids.update(i, t->kids[i]) =~= t->kids);
}

pub proof fn with_kid_over<K, V>(t: ST<K, V>, i: int, a: ST<K, V>, b: ST<K, V>)
    requires t is N, 0 <= i < nkids(t)
    ensures with_kid(with_kid(t, i, a), i, b) == with_kid(t, i, b)
{
    assert(t->kids.update(i, a).update(i, b) =~= t->kids.update(i, b));
}

// ---- paths ----

pub open spec fn at<K, V>(t: ST<K, V>, p: Seq<int>) -> ST<K, V>
    decreases p.len()
{
    if p.len() == 0 { t } else { at(t, p.drop_last())->kids[p.last()] }
}

pub open spec fn upd<K, V>(t: ST<K, V>, p: Seq<int>, c: ST<K, V>) -> ST<K, V>
    decreases p.len()
{
    if p.len() == 0 { c } else { upd(t, p.drop_last(), with_kid(at(t, p.drop_last()), p.last(), c)) }
}

pub open spec fn vpath<K, V>(t: ST<K, V>, p: Seq<int>) -> bool
    decreases p.len()
{
    p.len() == 0 || {
        let b = at(t, p.drop_last());
        vpath(t, p.drop_last()) && b is N && 0 <= p.last() < nkids(b)
    }
}

// The path a search for x follows.
pub open spec fn kpath<K, V>(t: ST<K, V>, p: Seq<int>, x: real) -> bool
    decreases p.len()
{
    p.len() == 0 || {
        let b = at(t, p.drop_last());
        kpath(t, p.drop_last(), x) && b is N && 0 <= p.last() < nkids(b) && p.last() == fi(b, x)
    }
}

// Whether what the path leads to lies below the right spine.
pub open spec fn tpath<K, V>(t: ST<K, V>, p: Seq<int>, tight: bool) -> bool
    decreases p.len()
{
    if p.len() == 0 { tight } else { tpath(t, p.drop_last(), tight) || p.last() < nkids(at(t, p.drop_last())) - 1 }
}

pub proof fn path_push<K, V>(t: ST<K, V>, p: Seq<int>, i: int)
    ensures
        p.push(i).drop_last() == p, p.push(i).last() == i,
        at(t, p.push(i)) == at(t, p)->kids[i],
        forall|c: ST<K, V>| #[trigger] upd(t, p.push(i), c) == upd(t, p, with_kid(at(t, p), i, c)),
        vpath(t, p.push(i)) == (vpath(t, p) && at(t, p) is N && 0 <= i < nkids(at(t, p))),
        forall|x: real| #[trigger] kpath(t, p.push(i), x) == (kpath(t, p, x) && at(t, p) is N && 0 <= i < nkids(at(t, p)) && i == fi(at(t, p), x)),
        forall|g: bool| #[trigger] tpath(t, p.push(i), g) == (tpath(t, p, g) || i < nkids(at(t, p)) - 1),
{
    assert(p.push(i).drop_last() =~= p);
}

pub proof fn path_split(p: Seq<int>)
    requires p.len() > 0
    ensures p.drop_last().push(p.last()) == p
{
    assert(p.drop_last().push(p.last()) =~= p);
}

pub proof fn path_k_v<K, V>(t: ST<K, V>, p: Seq<int>, x: real)
    requires kpath(t, p, x)
    ensures vpath(t, p)
    decreases p.len()
{
    if p.len() > 0 { path_k_v(t, p.drop_last(), x); }
}

pub proof fn path_wf<K, V>(t: ST<K, V>, p: Seq<int>, tight: bool)
    requires vpath(t, p), wf(t, tight)
    ensures
        wf(at(t, p), tpath(t, p, tight)), wf(at(t, p), false),
        p.len() > 0 ==> ents(at(t, p)).len() > 0,
        p.len() > 0 ==> (at(t, p) is N <==> at(t, p.drop_last())->br),
    decreases p.len()
{
    if p.len() > 0 {
        path_wf(t, p.drop_last(), tight);
        let b = at(t, p.drop_last());
        assert(kid_ok(b->br, b->seps, b->kids, p.last(), tpath(t, p.drop_last(), tight)));
        assert(wf(b->kids[p.last()], tpath(t, p.drop_last(), tight) || p.last() < nkids(b) - 1));
    }
    if tpath(t, p, tight) { wf_any(at(t, p)); }
}

pub proof fn path_find<K, V>(t: ST<K, V>, p: Seq<int>, x: real)
    requires kpath(t, p, x), wf(t, false)
    ensures
        vpath(t, p), wf(at(t, p), false),
        holds(ents(t), x) == holds(ents(at(t, p)), x),
        get_of(ents(t), x) == get_of(ents(at(t, p)), x),
    decreases p.len()
{
    path_k_v(t, p, x);
    path_wf(t, p, false);
    if p.len() > 0 {
        path_find(t, p.drop_last(), x);
        descend(at(t, p.drop_last()), x, false);
    }
}

pub proof fn at_upd<K, V>(t: ST<K, V>, p: Seq<int>, c: ST<K, V>)
    requires vpath(t, p)
    ensures at(upd(t, p, c), p) == c, vpath(upd(t, p, c), p)
    decreases p.len()
{
    if p.len() > 0 {
        at_upd(t, p.drop_last(), with_kid(at(t, p.drop_last()), p.last(), c));
    }
}

pub proof fn upd_upd<K, V>(t: ST<K, V>, p: Seq<int>, a: ST<K, V>, b: ST<K, V>)
    requires vpath(t, p)
    ensures upd(upd(t, p, a), p, b) == upd(t, p, b)
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let w = with_kid(at(t, q), p.last(), a);
        at_upd(t, q, w);
        upd_upd(t, q, w, with_kid(w, p.last(), b));
        with_kid_over(at(t, q), p.last(), a, b);
    }
}

pub proof fn upd_id<K, V>(t: ST<K, V>, p: Seq<int>)
    requires vpath(t, p)
    ensures upd(t, p, at(t, p)) == t
    decreases p.len()
{
    if p.len() > 0 {
        upd_id(t, p.drop_last());
        with_kid_id(at(t, p.drop_last()), p.last());
    }
}

// An edit under x at the end of a search path for x is that edit of the whole.
pub proof fn path_splice<K, V>(t: ST<K, V>, p: Seq<int>, x: real, c: ST<K, V>, e: Seq<(K, V)>, tight: bool)
    requires
        kpath(t, p, x), wf(t, tight), one(e, x),
        wf(c, tpath(t, p, tight)), c is N <==> at(t, p) is N,
        ents(c) == splice(ents(at(t, p)), x, e),
        p.len() > 0 ==> ents(c).len() > 0,
        p.len() > 0 && c is N && tpath(t, p, tight) ==> c->seps.len() > 0 && rank(c->seps.last()) == rank(at(t, p)->seps.last()),
    ensures
        wf(upd(t, p, c), tight), ents(upd(t, p, c)) == splice(ents(t), x, e),
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let i = p.last();
        let b = at(t, q);
        let g = tpath(t, q, tight);
        path_k_v(t, p, x);
        path_wf(t, q, tight);
        path_wf(t, p, tight);
        lbk_props(b->seps, x);
        around(b, i, g);
        descend(b, x, g);
        let s = b->kids[i];
        wf_sorted(s, g || i < nkids(b) - 1);
        splice_props(ents(s), x, e);
        assert(rank(b->seps[i]) >= x);
        if i > 0 { assert(rank(b->seps[i - 1]) < x); }
        set_kid_same(b, i, c, g);
        splice_win(before(b, i), ents(s), after(b, i), x, e);
        let w = with_kid(b, i, c);
        assert(ents(w) == splice(ents(b), x, e));
        assert(ents(w).len() > 0);
        path_splice(t, q, x, w, e, tight);
    }
}

// Leaving everything stored as it is.
pub proof fn splice_id<K, V>(es: Seq<(K, V)>, x: real) -> (e: Seq<(K, V)>)
    requires sorted(es)
    ensures one(e, x), splice(es, x, e) == es
{
    lb_props(es, x);
    let e = if holds(es, x) { seq![es[lb(es, x)]] } else { Seq::<(K, V)>::empty() };
    assert(splice(es, x, e) =~= es);
    e
}

// Storing v under k in the node at the end of the search path for k.
pub proof fn path_put<K, V>(t: ST<K, V>, p: Seq<int>, k: K, v: V, c: ST<K, V>, tight: bool)
    requires
        kpath(t, p, rank(k)), wf(t, tight),
        wf(c, tpath(t, p, tight)), c is N <==> at(t, p) is N,
        ents(c) == put(ents(at(t, p)), k, v),
        p.len() > 0 && c is N && tpath(t, p, tight) ==> c->seps.len() > 0 && rank(c->seps.last()) == rank(at(t, p)->seps.last()),
    ensures
        wf(upd(t, p, c), tight), ents(upd(t, p, c)) == put(ents(t), k, v),
{
    let s = at(t, p);
    let x = rank(k);
    path_k_v(t, p, x);
    path_wf(t, p, tight);
    if tight { wf_any(t); }
    path_find(t, p, x);
    wf_sorted(s, false);
    wf_sorted(t, tight);
    splice_put(ents(s), k, v);
    splice_put(ents(t), k, v);
    path_same_key(t, p, x);
    assert(stored(ents(s), k, v) =~= stored(ents(t), k, v));
    path_splice(t, p, x, c, stored(ents(s), k, v), tight);
}

pub proof fn path_same_key<K, V>(t: ST<K, V>, p: Seq<int>, x: real)
    requires kpath(t, p, x), wf(t, false)
    ensures holds(ents(t), x) ==> ents(t)[lb(ents(t), x)] == ents(at(t, p))[lb(ents(at(t, p)), x)]
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        path_same_key(t, q, x);
        path_find(t, p, x);
        path_find(t, q, x);
        descend(at(t, q), x, false);
        wf_sorted(at(t, p), false);
        lb_props(ents(at(t, p)), x);
    }
}

// Where an entry is is where a search for its key leads.
pub proof fn path_key<K, V>(t: ST<K, V>, p: Seq<int>, x: real)
    requires vpath(t, p), wf(t, false), holds(ents(at(t, p)), x)
    ensures kpath(t, p, x), holds(ents(t), x)
    decreases p.len()
{
    path_wf(t, p, false);
    if p.len() > 0 {
        let q = p.drop_last();
        let i = p.last();
        let b = at(t, q);
        path_wf(t, q, false);
        around(b, i, false);
        let m = ents(b->kids[i]);
        wf_sorted(b->kids[i], false);
        lb_props(m, x);
        assert(rank(m[lb(m, x)].0) == x);
        assert(x <= rank(b->seps[i]));
        if i > 0 { assert(x > rank(b->seps[i - 1])); }
        assert forall|j: int| 0 <= j < i implies #[trigger] rank(b->seps[j]) < x by {
            if j < i - 1 { assert(rank(b->seps[j]) < rank(b->seps[i - 1])); }
        }
        assert forall|j: int| i <= j < b->seps.len() implies #[trigger] rank(b->seps[j]) >= x by {
            if i < j { assert(rank(b->seps[i]) < rank(b->seps[j])); }
        }
        lbk_is(b->seps, x, i);
        descend(b, x, false);
        path_key(t, q, x);
    }
}
