// What the edits made through cursors do.  Pure mathematics, and the stacks they go by.

// A child left empty is taken out.
pub proof fn drop_wf<K, V>(b: ST<K, V>, i: int, x: real)
    requires
        wf(b, true), b is N, i == fi(b, x), i < nkids(b),
        splice(ents(b->kids[i]), x, seq![]).len() == 0,
    ensures
        wf(drop_kid(b, i), true),
        ents(drop_kid(b, i)) == splice(ents(b), x, seq![]),
        nkids(drop_kid(b, i)) == nkids(b) - 1, drop_kid(b, i)->br == b->br,
        i < nkids(b) - 1 ==> drop_kid(b, i)->seps.last() == b->seps.last(),
        nkids(b) > 1 ==> lastr(drop_kid(b, i)) <= lastr(b),
{
    let d = drop_kid(b, i);
    let n = nkids(b);
    lbk_props(b->seps, x);
    drop_ents(b, i, x);
    assert forall|p: int, q: int| 0 <= p < q < d->seps.len() implies #[trigger] rank(d->seps[p]) < #[trigger] rank(d->seps[q]) by {
        assert(rank(b->seps[if p < i { p } else { p + 1 }]) < rank(b->seps[if q < i { q } else { q + 1 }]));
    }
    assert forall|j: int| 0 <= j < n - 1 implies #[trigger] kid_ok(d->br, d->seps, d->kids, j, true) by { drop_kid_ok(b, i, j); }
    assert forall|j: int| 0 <= j < n - 1 implies wf(#[trigger] d->kids[j], true || j < n - 2) by {
        let m = if j < i { j } else { j + 1 };
        assert(d->kids[j] == b->kids[m]);
        assert(wf(b->kids[m], true || m < n - 1));
    }
    if n > 1 {
        if i == n - 1 { assert(rank(b->seps[n - 2]) < rank(b->seps[n - 1])); assert(d->seps.last() == b->seps[n - 2]); }
    }
}

proof fn drop_ents<K, V>(b: ST<K, V>, i: int, x: real)
    requires
        wf(b, true), b is N, i == fi(b, x), i < nkids(b),
        splice(ents(b->kids[i]), x, seq![]).len() == 0,
    ensures ents(drop_kid(b, i)) == splice(ents(b), x, seq![])
{
    let d = drop_kid(b, i);
    lbk_props(b->seps, x);
    around(b, i, true);
    descend(b, x, true);
    ents_n(d);
    assert(kes(d->kids) =~= kes(b->kids.take(i)) + kes(b->kids.skip(i + 1)));
    cat_add(kes(b->kids.take(i)), kes(b->kids.skip(i + 1)));
    splice_win(before(b, i), ents(b->kids[i]), after(b, i), x, seq![]);
    assert(splice(ents(b->kids[i]), x, seq![]) =~= seq![]);
    assert(ents(d) =~= splice(ents(b), x, seq![]));
}

proof fn drop_kid_ok<K, V>(b: ST<K, V>, i: int, j: int)
    requires wf(b, true), b is N, 0 <= i < nkids(b), 0 <= j < nkids(b) - 1
    ensures kid_ok(b->br, drop_kid(b, i)->seps, drop_kid(b, i)->kids, j, true)
{
    let d = drop_kid(b, i);
    if j < i {
        assert(kid_ok(b->br, b->seps, b->kids, j, true));
    } else {
        assert(kid_ok(b->br, b->seps, b->kids, j + 1, true));
        assert(d->kids[j] == b->kids[j + 1] && d->seps[j] == b->seps[j + 1]);
        if j == i && i > 0 {
            assert(d->seps[j - 1] == b->seps[i - 1]);
            let es = ents(b->kids[j + 1]);
            assert(rank(b->seps[i - 1]) < rank(b->seps[i]));
            assert forall|m: int| 0 <= m < es.len() implies rank((#[trigger] es[m]).0) > rank(b->seps[i - 1]) by {
                assert(rank(es[m].0) > rank(b->seps[i]));
            }
        } else if j > i {
            assert(d->seps[j - 1] == b->seps[j]);
        }
    }
}

// Exchanging only the separators of a node above.
pub proof fn at_above<K, V>(t: ST<K, V>, a: Seq<int>, u: ST<K, V>, q: Seq<int>)
    requires vpath(t, a), at(t, a) is N, u is N, u->kids == at(t, a)->kids, under(a, q), a.len() < q.len(), vpath(t, q)
    ensures at(upd(t, a, u), q) == at(t, q), vpath(upd(t, a, u), q)
    decreases q.len()
{
    let d = q.drop_last();
    at_upd(t, a, u);
    if d.len() == a.len() {
        assert(d =~= q.take(a.len() as int));
        assert(d == a);
    } else {
        assert(q.take(a.len() as int) =~= d.take(a.len() as int));
        at_above(t, a, u, d);
    }
}

// What an edit at p leaves valid of the stack above it.
pub proof fn held_keep<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, r0: Branch<K, V, C>, r1: Branch<K, V, C>, base: Seq<int>, p: Seq<int>)
    requires
        held(s, r0, base), under(base + idx(s), p),
        forall|o: BPtr<K, V, C>| #![trigger o.valid(r1)] o.valid(r0) && under(o.path(), p) ==> o.valid(r1),
    ensures held(s, r1, base)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        chain_pop(s);
        let i = idx(s).last();
        assert(base + idx(s) =~= (base + idx(d)).push(i));
        assert(p.take((base + idx(d)).len() as int) =~= (base + idx(s)).take((base + idx(d)).len() as int));
        assert((base + idx(s)).take((base + idx(d)).len() as int) =~= base + idx(d));
        assert(under(base + idx(d), p));
        held_keep(d, r0, r1, base, p);
        assert(s.last().0.valid(r1));
    }
}

pub proof fn held_all<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, r0: Branch<K, V, C>, r1: Branch<K, V, C>, base: Seq<int>)
    requires
        held(s, r0, base),
        forall|o: BPtr<K, V, C>| #![trigger o.valid(r1)] o.valid(r0) ==> o.valid(r1),
    ensures held(s, r1, base)
    decreases s.len()
{
    if s.len() > 0 {
        held_all(s.drop_last(), r0, r1, base);
        assert(s.last().0.valid(r1));
    }
}

pub proof fn under_push(q: Seq<int>, p: Seq<int>)
    requires q.len() > 0, under(q, p)
    ensures under(q.drop_last(), p)
{
    assert(p.take(q.len() - 1) =~= p.take(q.len() as int).take(q.len() - 1));
    assert(q.drop_last() =~= q.take(q.len() - 1));
}

// ---- removal ----

// The tree at r has been exchanged for e, which lacks the entry under x.
pub open spec fn cut_at<K, V>(u: ST<K, V>, t: ST<K, V>, r: Seq<int>, e: ST<K, V>, x: real) -> bool {
    &&& u == upd(t, r, e)
    &&& kpath(t, r, x)
    &&& wf(e, true)
    &&& (e is N <==> at(t, r) is N)
    &&& ents(e) == splice(ents(at(t, r)), x, seq![])
}

pub proof fn cut_done<K, V>(u: ST<K, V>, t: ST<K, V>, r: Seq<int>, e: ST<K, V>, x: real)
    requires
        cut_at(u, t, r, e, x), wf(t, true), r.len() > 0 ==> ents(e).len() > 0,
        r.len() > 0 && e is N ==> e->seps.len() > 0 && rank(e->seps.last()) == rank(at(t, r)->seps.last()),
    ensures
        wf(u, true), ents(u) == splice(ents(t), x, seq![]),
{
    tpath_tight(t, r);
    path_splice(t, r, x, e, seq![], true);
}

// The node above, with the empty child taken out.
pub proof fn cut_drop<K, V>(u: ST<K, V>, t: ST<K, V>, r: Seq<int>, e: ST<K, V>, x: real)
    requires cut_at(u, t, r, e, x), wf(t, true), r.len() > 0, ents(e).len() == 0
    ensures
        ({
            let q = r.drop_last();
            let i = r.last();
            let b = at(t, q);
            let d = drop_kid(b, i);
            &&& b is N && 0 <= i < nkids(b)
            &&& vpath(u, q) && at(u, q) is N && at(u, q)->br == b->br && nkids(at(u, q)) == nkids(b)
            &&& drop_kid(at(u, q), i) == d
            &&& cut_at(upd(u, q, d), t, q, d, x)
            &&& vpath(upd(u, q, d), q) && at(upd(u, q, d), q) == d
            &&& nkids(d) == nkids(b) - 1
            &&& nkids(d) > 0 ==> d->seps.len() > 0 && ents(d).len() > 0 && lastr(d) <= lastr(b)
            &&& nkids(d) == 0 ==> ents(d).len() == 0
            &&& i < nkids(d) ==> rank(d->seps.last()) == rank(b->seps.last())
        }),
{
    let q = r.drop_last();
    let i = r.last();
    let b = at(t, q);
    let w = with_kid(b, i, e);
    let d = drop_kid(b, i);
    path_split(r);
    path_push(t, q, i);
    path_k_v(t, q, x);
    path_wf(t, q, true);
    tpath_tight(t, q);
    drop_wf(b, i, x);
    at_upd(t, q, w);
    upd_upd(t, q, w, d);
    at_upd(t, q, d);
    assert(w->kids.remove(i) =~= b->kids.remove(i));
    wf_any(d);
    hollow(d);
}

// The node above, with the separator over the changed child lowered to match.
pub proof fn cut_lower<K, V>(u: ST<K, V>, t: ST<K, V>, r: Seq<int>, e: ST<K, V>, x: real, h: K)
    requires
        cut_at(u, t, r, e, x), wf(t, true), r.len() > 0, ents(e).len() > 0, e is N, e->seps.len() > 0,
        e->seps.last() == h, rank(h) <= lastr(at(t, r)),
    ensures
        ({
            let q = r.drop_last();
            let i = r.last();
            let b = at(t, q);
            let f = with_sep(with_kid(b, i, e), i, h);
            &&& b is N && 0 <= i < nkids(b) && b->seps.len() == nkids(b)
            &&& vpath(u, q) && at(u, q) == with_kid(b, i, e)
            &&& cut_at(upd(u, q, f), t, q, f, x)
            &&& ents(f).len() > 0 && f is N && f->seps.len() == nkids(b)
            &&& lastr(f) <= lastr(b)
            &&& i == nkids(b) - 1 ==> f->seps.last() == h
            &&& i < nkids(b) - 1 ==> f->seps.last() == b->seps.last()
        }),
{
    let q = r.drop_last();
    let i = r.last();
    let b = at(t, q);
    let w = with_kid(b, i, e);
    let f = with_sep(w, i, h);
    path_split(r);
    path_push(t, q, i);
    path_k_v(t, q, x);
    path_wf(t, q, true);
    tpath_tight(t, q);
    tpath_tight(t, r);
    path_k_v(t, r, x);
    path_wf(t, r, true);
    lbk_props(b->seps, x);
    around(b, i, true);
    descend(b, x, true);
    let s = b->kids[i];
    wf_sorted(s, true);
    wf_sorted(e, true);
    splice_props(ents(s), x, seq![]);
    set_kid(b, i, e, h, true);
    splice_win(before(b, i), ents(s), after(b, i), x, seq![]);
    at_upd(t, q, w);
    upd_upd(t, q, w, f);
}

// ---- insertion ----

pub open spec fn crammed<K, V>(t: ST<K, V>, b: nat, l: nat) -> bool {
    width(t) == if t is N { b } else { l }
}

pub proof fn kpath_upd<K, V>(t: ST<K, V>, p: Seq<int>, c: ST<K, V>, x: real)
    requires kpath(t, p, x)
    ensures kpath(upd(t, p, c), p, x)
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let w = with_kid(at(t, q), p.last(), c);
        path_k_v(t, p, x);
        kpath_upd(t, q, w, x);
        at_upd(t, q, w);
    }
}

pub proof fn dep_at<K, V>(t: ST<K, V>, p: Seq<int>)
    requires vpath(t, p)
    ensures dep(at(t, p)) <= dep(t), p.len() > 0 ==> dep(at(t, p)) < dep(t)
    decreases p.len()
{
    if p.len() > 0 {
        dep_at(t, p.drop_last());
        dep_kids(at(t, p.drop_last()));
    }
}

// A node on the way to x exchanged for one holding the same.
pub proof fn same_at<K, V>(t: ST<K, V>, q: Seq<int>, c: ST<K, V>, x: real)
    requires
        wf(t, true), kpath(t, q, x), !holds(ents(t), x),
        wf(c, true), at(t, q) is N, c is N, ents(c) == ents(at(t, q)), c->seps.len() > 0, rank(c->seps.last()) == rank(at(t, q)->seps.last()),
    ensures wf(upd(t, q, c), true), ents(upd(t, q, c)) == ents(t)
{
    let s = at(t, q);
    wf_any(t);
    path_k_v(t, q, x);
    path_find(t, q, x);
    path_wf(t, q, true);
    tpath_tight(t, q);
    wf_sorted(t, true);
    wf_sorted(s, false);
    lb_props(ents(t), x);
    lb_props(ents(s), x);
    assert(splice(ents(s), x, seq![]) =~= ents(s));
    assert(splice(ents(t), x, seq![]) =~= ents(t));
    path_splice(t, q, x, c, seq![], true);
}

pub open spec fn side<K, V>(c: ST<K, V>, h: int, x: real) -> int { if x <= rank(cut_key(c, h)) { 0 } else { 1 } }
pub open spec fn half<K, V>(c: ST<K, V>, h: int, x: real) -> ST<K, V> { if x <= rank(cut_key(c, h)) { cut_l(c, h) } else { cut_r(c, h) } }

// The child on the way to x cut in two.
pub proof fn cut_two<K, V>(t: ST<K, V>, q: Seq<int>, i: int, x: real, h: int)
    requires
        wf(t, true), kpath(t, q, x), at(t, q) is N, 0 <= i < nkids(at(t, q)), i == fi(at(t, q), x), !holds(ents(t), x),
        0 < h < width(at(t, q)->kids[i]),
    ensures
        ({
            let b = at(t, q);
            let c = b->kids[i];
            let d = split_kid(b, i, h);
            let w = upd(t, q, d);
            let j = i + side(c, h, x);
            let o = half(c, h, x);
            &&& wf(w, true) && ents(w) == ents(t)
            &&& vpath(w, q) && at(w, q) == d && d is N && nkids(d) == nkids(b) + 1 && d->br == b->br && 0 <= j < nkids(d)
            &&& kpath(w, q, x) && j == fi(d, x) && kpath(w, q.push(j), x)
            &&& at(w, q.push(j)) == o && vpath(w, q.push(j)) && d->kids[j] == o
            &&& wf(o, true) && dep(o) < dep(b) && (o is N <==> b->br) && 0 < width(o) < width(c)
            &&& o is N ==> o->seps.len() > 0 && x <= lastr(o)
            &&& vpath(t, q) && vpath(upd(t, q, drop_kid(b, i)), q) && at(upd(t, q, drop_kid(b, i)), q) == drop_kid(b, i)
            &&& upd(upd(t, q, drop_kid(b, i)), q, d) == w
        })
{
    let b = at(t, q);
    let c = b->kids[i];
    let d = split_kid(b, i, h);
    let w = upd(t, q, d);
    let j = i + side(c, h, x);
    path_k_v(t, q, x);
    wf_any(t);
    path_wf(t, q, true);
    tpath_tight(t, q);
    lbk_props(b->seps, x);
    around(b, i, true);
    split_kid_wf(b, i, h, true);
    cut_wf(c, h, true);
    same_at(t, q, d, x);
    at_upd(t, q, d);
    kpath_upd(t, q, d, x);
    path_push(w, q, j);
    at_upd(t, q, drop_kid(b, i));
    upd_upd(t, q, drop_kid(b, i), d);
    dep_kids(b);
    split_seps(b, i, h, true);
    let ks = d->seps;
    assert(ks == b->seps.insert(i, cut_key(c, h)));
    assert forall|m: int| 0 <= m < j implies #[trigger] rank(ks[m]) < x by {
        if m < i { assert(rank(b->seps[m]) < x); }
    }
    assert forall|m: int| j <= m < ks.len() implies #[trigger] rank(ks[m]) >= x by {
        if m > i { assert(rank(b->seps[m - 1]) >= x); }
    }
    lbk_is(ks, x, j);
    if c is N { assert(rank(b->seps[i]) == rank(c->seps.last())); }
}

pub proof fn vpath_cut<K, V>(t: ST<K, V>, a: Seq<int>, b: Seq<int>)
    requires vpath(t, a + b)
    ensures vpath(t, a), vpath(at(t, a), b), at(t, a + b) == at(at(t, a), b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        vpath_cut(t, a, b.drop_last());
    }
}

// The top of a stack whose first n elements are of no interest.
pub proof fn pop_skip<K, V, C: TreeConfig<K, V>>(s: Seq<(BPtr<K, V, C>, isize)>, n: int, root: Branch<K, V, C>, base: Seq<int>, t: ST<K, V>, x: real)
    requires 0 <= n < s.len(), held(s.skip(n), root, base), kpath(t, base + idx(s.skip(n)), x)
    ensures
        ({
            let w = s.drop_last().skip(n);
            let q = base + idx(w);
            let i = s.last().1 as int;
            &&& held(w, root, base)
            &&& s.last().0.valid(root) && s.last().0.path() == q
            &&& base + idx(s.skip(n)) == q.push(i)
            &&& kpath(t, q, x) && vpath(t, q) && at(t, q) is N && 0 <= i < nkids(at(t, q)) && i == fi(at(t, q), x)
            &&& at(t, q.push(i)) == at(t, q)->kids[i]
            &&& dep(at(t, q)) <= dep(at(t, base))
        })
{
    let w = s.drop_last().skip(n);
    let q = base + idx(w);
    let i = s.last().1 as int;
    assert(s.skip(n) =~= w.push(s.last()));
    held_push(w, root, base, s.last());
    assert(base + idx(w).push(i) =~= q.push(i));
    path_push(t, q, i);
    path_k_v(t, q, x);
    vpath_cut(t, base, idx(w));
    dep_at(at(t, base), idx(w));
}

pub proof fn fill_leaf<K, V>(t: ST<K, V>, p: Seq<int>, k: K, v: V)
    requires wf(t, true), kpath(t, p, rank(k)), at(t, p) is L
    ensures
        wf(upd(t, p, ST::L(put(ents(at(t, p)), k, v))), true),
        ents(upd(t, p, ST::L(put(ents(at(t, p)), k, v)))) == put(ents(t), k, v),
        at(upd(t, p, ST::L(put(ents(at(t, p)), k, v))), p) == ST::L(put(ents(at(t, p)), k, v)),
        vpath(upd(t, p, ST::L(put(ents(at(t, p)), k, v))), p),
{
    let es = ents(at(t, p));
    let c = ST::L(put(es, k, v));
    wf_any(t);
    path_k_v(t, p, rank(k));
    path_find(t, p, rank(k));
    leaf_facts(es);
    put_props(es, k, v);
    leaf_facts(put(es, k, v));
    path_put(t, p, k, v, c, true);
    at_upd(t, p, c);
}

// ---- a key above all others ----

// The nodes above q are the last of their parents and carry x as their last separator.
pub open spec fn raised<K, V>(t: ST<K, V>, q: Seq<int>, x: real) -> bool
    decreases q.len()
{
    q.len() == 0 || {
        let b = at(t, q.drop_last());
        raised(t, q.drop_last(), x) && b is N && q.last() == nkids(b) - 1 && lastr(b) == x
    }
}

pub proof fn raised_upd<K, V>(t: ST<K, V>, p: Seq<int>, c: ST<K, V>, x: real)
    requires raised(t, p, x), vpath(t, p)
    ensures raised(upd(t, p, c), p, x)
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let w = with_kid(at(t, q), p.last(), c);
        raised_upd(t, q, w, x);
        at_upd(t, q, w);
    }
}

pub proof fn raised_edge<K, V>(t: ST<K, V>, q: Seq<int>, x: real)
    requires raised(t, q, x), vpath(t, q)
    ensures !tpath(t, q, false)
    decreases q.len()
{
    if q.len() > 0 { raised_edge(t, q.drop_last(), x); }
}

// Once they all carry it, the tree is in order throughout.
pub proof fn raised_spine<K, V>(t: ST<K, V>, q: Seq<int>, x: real)
    requires
        raised(t, q, x), vpath(t, q), wf(t, false), spine(at(t, q), None),
        at(t, q) is N ==> lastr(at(t, q)) == x,
    ensures spine(t, None)
    decreases q.len()
{
    if q.len() > 0 {
        let p = q.drop_last();
        let b = at(t, p);
        if p.len() > 0 { path_split(p); }
        assert(b->kids[nkids(b) - 1] == at(t, q));
        path_wf(t, q, false);
        raised_spine(t, p, x);
    }
}

pub proof fn raise_at<K, V>(t: ST<K, V>, q: Seq<int>, k: K)
    requires
        wf(t, false), kpath(t, q, rank(k)), raised(t, q, rank(k)), at(t, q) is N, nkids(at(t, q)) > 0,
        spine(at(t, q), Some(rank(k))), lastr(at(t, q)) <= rank(k), !holds(ents(t), rank(k)),
    ensures
        ({
            let x = rank(k);
            let b = at(t, q);
            let n = nkids(b);
            let d = with_sep(b, n - 1, k);
            let w = upd(t, q, d);
            let c = b->kids[n - 1];
            &&& wf(w, false) && ents(w) == ents(t)
            &&& vpath(t, q) && vpath(w, q) && at(w, q) == d
            &&& raised(w, q.push(n - 1), x) && kpath(w, q.push(n - 1), x) && vpath(w, q.push(n - 1))
            &&& at(w, q.push(n - 1)) == c && dep(c) < dep(b)
            &&& (c is N <==> b->br)
            &&& b->br ==> nkids(c) > 0 && spine(c, Some(x)) && lastr(c) <= x
            &&& b->seps.len() == n
        }),
{
    let x = rank(k);
    let b = at(t, q);
    let n = nkids(b);
    let d = with_sep(b, n - 1, k);
    let w = upd(t, q, d);
    let c = b->kids[n - 1];
    path_k_v(t, q, x);
    path_wf(t, q, false);
    path_find(t, q, x);
    raised_edge(t, q, x);
    raise_last(b, k);
    wf_sorted(t, false);
    wf_sorted(b, false);
    lb_props(ents(t), x);
    lb_props(ents(b), x);
    assert(splice(ents(b), x, seq![]) =~= ents(b));
    assert(splice(ents(t), x, seq![]) =~= ents(t));
    if q.len() > 0 { hollow(b); }
    path_splice(t, q, x, d, seq![], false);
    at_upd(t, q, d);
    kpath_upd(t, q, d, x);
    raised_upd(t, q, d, x);
    path_push(w, q, n - 1);
    dep_kids(b);
    around(b, n - 1, false);
    if c is N { kids_nonempty(c); }
    assert(d->seps.last() == k);
    assert forall|j: int| 0 <= j < n - 1 implies #[trigger] rank(d->seps[j]) < x by {
        assert(rank(b->seps[j]) < rank(b->seps[n - 1]));
    }
    lbk_is(d->seps, x, n - 1);
    assert(d->kids[n - 1] == c);
}

// The last leaf's end is where a key above all others belongs.
pub proof fn leaf_end<K, V>(t: ST<K, V>, p: Seq<int>, x: real)
    requires wf(t, false), vpath(t, p), all_lt(ents(t), x)
    ensures all_lt(ents(at(t, p)), x), lb(ents(at(t, p)), x) == ents(at(t, p)).len()
{
    off_ents(t, p);
    let es = ents(at(t, p));
    assert forall|j: int| 0 <= j < es.len() implies rank((#[trigger] es[j]).0) < x by {
        assert(ents(t)[off(t, p) + j] == es[j]);
    }
    lb_is(es, x, es.len() as int);
}

pub proof fn upd_width<K, V>(t: ST<K, V>, p: Seq<int>, c: ST<K, V>)
    requires vpath(t, p), at(t, p) is N, c is N, nkids(c) == nkids(at(t, p))
    ensures upd(t, p, c) is N, nkids(upd(t, p, c)) == nkids(t)
    decreases p.len()
{
    if p.len() > 0 { upd_width(t, p.drop_last(), with_kid(at(t, p.drop_last()), p.last(), c)); }
}
