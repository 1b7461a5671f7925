// Iterators that empty the tree they own, leaf by leaf.

// ---- trees whose leaves may be empty ----

// The tree with each leaf made one entry: the separator over it, and what the leaf holds.
pub open spec fn lt<K, V>(t: ST<K, V>, k: K) -> ST<K, Seq<(K, V)>>
    decreases t
{
    match t {
        ST::L(es) => ST::L(seq![(k, es)]),
        ST::N { br, seps, kids } => ST::N { br, seps, kids: Seq::new(kids.len(), |i: int| if 0 <= i < kids.len() { lt(kids[i], seps[i]) } else { arbitrary() }) },
    }
}

pub open spec fn leaves<K, V>(t: ST<K, V>) -> ST<K, Seq<(K, V)>> { lt(t, arbitrary()) }

// What the leaves hold, one after the other.
pub open spec fn held_by<K, V>(w: Seq<(K, Seq<(K, V)>)>) -> Seq<Seq<(K, V)>> { Seq::new(w.len(), |i: int| w[i].1) }
pub open spec fn flat<K, V>(w: Seq<(K, Seq<(K, V)>)>) -> Seq<(K, V)> { cat(held_by(w)) }

pub proof fn lt_n<K, V>(t: ST<K, V>, k: K)
    requires t is N
    ensures
        lt(t, k) is N, nkids(lt(t, k)) == nkids(t), lt(t, k)->br == t->br, lt(t, k)->seps == t->seps,
        forall|i: int| 0 <= i < nkids(t) ==> #[trigger] lt(t, k)->kids[i] == lt(t->kids[i], t->seps[i]),
{
}

pub proof fn lt_l<K, V>(t: ST<K, V>, k: K)
    requires t is L
    ensures lt(t, k) is L, ents(lt(t, k)) == seq![(k, t->L_0)], ents(lt(t, k))[0] == (k, t->L_0), ents(lt(t, k)).len() == 1
{
}

pub proof fn flat_add<K, V>(a: Seq<(K, Seq<(K, V)>)>, b: Seq<(K, Seq<(K, V)>)>)
    ensures flat(a + b) == flat(a) + flat(b)
{
    assert(held_by(a + b) =~= held_by(a) + held_by(b));
    cat_add(held_by(a), held_by(b));
}

pub proof fn flat_cat<K, V>(ss: Seq<Seq<(K, Seq<(K, V)>)>>)
    ensures flat(cat(ss)) == cat(Seq::new(ss.len(), |i: int| flat(ss[i])))
    decreases ss.len()
{
    let r = Seq::new(ss.len(), |i: int| flat(ss[i]));
    if ss.len() > 0 {
        let d = ss.drop_last();
        flat_cat(d);
        assert(r.drop_last() =~= Seq::new(d.len(), |i: int| flat(d[i])));
        flat_add(cat(d), ss.last());
    } else {
        assert(held_by(cat(ss)) =~= seq![]);
    }
}

pub proof fn lt_ents<K, V>(t: ST<K, V>, k: K)
    ensures ents(t) == flat(ents(lt(t, k)))
    decreases t
{
    if t is L {
        lt_l(t, k);
        assert(held_by(ents(lt(t, k))) =~= seq![t->L_0]);
        cat_one(t->L_0);
        leaf_facts(t->L_0);
    } else {
        lt_n(t, k);
        let u = lt(t, k);
        ents_n(t);
        ents_n(u);
        flat_cat(kes(u->kids));
        assert forall|i: int| 0 <= i < nkids(t) implies flat(#[trigger] kes(u->kids)[i]) == kes(t->kids)[i] by {
            lt_ents(t->kids[i], t->seps[i]);
        }
        assert(Seq::new(kes(u->kids).len(), |i: int| flat(kes(u->kids)[i])) =~= kes(t->kids));
    }
}

proof fn lt_gt<K, V>(t: ST<K, V>, k: K, y: real)
    requires wf(t, true), all_gt(ents(t), y), t is L ==> rank(k) > y
    ensures all_gt(ents(lt(t, k)), y)
    decreases t
{
    if t is L {
        lt_l(t, k);
    } else {
        lt_n(t, k);
        let u = lt(t, k);
        ents_n(u);
        assert forall|j: int| 0 <= j < ents(u).len() implies rank((#[trigger] ents(u)[j]).0) > y by {
            let w = cat_in(kes(u->kids), j);
            let i = w.0;
            let c = t->kids[i];
            around(t, i, true);
            assert forall|m: int| 0 <= m < ents(c).len() implies rank((#[trigger] ents(c)[m]).0) > y by {
                assert(ents(t)[before(t, i).len() + m] == ents(c)[m]);
            }
            assert(rank(ents(c)[0].0) <= rank(t->seps[i]));
            lt_gt(c, t->seps[i], y);
            assert(ents(u->kids[i])[w.1] == ents(u)[j]);
        }
    }
}

pub proof fn lt_wf<K, V>(t: ST<K, V>, k: K)
    requires wf(t, true)
    ensures
        wf(lt(t, k), true),
        ents(t).len() > 0 ==> ents(lt(t, k)).len() > 0,
        t is L ==> all_le(ents(lt(t, k)), rank(k)),
    decreases t
{
    if t is L {
        lt_l(t, k);
        sorted_intro(ents(lt(t, k)));
        leaf_facts(ents(lt(t, k)));
    } else {
        lt_n(t, k);
        let u = lt(t, k);
        assert forall|i: int| 0 <= i < nkids(t) implies #[trigger] kid_ok(u->br, u->seps, u->kids, i, true) by {
            around(t, i, true);
            let c = t->kids[i];
            lt_wf(c, t->seps[i]);
            if c is N { lt_n(c, t->seps[i]); wf_sorted(u->kids[i], true); }
            if i > 0 { assert(rank(ents(c)[0].0) <= rank(t->seps[i])); lt_gt(c, t->seps[i], rank(t->seps[i - 1])); }
        }
        assert forall|i: int| 0 <= i < nkids(t) implies wf(#[trigger] u->kids[i], true) by {
            assert(wf(t->kids[i], true || i < nkids(t) - 1));
            lt_wf(t->kids[i], t->seps[i]);
        }
        assert forall|i: int| 0 <= i < nkids(t) implies wf(#[trigger] u->kids[i], true || i < nkids(u) - 1) by {}
        if ents(t).len() > 0 {
            kids_nonempty(t);
            ents_at(u, 0);
            assert(kid_ok(u->br, u->seps, u->kids, 0, true));
        }
    }
}

pub open spec fn lkey<K, V>(t: ST<K, V>, k: K, p: Seq<int>) -> K {
    if p.len() == 0 { k } else { at(t, p.drop_last())->seps[p.last()] }
}

// Paths are the same in both.
pub proof fn lt_path<K, V>(t: ST<K, V>, k: K, p: Seq<int>)
    ensures
        vpath(lt(t, k), p) == vpath(t, p),
        vpath(t, p) ==> at(lt(t, k), p) == lt(at(t, p), lkey(t, k, p)),
        vpath(t, p) ==> (at(lt(t, k), p) is N <==> at(t, p) is N),
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        lt_path(t, k, q);
        if vpath(t, q) {
            let b = at(t, q);
            if b is N { lt_n(b, lkey(t, k, q)); } else { lt_l(b, lkey(t, k, q)); }
            if vpath(t, p) { let c = at(t, p); if c is N { lt_n(c, lkey(t, k, p)); } else { lt_l(c, lkey(t, k, p)); } }
        }
    } else {
        if t is N { lt_n(t, k); } else { lt_l(t, k); }
    }
}

pub proof fn lt_upd<K, V>(t: ST<K, V>, k: K, p: Seq<int>, c: ST<K, V>)
    requires vpath(t, p)
    ensures lt(upd(t, p, c), k) == upd(lt(t, k), p, lt(c, lkey(t, k, p)))
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let i = p.last();
        let b = at(t, q);
        let w = with_kid(b, i, c);
        let kb = lkey(t, k, q);
        lt_path(t, k, q);
        lt_upd(t, k, q, w);
        lt_n(b, kb);
        lt_n(w, kb);
        assert(lt(w, kb)->kids =~= lt(b, kb)->kids.update(i, lt(c, b->seps[i])));
        assert(lt(w, kb) == with_kid(lt(b, kb), i, lt(c, b->seps[i])));
    }
}

// What the leaf at p holds is what its entry says.
pub proof fn leaf_no<K, V>(t: ST<K, V>, p: Seq<int>)
    requires vpath(t, p), at(t, p) is L
    ensures
        ({
            let g = leaves(t);
            let n = off(g, p);
            &&& vpath(g, p) && at(g, p) is L
            &&& 0 <= n < ents(g).len() && ents(g)[n].1 == ents(at(t, p)) && end(g, p) == n + 1
            &&& ents(at(g, p)).len() == 1
        })
{
    let k = arbitrary();
    lt_path(t, k, p);
    lt_l(at(t, p), lkey(t, k, p));
    leaf_facts(at(t, p)->L_0);
    let g = lt(t, k);
    off_ents(g, p);
    assert(ents(g)[off(g, p) + 0] == ents(at(g, p))[0]);
}

// Exchanging what the leaf at p holds.
pub proof fn leaf_set<K, V>(t: ST<K, V>, p: Seq<int>, es: Seq<(K, V)>)
    requires vpath(t, p), at(t, p) is L, wf(leaves(t), true)
    ensures
        ({
            let u = upd(t, p, ST::L(es));
            let g = leaves(t);
            let h = leaves(u);
            let n = off(g, p);
            &&& wf(h, true) && ents(h).len() == ents(g).len()
            &&& ents(h)[n].1 == es
            &&& forall|j: int| 0 <= j < ents(g).len() && j != n ==> #[trigger] ents(h)[j] == ents(g)[j]
            &&& forall|q: Seq<int>| vpath(t, q) && at(t, q) is L ==> #[trigger] vpath(u, q) && at(u, q) is L && off(h, q) == off(g, q)
        })
{
    let k = arbitrary();
    let u = upd(t, p, ST::L(es));
    let g = leaves(t);
    let h = leaves(u);
    let n = off(g, p);
    leaf_no(t, p);
    lt_path(t, k, p);
    lt_upd(t, k, p, ST::L(es));
    let lk = lkey(t, k, p);
    lt_l(at(t, p), lk);
    let old_ = seq![(lk, at(t, p)->L_0)];
    assert(old_.update(0, (lk, es)) =~= seq![(lk, es)]);
    assert(lt(ST::L(es), lk) == ST::<K, Seq<(K, V)>>::L(seq![(lk, es)]));
    set_val(g, p, 0, es);
    wf_any(g);
    wf_sorted(g, false);
    lb_props(ents(g), rank(lk));
    put_hit(ents(g), lk, es);
    assert forall|q: Seq<int>| vpath(t, q) && at(t, q) is L implies #[trigger] vpath(u, q) && at(u, q) is L && off(h, q) == off(g, q) by {
        lt_path(t, k, q);
        same_paths(t, p, es, q);
        same_off(g, p, (lk, es), q);
    }
}

pub proof fn put_hit<K, V>(es: Seq<(K, V)>, k: K, v: V)
    requires sorted(es), holds(es, rank(k))
    ensures
        put(es, k, v).len() == es.len(), 0 <= lb(es, rank(k)) < es.len(),
        put(es, k, v)[lb(es, rank(k))].1 == v,
        forall|j: int| 0 <= j < es.len() && j != lb(es, rank(k)) ==> #[trigger] put(es, k, v)[j] == es[j],
{
    lb_props(es, rank(k));
}

// Paths to leaves stay when a leaf changes.
pub proof fn same_paths<K, V>(t: ST<K, V>, p: Seq<int>, es: Seq<(K, V)>, q: Seq<int>)
    requires vpath(t, p), at(t, p) is L, vpath(t, q)
    ensures
        vpath(upd(t, p, ST::L(es)), q),
        at(upd(t, p, ST::L(es)), q) is N <==> at(t, q) is N,
        at(t, q) is N ==> nkids(at(upd(t, p, ST::L(es)), q)) == nkids(at(t, q)),
{
    shape_upd(t, p, ST::L(es), q);
}

// The same children all the way down.
pub open spec fn shape<K, V>(a: ST<K, V>, b: ST<K, V>) -> bool
    decreases a
{
    match a {
        ST::L(_) => b is L,
        ST::N { br, seps, kids } => b is N && kids.len() == b->kids.len() && forall|i: int| 0 <= i < kids.len() ==> shape(#[trigger] kids[i], b->kids[i]),
    }
}

pub proof fn shape_id<K, V>(a: ST<K, V>)
    ensures shape(a, a)
    decreases a
{
    if a is N {
        assert forall|i: int| 0 <= i < a->kids.len() implies shape(#[trigger] a->kids[i], a->kids[i]) by { shape_id(a->kids[i]); }
    }
}

pub proof fn shape_at<K, V>(a: ST<K, V>, b: ST<K, V>, q: Seq<int>)
    requires shape(a, b), vpath(a, q)
    ensures vpath(b, q), shape(at(a, q), at(b, q))
    decreases q.len()
{
    if q.len() > 0 {
        shape_at(a, b, q.drop_last());
        assert(shape(at(a, q.drop_last())->kids[q.last()], at(b, q.drop_last())->kids[q.last()]));
    }
}

pub proof fn shape_put<K, V>(t: ST<K, V>, p: Seq<int>, c: ST<K, V>)
    requires vpath(t, p), shape(at(t, p), c)
    ensures shape(t, upd(t, p, c))
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let b = at(t, q);
        let w = with_kid(b, p.last(), c);
        assert forall|i: int| 0 <= i < b->kids.len() implies shape(#[trigger] b->kids[i], w->kids[i]) by { shape_id(b->kids[i]); }
        shape_put(t, q, w);
    }
}

proof fn shape_upd<K, V>(t: ST<K, V>, p: Seq<int>, c: ST<K, V>, q: Seq<int>)
    requires vpath(t, p), shape(at(t, p), c), vpath(t, q)
    ensures vpath(upd(t, p, c), q), shape(at(t, q), at(upd(t, p, c), q))
{
    shape_put(t, p, c);
    shape_at(t, upd(t, p, c), q);
}

// Trees of the same shape and leaf sizes have the same offsets.
pub open spec fn sized<K, V>(a: ST<K, V>, b: ST<K, V>) -> bool
    decreases a
{
    match a {
        ST::L(es) => b is L && b->L_0.len() == es.len(),
        ST::N { br, seps, kids } => b is N && kids.len() == b->kids.len() && forall|i: int| 0 <= i < kids.len() ==> sized(#[trigger] kids[i], b->kids[i]),
    }
}

proof fn sized_id<K, V>(a: ST<K, V>)
    ensures sized(a, a)
    decreases a
{
    if a is N {
        assert forall|i: int| 0 <= i < a->kids.len() implies sized(#[trigger] a->kids[i], a->kids[i]) by { sized_id(a->kids[i]); }
    }
}

proof fn sized_put<K, V>(t: ST<K, V>, p: Seq<int>, c: ST<K, V>)
    requires vpath(t, p), sized(at(t, p), c)
    ensures sized(t, upd(t, p, c))
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let b = at(t, q);
        let w = with_kid(b, p.last(), c);
        assert forall|i: int| 0 <= i < b->kids.len() implies sized(#[trigger] b->kids[i], w->kids[i]) by { sized_id(b->kids[i]); }
        sized_put(t, q, w);
    }
}

proof fn sized_len<K, V>(a: ST<K, V>, b: ST<K, V>)
    requires sized(a, b)
    ensures ents(a).len() == ents(b).len(), a is N ==> forall|i: int| 0 <= i <= nkids(a) ==> #[trigger] before(a, i).len() == before(b, i).len()
    decreases a
{
    if a is N {
        assert forall|i: int| 0 <= i < nkids(a) implies ents(#[trigger] a->kids[i]).len() == ents(b->kids[i]).len() by {
            assert(sized(a->kids[i], b->kids[i]));
            sized_len(a->kids[i], b->kids[i]);
        }
        sized_before(a, b, nkids(a));
        assert forall|i: int| 0 <= i <= nkids(a) implies #[trigger] before(a, i).len() == before(b, i).len() by { sized_before(a, b, i); }
        before_whole(a);
        before_whole(b);
    } else {
        leaf_facts(a->L_0);
        leaf_facts(b->L_0);
    }
}

proof fn sized_before<K, V>(a: ST<K, V>, b: ST<K, V>, i: int)
    requires
        a is N, b is N, nkids(a) == nkids(b), 0 <= i <= nkids(a),
        forall|j: int| 0 <= j < nkids(a) ==> ents(#[trigger] a->kids[j]).len() == ents(b->kids[j]).len(),
    ensures before(a, i).len() == before(b, i).len()
    decreases i
{
    if i > 0 {
        sized_before(a, b, i - 1);
        before_next(a, i - 1);
        before_next(b, i - 1);
    } else {
        assert(kes(a->kids.take(0)) =~= seq![]);
        assert(kes(b->kids.take(0)) =~= seq![]);
    }
}

proof fn sized_off<K, V>(a: ST<K, V>, b: ST<K, V>, q: Seq<int>)
    requires sized(a, b), vpath(a, q)
    ensures off(a, q) == off(b, q), sized(at(a, q), at(b, q))
    decreases q.len()
{
    if q.len() > 0 {
        let d = q.drop_last();
        sized_off(a, b, d);
        sized_len(at(a, d), at(b, d));
        assert(before(at(a, d), q.last()).len() == before(at(b, d), q.last()).len());
        assert(sized(at(a, d)->kids[q.last()], at(b, d)->kids[q.last()]));
    }
}

proof fn same_off<K, V>(g: ST<K, V>, p: Seq<int>, e: (K, V), q: Seq<int>)
    requires vpath(g, p), at(g, p) is L, ents(at(g, p)).len() == 1, vpath(g, q)
    ensures off(upd(g, p, ST::L(seq![e])), q) == off(g, q)
{
    leaf_facts(at(g, p)->L_0);
    sized_put(g, p, ST::L(seq![e]));
    sized_off(g, upd(g, p, ST::L(seq![e])), q);
}

// ---- walking from leaf to leaf ----

pub open spec fn pfwd<K, W>(p: Seq<int>, t: ST<K, W>, n: int) -> bool {
    &&& n <= ents(t).len()
    &&& p.len() == 0 ==> n == ents(t).len()
    &&& p.len() > 0 ==> vpath(t, p.drop_last()) && at(t, p.drop_last()) is N && -1 <= p.last() < nkids(at(t, p.drop_last())) && end(t, p) == n
}

pub open spec fn pback<K, W>(p: Seq<int>, t: ST<K, W>, n: int) -> bool {
    &&& 0 <= n <= ents(t).len()
    &&& p.len() == 0 ==> n == 0
    &&& p.len() > 0 ==> vpath(t, p.drop_last()) && at(t, p.drop_last()) is N && 0 <= p.last() <= nkids(at(t, p.drop_last())) && off(t, p) == n
}

pub proof fn pstart<K, W>(p: Seq<int>, t: ST<K, W>)
    requires vpath(t, p)
    ensures pfwd(p, t, end(t, p)), pback(p, t, off(t, p)), end(t, p) == off(t, p) + ents(at(t, p)).len()
{
    if p.len() > 0 { path_split(p); }
    off_ents(t, p);
}

pub proof fn pfwd_up<K, W>(p: Seq<int>, t: ST<K, W>, n: int)
    requires pfwd(p, t, n), p.len() > 0, wf(t, false)
    ensures
        fuel(t, p) >= 0,
        ({
            let q = p.drop_last();
            let i = p.last();
            let b = at(t, q);
            let s = q.push(i + 1);
            let c = b->kids[i + 1];
            &&& vpath(t, q) && b is N && -1 <= i < nkids(b)
            &&& i + 1 == nkids(b) ==> pfwd(q, t, n) && 0 <= fuel(t, q) < fuel(t, p)
            &&& i + 1 < nkids(b) ==> {
                &&& vpath(t, s) && at(t, s) == c && off(t, s) == n && n < ents(t).len() && (c is N <==> b->br)
                &&& c is N ==> pfwd(s.push(-1), t, n) && 0 <= fuel(t, s.push(-1)) < fuel(t, p)
            }
        }),
{
    let q = p.drop_last();
    let b = at(t, q);
    let i = p.last();
    path_split(p);
    path_wf(t, q, false);
    off_push(t, q, i);
    fuel_push(t, q, i);
    fuel_pos(t, p);
    if q.len() > 0 { path_split(q); }
    fuel_pos(t, q);
    off_ents(t, q);
    if i + 1 < nkids(b) {
        let j = i + 1;
        assert(kid_ok(b->br, b->seps, b->kids, j, false));
        before_next(b, j);
        off_push(t, q, j);
        fuel_push(t, q, j);
        path_push(t, q, j);
        off_ents(t, q.push(j));
        wts_next(b, j);
        let c = b->kids[j];
        let s = q.push(j);
        if c is N {
            off_push(t, s, -1);
            fuel_push(t, s, -1);
            path_push(t, s, -1);
            before_next_none(c);
            assert(ents(c).len() > 0);
            kids_nonempty(c);
            before_next(c, 0);
            fuel_pos(t, s.push(-1));
        }
    } else {
        end_up(t, p);
    }
}

proof fn before_next_none<K, W>(c: ST<K, W>)
    requires c is N
    ensures before(c, 0).len() == 0
{
    assert(kes(c->kids.take(0)) =~= seq![]);
}

pub proof fn pback_up<K, W>(p: Seq<int>, t: ST<K, W>, n: int)
    requires pback(p, t, n), p.len() > 0, wf(t, false)
    ensures
        fuel_b(t, p) >= 0,
        ({
            let q = p.drop_last();
            let i = p.last();
            let b = at(t, q);
            let s = q.push(i - 1);
            let c = b->kids[i - 1];
            &&& vpath(t, q) && b is N && 0 <= i <= nkids(b)
            &&& i == 0 ==> pback(q, t, n) && 0 <= fuel_b(t, q) < fuel_b(t, p)
            &&& i > 0 ==> {
                &&& vpath(t, s) && at(t, s) == c && off(t, s) + ents(c).len() == n && n > 0 && ents(c).len() > 0 && (c is N <==> b->br)
                &&& c is N ==> pback(s.push(nkids(c)), t, n) && 0 <= fuel_b(t, s.push(nkids(c))) < fuel_b(t, p)
            }
        }),
{
    let q = p.drop_last();
    let b = at(t, q);
    let i = p.last();
    path_split(p);
    path_wf(t, q, false);
    off_push(t, q, i);
    fuel_push(t, q, i);
    fuel_pos(t, p);
    if q.len() > 0 { path_split(q); }
    fuel_pos(t, q);
    off_ents(t, q);
    if i > 0 {
        let j = i - 1;
        assert(kid_ok(b->br, b->seps, b->kids, j, false));
        before_next(b, j);
        off_push(t, q, j);
        fuel_push(t, q, j);
        path_push(t, q, j);
        off_ents(t, q.push(j));
        wts_next(b, j);
        let c = b->kids[j];
        let s = q.push(j);
        if c is N {
            off_push(t, s, nkids(c));
            fuel_push(t, s, nkids(c));
            path_push(t, s, nkids(c));
            before_whole(c);
            fuel_pos(t, s.push(nkids(c)));
        }
    } else {
        end_up(t, p);
    }
}

// ---- sequences of leaves ----

pub open spec fn bare<K, V>(w: Seq<(K, Seq<(K, V)>)>, a: int, b: int) -> bool {
    forall|j: int| a <= j < b && 0 <= j < w.len() ==> (#[trigger] w[j]).1.len() == 0
}

pub proof fn bare_flat<K, V>(w: Seq<(K, Seq<(K, V)>)>)
    requires bare(w, 0, w.len() as int)
    ensures flat(w).len() == 0
    decreases w.len()
{
    let h = held_by(w);
    if w.len() > 0 {
        assert(h.drop_last() =~= held_by(w.drop_last()));
        assert forall|j: int| 0 <= j < w.len() - 1 implies (#[trigger] w.drop_last()[j]).1.len() == 0 by { assert(w[j].1.len() == 0); }
        bare_flat(w.drop_last());
        assert(w[w.len() - 1].1.len() == 0);
    }
}

pub proof fn flat_at<K, V>(w: Seq<(K, Seq<(K, V)>)>, n: int)
    requires 0 <= n < w.len()
    ensures
        flat(w) == flat(w.take(n)) + w[n].1 + flat(w.skip(n + 1)),
        bare(w, 0, n) ==> flat(w.take(n)).len() == 0,
        bare(w, n + 1, w.len() as int) ==> flat(w.skip(n + 1)).len() == 0,
{
    let a = w.take(n);
    let z = w.skip(n + 1);
    assert(w =~= a + seq![w[n]] + z);
    flat_add(a + seq![w[n]], z);
    flat_add(a, seq![w[n]]);
    assert(held_by(seq![w[n]]) =~= seq![w[n].1]);
    cat_one(w[n].1);
    if bare(w, 0, n) {
        assert forall|j: int| 0 <= j < n implies (#[trigger] a[j]).1.len() == 0 by { assert(w[j].1.len() == 0); }
        bare_flat(a);
    }
    if bare(w, n + 1, w.len() as int) {
        assert forall|j: int| 0 <= j < z.len() implies (#[trigger] z[j]).1.len() == 0 by { assert(w[n + 1 + j].1.len() == 0); }
        bare_flat(z);
    }
}

// The n-th leaf changed, and only it.
pub open spec fn one_set<K, V>(w: Seq<(K, Seq<(K, V)>)>, x: Seq<(K, Seq<(K, V)>)>, n: int, es: Seq<(K, V)>) -> bool {
    &&& 0 <= n < w.len() && x.len() == w.len() && x[n].1 == es
    &&& forall|j: int| 0 <= j < w.len() && j != n ==> #[trigger] x[j] == w[j]
}

pub proof fn take_first<K, V>(w: Seq<(K, Seq<(K, V)>)>, x: Seq<(K, Seq<(K, V)>)>, n: int)
    requires 0 <= n < w.len(), bare(w, 0, n), w[n].1.len() > 0, one_set(w, x, n, w[n].1.drop_first())
    ensures flat(w).len() > 0, flat(w)[0] == w[n].1.first(), flat(x) =~= flat(w).skip(1), bare(x, 0, n)
{
    flat_at(w, n);
    assert forall|j: int| 0 <= j < n implies (#[trigger] x[j]).1.len() == 0 by { assert(w[j].1.len() == 0); }
    flat_at(x, n);
    assert(w.skip(n + 1) =~= x.skip(n + 1));
}

pub proof fn take_last<K, V>(w: Seq<(K, Seq<(K, V)>)>, x: Seq<(K, Seq<(K, V)>)>, n: int)
    requires 0 <= n < w.len(), bare(w, n + 1, w.len() as int), w[n].1.len() > 0, one_set(w, x, n, w[n].1.drop_last())
    ensures flat(w).len() > 0, flat(w).last() == w[n].1.last(), flat(x) =~= flat(w).drop_last(), bare(x, n + 1, x.len() as int)
{
    flat_at(w, n);
    assert forall|j: int| n + 1 <= j < x.len() implies (#[trigger] x[j]).1.len() == 0 by { assert(w[j].1.len() == 0); }
    flat_at(x, n);
    assert(w.take(n) =~= x.take(n));
}

// ---- the iterator ----

#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//= struct iter/owned.rs OwnedIter

impl<L, K, V, C: TreeConfig<K, V>> PathedPointer<L, K, V, C> {
    // Which leaf it is at.
    pub open spec fn no(&self, root: Branch<K, V, C>) -> int { off(leaves(root.st()), self.path()) }
}

impl<K, V, C: TreeConfig<K, V>> OwnedIter<K, V, C> {
    // What is still to come.
    pub open spec fn rest(&self) -> Seq<(K, V)> {
        match self.tree {
            None => seq![],
            Some(p) => ents(p@.st()),
        }
    }

    pub open spec fn inv(&self) -> bool {
        &&& self.remaining == self.rest().len()
        &&& match self.tree {
            None => true,
            Some(p) => p.excl() && owns(p@, self.left, self.right, self.remaining as int),
        }
    }
}

impl<K: Clone + Ord, V, C: TreeConfig<K, V>> OwnedIter<K, V, C> {
    // What ExactSizeIterator provides.
    pub fn len(&self) -> (r: usize)
        requires self.inv()
        ensures r == self.rest().len()
    { self.size_hint().0 }
}

// The leaves left of the left end and right of the right end are empty, those between are not.
pub open spec fn owns<L, K, V, C: TreeConfig<K, V>>(root: Branch<K, V, C>, left: PathedPointer<L, K, V, C>, right: PathedPointer<L, K, V, C>, remaining: int) -> bool {
    let w = ents(leaves(root.st()));
    let a = left.no(root);
    let b = right.no(root);
    &&& root.ok() && wf(leaves(root.st()), true)
    &&& left.leaf.nul() ==> remaining == 0
    &&& !left.leaf.nul() ==> left.aims(root) && left.index == 0 && bare(w, 0, a)
    &&& remaining > 0 ==> {
        &&& right.aims(root) && bare(w, b + 1, w.len() as int)
        &&& a <= b
        &&& forall|j: int| a < j < b ==> (#[trigger] w[j]).1.len() > 0
    }
}

// The leaf at p was written, and nothing moved.
pub open spec fn wrote<K, V, C: TreeConfig<K, V>>(r0: Branch<K, V, C>, r1: Branch<K, V, C>, p: Seq<int>, es: Seq<(K, V)>) -> bool {
    &&& r1.ok() && r1.st() == upd(r0.st(), p, ST::L(es))
    &&& forall|o: BPtr<K, V, C>| #![trigger o.valid(r1)] o.valid(r0) ==> o.valid(r1)
    &&& forall|o: LPtr<K, V, C>| #![trigger o.valid(r1)] o.valid(r0) ==> o.valid(r1)
}

pub proof fn wrote_aims<L, K, V, C: TreeConfig<K, V>>(c: PathedPointer<L, K, V, C>, r0: Branch<K, V, C>, r1: Branch<K, V, C>, p: Seq<int>, es: Seq<(K, V)>)
    requires c.aims(r0), wrote(r0, r1, p, es), vpath(r0.st(), p), at(r0.st(), p) is L, wf(leaves(r0.st()), true)
    ensures c.aims(r1), c.no(r1) == c.no(r0)
{
    hide(wf); hide(off); hide(at); hide(vpath); hide(ents); hide(leaves); hide(upd);
    let u = upd(r0.st(), p, ST::L(es));
    leaf_set(r0.st(), p, es);
    assert(r1.st() == u);
    assert(vpath(u, c.path()));
    assert(at(u, c.path()) is L);
    held_all(c.stack@, r0, r1, seq![]);
    assert(vpath(r0.st(), c.path()) && at(r0.st(), c.path()) is L);
    assert(vpath(r1.st(), c.path()) && at(r1.st(), c.path()) is L);
}

pub proof fn took_first<L, K, V, C: TreeConfig<K, V>>(left: PathedPointer<L, K, V, C>, right: PathedPointer<L, K, V, C>, n: int, r0: Branch<K, V, C>, r1: Branch<K, V, C>)
    requires
        owns(r0, left, right, n), n == ents(r0.st()).len(), !left.leaf.nul(),
        ents(at(r0.st(), left.path())).len() > 0,
        wrote(r0, r1, left.path(), ents(at(r0.st(), left.path())).drop_first()),
    ensures
        n > 0, owns(r1, left, right, n - 1),
        ents(r0.st())[0] == ents(at(r0.st(), left.path())).first(), ents(r1.st()) =~= ents(r0.st()).skip(1),
{
    let p = left.path();
    let w = ents(leaves(r0.st()));
    let x = ents(leaves(r1.st()));
    let es = ents(at(r0.st(), p)).drop_first();
    leaf_no(r0.st(), p);
    leaf_set(r0.st(), p, es);
    take_first(w, x, left.no(r0));
    flat_leaves(r0);
    flat_leaves(r1);
    wrote_aims(left, r0, r1, p, es);
    wrote_aims(right, r0, r1, p, es);
    assert(bare(x, right.no(r0) + 1, x.len() as int)) by {
        assert forall|j: int| right.no(r0) + 1 <= j < x.len() && 0 <= j implies (#[trigger] x[j]).1.len() == 0 by { assert(w[j].1.len() == 0); }
    }
    assert forall|j: int| left.no(r0) < j < right.no(r0) implies (#[trigger] x[j]).1.len() > 0 by { leaf_no(r0.st(), right.path()); assert(w[j].1.len() > 0); }
}

pub proof fn took_last<L, K, V, C: TreeConfig<K, V>>(left: PathedPointer<L, K, V, C>, right: PathedPointer<L, K, V, C>, n: int, r0: Branch<K, V, C>, r1: Branch<K, V, C>)
    requires
        owns(r0, left, right, n), n == ents(r0.st()).len(), n > 0,
        ents(at(r0.st(), right.path())).len() > 0,
        wrote(r0, r1, right.path(), ents(at(r0.st(), right.path())).drop_last()),
    ensures
        owns(r1, left, right, n - 1),
        ents(r0.st()).last() == ents(at(r0.st(), right.path())).last(), ents(r1.st()) =~= ents(r0.st()).drop_last(),
{
    let p = right.path();
    let w = ents(leaves(r0.st()));
    let x = ents(leaves(r1.st()));
    let es = ents(at(r0.st(), p)).drop_last();
    leaf_no(r0.st(), p);
    leaf_set(r0.st(), p, es);
    take_last(w, x, right.no(r0));
    flat_leaves(r0);
    flat_leaves(r1);
    wrote_aims(left, r0, r1, p, es);
    wrote_aims(right, r0, r1, p, es);
    leaf_no(r0.st(), left.path());
    assert(bare(x, 0, left.no(r0))) by {
        assert forall|j: int| 0 <= j < left.no(r0) implies (#[trigger] x[j]).1.len() == 0 by { assert(w[j].1.len() == 0); }
    }
    assert forall|j: int| left.no(r0) < j < right.no(r0) implies (#[trigger] x[j]).1.len() > 0 by { assert(w[j].1.len() > 0); }
}

// Nothing was written: everything is as it was.
pub proof fn kept<L, K, V, C: TreeConfig<K, V>>(left: PathedPointer<L, K, V, C>, right: PathedPointer<L, K, V, C>, n: int, r0: Branch<K, V, C>, r1: Branch<K, V, C>)
    requires
        owns(r0, left, right, n), n == ents(r0.st()).len(),
        r1.ok(), r1.st() == r0.st(),
        forall|o: BPtr<K, V, C>| #![trigger o.valid(r1)] o.valid(r0) ==> o.valid(r1),
        forall|o: LPtr<K, V, C>| #![trigger o.valid(r1)] o.valid(r0) ==> o.valid(r1),
    ensures owns(r1, left, right, n), left.no(r1) == left.no(r0), right.no(r1) == right.no(r0)
{
    if !left.leaf.nul() { held_all(left.stack@, r0, r1, seq![]); }
    if n > 0 { held_all(right.stack@, r0, r1, seq![]); }
}

// The left end's leaf is empty: on to the next, if anything is left.
pub proof fn pass_left<L, K, V, C: TreeConfig<K, V>>(l0: PathedPointer<L, K, V, C>, l1: PathedPointer<L, K, V, C>, right: PathedPointer<L, K, V, C>, n: int, root: Branch<K, V, C>)
    requires
        owns(root, l0, right, n), n == ents(root.st()).len(), !l0.leaf.nul(), ents(at(root.st(), l0.path())).len() == 0,
        l1.leaf.nul() ==> l0.no(root) + 1 >= ents(leaves(root.st())).len(),
        !l1.leaf.nul() ==> l1.aims(root) && l1.index == 0 && l1.no(root) == l0.no(root) + 1,
    ensures owns(root, l1, right, n)
{
    let w = ents(leaves(root.st()));
    let a = l0.no(root);
    leaf_no(root.st(), l0.path());
    flat_leaves(root);
    assert(bare(w, 0, a + 1)) by {
        assert forall|j: int| 0 <= j < a + 1 && j < w.len() implies (#[trigger] w[j]).1.len() == 0 by {}
    }
    if n > 0 {
        leaf_no(root.st(), right.path());
        if a + 1 >= w.len() || a == right.no(root) { bare_flat(w); }
    }
}

pub proof fn can_pass<L, K, V, C: TreeConfig<K, V>>(left: PathedPointer<L, K, V, C>, r0: PathedPointer<L, K, V, C>, n: int, root: Branch<K, V, C>)
    requires
        owns(root, left, r0, n), n == ents(root.st()).len(), n > 0, ents(at(root.st(), r0.path())).len() == 0,
    ensures left.no(root) < r0.no(root), r0.no(root) > 0, ents(leaves(root.st()))[r0.no(root) - 1].1.len() > 0
{
    let w = ents(leaves(root.st()));
    let a = left.no(root);
    let b = r0.no(root);
    leaf_no(root.st(), r0.path());
    leaf_no(root.st(), left.path());
    flat_leaves(root);
    if a == b { bare_flat(w); }
    else if w[b - 1].1.len() == 0 { bare_flat(w); }
}

pub proof fn pass_right<L, K, V, C: TreeConfig<K, V>>(left: PathedPointer<L, K, V, C>, r0: PathedPointer<L, K, V, C>, r1: PathedPointer<L, K, V, C>, n: int, root: Branch<K, V, C>)
    requires
        owns(root, left, r0, n), n == ents(root.st()).len(), n > 0, ents(at(root.st(), r0.path())).len() == 0,
        r1.aims(root), r1.no(root) == r0.no(root) || r1.no(root) == r0.no(root) - 1,
    ensures owns(root, left, r1, n)
{
    let w = ents(leaves(root.st()));
    can_pass(left, r0, n, root);
    leaf_no(root.st(), r0.path());
    leaf_no(root.st(), left.path());
    assert(bare(w, r0.no(root), w.len() as int));
}

pub broadcast proof fn flat_leaves<K, V, C: TreeConfig<K, V>>(b: Branch<K, V, C>)
    ensures #[trigger] ents(b.st()) == flat(ents(leaves(b.st())))
{
    lt_ents(b.st(), arbitrary());
}

// What a child of a node is, seen either way.
pub proof fn lt_kid<K, V>(t: ST<K, V>, q: Seq<int>, i: int)
    requires vpath(leaves(t), q)
    ensures
        vpath(t, q), at(leaves(t), q) is N <==> at(t, q) is N,
        at(t, q) is N ==> at(leaves(t), q)->br == at(t, q)->br && nkids(at(leaves(t), q)) == nkids(at(t, q)),
        at(t, q) is N && 0 <= i < nkids(at(t, q)) ==> vpath(t, q.push(i)) && at(t, q.push(i)) == at(t, q)->kids[i]
            && (at(leaves(t), q)->kids[i] is N <==> at(t, q)->kids[i] is N)
            && (at(t, q)->kids[i] is N ==> nkids(at(leaves(t), q)->kids[i]) == nkids(at(t, q)->kids[i])),
{
    let k = arbitrary();
    lt_path(t, k, q);
    if at(t, q) is N {
        let b = at(t, q);
        lt_n(b, lkey(t, k, q));
        if 0 <= i < nkids(b) {
            path_push(t, q, i);
            if b->kids[i] is N { lt_n(b->kids[i], b->seps[i]); } else { lt_l(b->kids[i], b->seps[i]); }
        }
    }
}

// Every node of the abstract tree stands for a node of the real one.
pub proof fn node_at<K, V, C: TreeConfig<K, V>>(root: Branch<K, V, C>, p: Seq<int>) -> (r: Branch<K, V, C>)
    requires root.ok(), vpath(root.st(), p), at(root.st(), p) is N
    ensures r.ok(), r.st() == at(root.st(), p)
    decreases p.len()
{
    if p.len() == 0 {
        root
    } else {
        let q = p.drop_last();
        let b = node_at(root, q);
        let n = b.ns()[p.last()];
        assert(nst(n) == at(root.st(), p));
        assert(nok(n));
        n->B_0@
    }
}

// ---- both ends of a full tree ----

proof fn full_leaves<K, V>(t: ST<K, V>, k: K)
    requires wf(t, true), ents(t).len() > 0
    ensures forall|j: int| 0 <= j < ents(lt(t, k)).len() ==> (#[trigger] ents(lt(t, k))[j]).1.len() > 0
    decreases t
{
    if t is L {
        lt_l(t, k);
        leaf_facts(t->L_0);
    } else {
        lt_n(t, k);
        let u = lt(t, k);
        ents_n(u);
        assert forall|j: int| 0 <= j < ents(u).len() implies (#[trigger] ents(u)[j]).1.len() > 0 by {
            let w = cat_in(kes(u->kids), j);
            let i = w.0;
            around(t, i, true);
            full_leaves(t->kids[i], t->seps[i]);
            assert(ents(u->kids[i])[w.1] == ents(u)[j]);
        }
    }
}

proof fn first_no<K, V>(t: ST<K, V>, k: K, p: Seq<int>)
    requires vpath(t, p), wf(t, true), off(t, p) == 0
    ensures off(lt(t, k), p) == 0
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let i = p.last();
        let b = at(t, q);
        path_split(p);
        off_push(t, q, i);
        off_ents(t, q);
        first_no(t, k, q);
        lt_path(t, k, q);
        lt_n(b, lkey(t, k, q));
        off_push(lt(t, k), q, i);
        path_wf(t, q, true);
        assert(kid_ok(b->br, b->seps, b->kids, 0, tpath(t, q, true)));
        if i > 0 {
            assert(before(b, i).len() > 0) by { before_mono(b, 1, i); before_next(b, 0); }
        }
        before_next_none(b);
        before_next_none(at(lt(t, k), q));
    }
}

proof fn before_mono<K, V>(t: ST<K, V>, i: int, j: int)
    requires t is N, 0 <= i <= j <= nkids(t)
    ensures before(t, i).len() <= before(t, j).len()
    decreases j - i
{
    if i < j { before_mono(t, i, j - 1); before_next(t, j - 1); }
}

proof fn last_no<K, V>(t: ST<K, V>, k: K, p: Seq<int>)
    requires vpath(t, p), wf(t, true), end(t, p) == ents(t).len()
    ensures end(lt(t, k), p) == ents(lt(t, k)).len()
    decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last();
        let i = p.last();
        let b = at(t, q);
        path_split(p);
        off_push(t, q, i);
        off_ents(t, q);
        off_ents(t, p);
        lt_path(t, k, q);
        lt_n(b, lkey(t, k, q));
        path_wf(t, q, true);
        before_whole(b);
        if i + 1 < nkids(b) {
            assert(kid_ok(b->br, b->seps, b->kids, i + 1, tpath(t, q, true)));
            before_next(b, i + 1);
            before_mono(b, i + 2, nkids(b));
        }
        end_up(t, p);
        last_no(t, k, q);
        end_up(lt(t, k), p);
    }
}

pub proof fn ends_no<K, V>(t: ST<K, V>)
    requires wf(t, true), ents(t).len() > 0
    ensures
        forall|j: int| 0 <= j < ents(leaves(t)).len() ==> (#[trigger] ents(leaves(t))[j]).1.len() > 0,
        forall|p: Seq<int>| #![trigger vpath(t, p)] vpath(t, p) && at(t, p) is L && off(t, p) == 0 ==> off(leaves(t), p) == 0,
        forall|p: Seq<int>| #![trigger vpath(t, p)] vpath(t, p) && at(t, p) is L ==> off(t, p) >= 0 && off(t, p) + ents(at(t, p)).len() <= ents(t).len(),
        forall|p: Seq<int>| #![trigger vpath(t, p)] vpath(t, p) && at(t, p) is L && off(t, p) + ents(at(t, p)).len() == ents(t).len() ==> off(leaves(t), p) == ents(leaves(t)).len() - 1,
{
    let k = arbitrary();
    full_leaves(t, k);
    assert forall|p: Seq<int>| #![trigger vpath(t, p)] vpath(t, p) && at(t, p) is L && off(t, p) == 0 implies off(leaves(t), p) == 0 by { first_no(t, k, p); }
    assert forall|p: Seq<int>| #![trigger vpath(t, p)] vpath(t, p) && at(t, p) is L implies off(t, p) >= 0 && off(t, p) + ents(at(t, p)).len() <= ents(t).len() by { off_ents(t, p); }
    assert forall|p: Seq<int>| #![trigger vpath(t, p)] vpath(t, p) && at(t, p) is L && off(t, p) + ents(at(t, p)).len() == ents(t).len() implies off(leaves(t), p) == ents(leaves(t)).len() - 1 by {
        off_ents(t, p);
        last_no(t, k, p);
        leaf_no(t, p);
    }
}
