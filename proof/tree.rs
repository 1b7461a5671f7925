// The abstract tree a node stands for, and what is true of well-formed ones.  Pure mathematics:
// no executable code, nothing assumed.

pub enum ST<K, V> {
    L(Seq<(K, V)>),
    N { br: bool, seps: Seq<K>, kids: Seq<ST<K, V>> },
}

// ---- sequences of keys ----

pub open spec fn sortedk<K>(ks: Seq<K>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] rank(ks[i]) < #[trigger] rank(ks[j])
}

// The number of keys below x in an ascending sequence.
pub open spec fn lbk<K>(ks: Seq<K>, x: real) -> int
    decreases ks.len()
{
    if ks.len() == 0 { 0 } else if rank(ks.last()) < x { ks.len() as int } else { lbk(ks.drop_last(), x) }
}

pub proof fn lbk_props<K>(ks: Seq<K>, x: real)
    requires sortedk(ks)
    ensures
        0 <= lbk(ks, x) <= ks.len(),
        forall|j: int| 0 <= j < lbk(ks, x) ==> #[trigger] rank(ks[j]) < x,
        forall|j: int| lbk(ks, x) <= j < ks.len() ==> #[trigger] rank(ks[j]) >= x,
    decreases ks.len()
{
    if ks.len() != 0 {
        if rank(ks.last()) < x {
            assert forall|j: int| 0 <= j < ks.len() implies #[trigger] rank(ks[j]) < x by {
                if j < ks.len() - 1 { assert(rank(ks[j]) < rank(ks[ks.len() - 1])); }
            }
        } else {
            let d = ks.drop_last();
            assert(sortedk(d)) by {
                assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] rank(d[i]) < #[trigger] rank(d[j]) by {
                    assert(rank(ks[i]) < rank(ks[j]));
                }
            }
            lbk_props(d, x);
            assert forall|j: int| 0 <= j < lbk(ks, x) implies #[trigger] rank(ks[j]) < x by { assert(rank(d[j]) < x); }
            assert forall|j: int| lbk(ks, x) <= j < ks.len() implies #[trigger] rank(ks[j]) >= x by {
                if j < d.len() { assert(rank(d[j]) >= x); }
            }
        }
    }
}

pub proof fn lbk_is<K>(ks: Seq<K>, x: real, n: int)
    requires
        0 <= n <= ks.len(),
        forall|j: int| 0 <= j < n ==> #[trigger] rank(ks[j]) < x,
        forall|j: int| n <= j < ks.len() ==> #[trigger] rank(ks[j]) >= x,
    ensures lbk(ks, x) == n
    decreases ks.len()
{
    if ks.len() != 0 {
        if n == ks.len() {
            assert(rank(ks[ks.len() - 1]) < x);
        } else {
            assert(rank(ks[ks.len() - 1]) >= x);
            let d = ks.drop_last();
            assert forall|j: int| 0 <= j < n implies #[trigger] rank(d[j]) < x by { assert(rank(ks[j]) < x); }
            assert forall|j: int| n <= j < d.len() implies #[trigger] rank(d[j]) >= x by { assert(rank(ks[j]) >= x); }
            lbk_is(d, x, n);
        }
    }
}

// ---- sequences of entries ----

pub open spec fn ekeys<K, V>(es: Seq<(K, V)>) -> Seq<K> { Seq::new(es.len(), |i: int| es[i].0) }
pub open spec fn evals<K, V>(es: Seq<(K, V)>) -> Seq<V> { Seq::new(es.len(), |i: int| es[i].1) }
pub open spec fn zip<K, V>(ks: Seq<K>, vs: Seq<V>) -> Seq<(K, V)> { Seq::new(ks.len(), |i: int| (ks[i], vs[i])) }

pub broadcast proof fn zip_vals<K, V>(ks: Seq<K>, vs: Seq<V>, i: int, v: V)
    requires 0 <= i < ks.len(), ks.len() == vs.len()
    ensures #[trigger] zip(ks, vs.update(i, v)) == zip(ks, vs).update(i, (ks[i], v))
{
    assert(zip(ks, vs.update(i, v)) =~= zip(ks, vs).update(i, (ks[i], v)));
}

pub broadcast proof fn zip_both<K, V>(ks: Seq<K>, vs: Seq<V>, i: int, k: K, v: V)
    requires 0 <= i < ks.len(), ks.len() == vs.len()
    ensures #[trigger] zip(ks.update(i, k), vs.update(i, v)) == zip(ks, vs).update(i, (k, v))
{
    assert(zip(ks.update(i, k), vs.update(i, v)) =~= zip(ks, vs).update(i, (k, v)));
}

pub open spec fn sorted<K, V>(es: Seq<(K, V)>) -> bool { sortedk(ekeys(es)) }
pub open spec fn lb<K, V>(es: Seq<(K, V)>, x: real) -> int { lbk(ekeys(es), x) }

pub open spec fn all_lt<K, V>(es: Seq<(K, V)>, x: real) -> bool {
    forall|j: int| 0 <= j < es.len() ==> rank((#[trigger] es[j]).0) < x
}
pub open spec fn all_le<K, V>(es: Seq<(K, V)>, x: real) -> bool {
    forall|j: int| 0 <= j < es.len() ==> rank((#[trigger] es[j]).0) <= x
}
pub open spec fn all_gt<K, V>(es: Seq<(K, V)>, x: real) -> bool {
    forall|j: int| 0 <= j < es.len() ==> rank((#[trigger] es[j]).0) > x
}

// The map an ascending sequence of entries stands for.
pub open spec fn holds<K, V>(es: Seq<(K, V)>, x: real) -> bool {
    0 <= lb(es, x) < es.len() && rank(es[lb(es, x)].0) == x
}
pub open spec fn get_of<K, V>(es: Seq<(K, V)>, x: real) -> Option<V> {
    if holds(es, x) { Some(es[lb(es, x)].1) } else { None }
}
pub open spec fn put<K, V>(es: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> {
    let i = lb(es, rank(k));
    if holds(es, rank(k)) { es.update(i, (es[i].0, v)) } else { es.insert(i, (k, v)) }
}
pub open spec fn without<K, V>(es: Seq<(K, V)>, x: real) -> Seq<(K, V)> {
    if holds(es, x) { es.remove(lb(es, x)) } else { es }
}

pub proof fn lb_props<K, V>(es: Seq<(K, V)>, x: real)
    requires sorted(es)
    ensures
        0 <= lb(es, x) <= es.len(),
        forall|j: int| 0 <= j < lb(es, x) ==> rank((#[trigger] es[j]).0) < x,
        forall|j: int| lb(es, x) <= j < es.len() ==> rank((#[trigger] es[j]).0) >= x,
        forall|j: int| lb(es, x) < j < es.len() ==> rank((#[trigger] es[j]).0) > x,
{
    let ks = ekeys(es);
    lbk_props(ks, x);
    assert forall|j: int| 0 <= j < lb(es, x) implies rank((#[trigger] es[j]).0) < x by { assert(rank(ks[j]) < x); }
    assert forall|j: int| lb(es, x) <= j < es.len() implies rank((#[trigger] es[j]).0) >= x by { assert(rank(ks[j]) >= x); }
    assert forall|j: int| lb(es, x) < j < es.len() implies rank((#[trigger] es[j]).0) > x by {
        let l = lb(es, x);
        assert(rank(ks[l]) >= x);
        assert(rank(ks[l]) < rank(ks[j]));
    }
}

pub proof fn lb_is<K, V>(es: Seq<(K, V)>, x: real, n: int)
    requires
        0 <= n <= es.len(),
        forall|j: int| 0 <= j < n ==> rank((#[trigger] es[j]).0) < x,
        forall|j: int| n <= j < es.len() ==> rank((#[trigger] es[j]).0) >= x,
    ensures lb(es, x) == n
{
    let ks = ekeys(es);
    assert forall|j: int| 0 <= j < n implies #[trigger] rank(ks[j]) < x by { assert(rank(es[j].0) < x); }
    assert forall|j: int| n <= j < ks.len() implies #[trigger] rank(ks[j]) >= x by { assert(rank(es[j].0) >= x); }
    lbk_is(ks, x, n);
}

pub proof fn sorted_intro<K, V>(es: Seq<(K, V)>)
    requires forall|i: int, j: int| 0 <= i < j < es.len() ==> rank((#[trigger] es[i]).0) < rank((#[trigger] es[j]).0)
    ensures sorted(es)
{
    let ks = ekeys(es);
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] rank(ks[i]) < #[trigger] rank(ks[j]) by {
        assert(rank(es[i].0) < rank(es[j].0));
    }
}

pub proof fn sorted_elim<K, V>(es: Seq<(K, V)>)
    requires sorted(es)
    ensures forall|i: int, j: int| 0 <= i < j < es.len() ==> rank((#[trigger] es[i]).0) < rank((#[trigger] es[j]).0)
{
    let ks = ekeys(es);
    assert forall|i: int, j: int| 0 <= i < j < es.len() implies rank((#[trigger] es[i]).0) < rank((#[trigger] es[j]).0) by {
        assert(rank(ks[i]) < rank(ks[j]));
    }
}

// A sorted, M sorted, Z sorted, with x between: searching A + M + Z for a key of M's window.
proof fn window_lb<K, V>(a: Seq<(K, V)>, m: Seq<(K, V)>, z: Seq<(K, V)>, x: real)
    requires sorted(m), all_lt(a, x), all_gt(z, x)
    ensures
        lb(a + m + z, x) == a.len() + lb(m, x),
        0 <= lb(m, x) <= m.len(),
        holds(a + m + z, x) == holds(m, x),
        holds(m, x) ==> (a + m + z)[a.len() + lb(m, x)] == m[lb(m, x)],
{
    lb_props(m, x);
    let es = a + m + z;
    let n = a.len() + lb(m, x);
    assert forall|j: int| 0 <= j < n implies rank((#[trigger] es[j]).0) < x by {
        if j < a.len() { assert(es[j] == a[j]); } else { assert(es[j] == m[j - a.len()]); }
    }
    assert forall|j: int| n <= j < es.len() implies rank((#[trigger] es[j]).0) >= x by {
        if j < a.len() + m.len() { assert(es[j] == m[j - a.len()]); } else { assert(es[j] == z[j - a.len() - m.len()]); }
    }
    lb_is(es, x, n);
    if n < es.len() {
        if lb(m, x) < m.len() { assert(es[n] == m[lb(m, x)]); }
        else { assert(es[n] == z[n - a.len() - m.len()]); }
    }
}

proof fn window_seq<A>(a: Seq<A>, m: Seq<A>, z: Seq<A>, i: int, e: A)
    ensures
        0 <= i < m.len() ==> (a + m + z).update(a.len() + i, e) == a + m.update(i, e) + z,
        0 <= i <= m.len() ==> (a + m + z).insert(a.len() + i, e) == a + m.insert(i, e) + z,
        0 <= i < m.len() ==> (a + m + z).remove(a.len() + i) == a + m.remove(i) + z,
{
    if 0 <= i < m.len() {
        assert((a + m + z).update(a.len() + i, e) =~= a + m.update(i, e) + z);
        assert((a + m + z).remove(a.len() + i) =~= a + m.remove(i) + z);
    }
    if 0 <= i <= m.len() {
        assert((a + m + z).insert(a.len() + i, e) =~= a + m.insert(i, e) + z);
    }
}

pub proof fn window<K, V>(a: Seq<(K, V)>, m: Seq<(K, V)>, z: Seq<(K, V)>, x: real)
    requires sorted(m), all_lt(a, x), all_gt(z, x)
    ensures
        lb(a + m + z, x) == a.len() + lb(m, x),
        0 <= lb(m, x) <= m.len(),
        holds(a + m + z, x) == holds(m, x),
        get_of(a + m + z, x) == get_of(m, x),
        forall|k: K, v: V| rank(k) == x ==> #[trigger] put(a + m + z, k, v) == a + put(m, k, v) + z,
        without(a + m + z, x) == a + without(m, x) + z,
{
    window_lb(a, m, z, x);
    let i = lb(m, x);
    assert forall|k: K, v: V| rank(k) == x implies #[trigger] put(a + m + z, k, v) == a + put(m, k, v) + z by {
        if holds(m, x) { window_seq(a, m, z, i, (m[i].0, v)); } else { window_seq(a, m, z, i, (k, v)); }
    }
    if holds(m, x) { window_seq(a, m, z, i, m[i]); }
}

pub proof fn put_props<K, V>(es: Seq<(K, V)>, k: K, v: V)
    requires sorted(es)
    ensures
        sorted(put(es, k, v)),
        put(es, k, v).len() == es.len() + (if holds(es, rank(k)) { 0int } else { 1 }),
        get_of(put(es, k, v), rank(k)) == Some(v),
        forall|y: real| y != rank(k) ==> #[trigger] get_of(put(es, k, v), y) == get_of(es, y),
        forall|y: real| all_le(es, y) && rank(k) <= y ==> #[trigger] all_le(put(es, k, v), y),
        forall|y: real| all_gt(es, y) && rank(k) > y ==> #[trigger] all_gt(put(es, k, v), y),
{
    let x = rank(k);
    let r = put(es, k, v);
    let i = lb(es, x);
    lb_props(es, x);
    sorted_elim(es);
    sorted_intro(r);
    assert(r[i].1 == v && rank(r[i].0) == x);
    lb_is(r, x, i);
    assert forall|y: real| y != x implies #[trigger] get_of(r, y) == get_of(es, y) by {
        lb_props(es, y);
        let n = lb(es, y);
        let d: int = if holds(es, x) { 0 } else { 1 };
        if y < x {
            assert(n <= i) by { if n > i { assert(rank(es[i].0) < y); } }
            lb_is(r, y, n);
        } else {
            assert(n >= i + (1 - d)) by {
                if n < i { assert(rank(es[n].0) < x); }
            }
            assert forall|j: int| 0 <= j < n + d implies rank((#[trigger] r[j]).0) < y by {
                if d == 1 && j > i { assert(r[j] == es[j - 1]); } 
                else if j != i { assert(r[j] == es[j]); }
            }
            assert forall|j: int| n + d <= j < r.len() implies rank((#[trigger] r[j]).0) >= y by {
                assert(r[j] == es[j - d] || j == i);
            }
            lb_is(r, y, n + d);
            if n < es.len() { assert(r[n + d].1 == es[n].1 && r[n + d].0 == es[n].0); }
        }
    }
    assert forall|y: real| all_le(es, y) && x <= y implies #[trigger] all_le(r, y) by {
        assert forall|j: int| 0 <= j < r.len() implies rank((#[trigger] r[j]).0) <= y by {
            if holds(es, x) { assert(r[j].0 == es[j].0); }
            else if j < i { assert(r[j] == es[j]); } else if j > i { assert(r[j] == es[j - 1]); }
        }
    }
    assert forall|y: real| all_gt(es, y) && x > y implies #[trigger] all_gt(r, y) by {
        assert forall|j: int| 0 <= j < r.len() implies rank((#[trigger] r[j]).0) > y by {
            if holds(es, x) { assert(r[j].0 == es[j].0); }
            else if j < i { assert(r[j] == es[j]); } else if j > i { assert(r[j] == es[j - 1]); }
        }
    }
}

pub proof fn cut_props<K, V>(es: Seq<(K, V)>, i: int)
    requires sorted(es), 0 <= i < es.len()
    ensures
        sorted(es.remove(i)),
        lb(es, rank(es[i].0)) == i, holds(es, rank(es[i].0)),
        es.remove(i) == without(es, rank(es[i].0)),
        get_of(es.remove(i), rank(es[i].0)) is None,
        forall|y: real| y != rank(es[i].0) ==> #[trigger] get_of(es.remove(i), y) == get_of(es, y),
        forall|y: real| all_le(es, y) ==> #[trigger] all_le(es.remove(i), y),
        forall|y: real| all_gt(es, y) ==> #[trigger] all_gt(es.remove(i), y),
{
    let x = rank(es[i].0);
    let r = es.remove(i);
    sorted_elim(es);
    lb_is(es, x, i);
    sorted_intro(r);
    lb_is(r, x, i);
    assert forall|y: real| y != x implies #[trigger] get_of(r, y) == get_of(es, y) by {
        lb_props(es, y);
        let n = lb(es, y);
        if y < x {
            assert(n <= i) by { if n > i { assert(rank(es[i].0) < y); } }
            assert forall|j: int| n <= j < r.len() implies rank((#[trigger] r[j]).0) >= y by {
                if j < i { assert(r[j] == es[j]); } else { assert(r[j] == es[j + 1]); }
            }
            lb_is(r, y, n);
        } else {
            assert(n > i) by { if n <= i { assert(rank(es[i].0) >= y); } }
            assert forall|j: int| 0 <= j < n - 1 implies rank((#[trigger] r[j]).0) < y by {
                if j < i { assert(r[j] == es[j]); } else { assert(r[j] == es[j + 1]); }
            }
            assert forall|j: int| n - 1 <= j < r.len() implies rank((#[trigger] r[j]).0) >= y by {
                if j < i { assert(r[j] == es[j]); } else { assert(r[j] == es[j + 1]); }
            }
            lb_is(r, y, n - 1);
            if n < es.len() { assert(r[n - 1] == es[n]); }
        }
    }
    assert forall|y: real| all_le(es, y) implies #[trigger] all_le(r, y) by {
        assert forall|j: int| 0 <= j < r.len() implies rank((#[trigger] r[j]).0) <= y by {
            if j < i { assert(r[j] == es[j]); } else { assert(r[j] == es[j + 1]); }
        }
    }
    assert forall|y: real| all_gt(es, y) implies #[trigger] all_gt(r, y) by {
        assert forall|j: int| 0 <= j < r.len() implies rank((#[trigger] r[j]).0) > y by {
            if j < i { assert(r[j] == es[j]); } else { assert(r[j] == es[j + 1]); }
        }
    }
}

// ---- concatenation ----

pub open spec fn cat<E>(ss: Seq<Seq<E>>) -> Seq<E>
    decreases ss.len()
{
    if ss.len() == 0 { seq![] } else { cat(ss.drop_last()) + ss.last() }
}

pub proof fn cat_add<E>(a: Seq<Seq<E>>, b: Seq<Seq<E>>)
    ensures cat(a + b) == cat(a) + cat(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(cat(a) + cat(b) =~= cat(a));
    } else {
        cat_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(cat(a + b) =~= cat(a) + cat(b));
    }
}

pub proof fn cat_one<E>(x: Seq<E>)
    ensures cat(seq![x]) == x
{
    let s = seq![x];
    assert(s.drop_last() =~= Seq::<Seq<E>>::empty());
    assert(cat(s.drop_last()) =~= Seq::<E>::empty());
    assert(s.last() == x);
    assert(cat(s) =~= x);
}

pub proof fn cat_three<E>(a: Seq<Seq<E>>, x: Seq<E>, b: Seq<Seq<E>>)
    ensures cat(a + seq![x] + b) == cat(a) + x + cat(b)
{
    cat_add(a + seq![x], b);
    cat_add(a, seq![x]);
    cat_one(x);
}

// Every element of a concatenation is an element of one of its parts.
pub proof fn cat_in<E>(ss: Seq<Seq<E>>, j: int) -> (r: (int, int))
    requires 0 <= j < cat(ss).len()
    ensures 0 <= r.0 < ss.len(), 0 <= r.1 < ss[r.0].len(), cat(ss)[j] == ss[r.0][r.1]
    decreases ss.len()
{
    let d = cat(ss.drop_last());
    if j < d.len() {
        let r = cat_in(ss.drop_last(), j);
        r
    } else {
        (ss.len() - 1, j - d.len())
    }
}

// ---- the tree ----

pub open spec fn ents<K, V>(t: ST<K, V>) -> Seq<(K, V)>
    decreases t, 1nat, 0nat
{
    match t {
        ST::L(es) => es,
        ST::N { br, seps, kids } => upto(t, kids.len()),
    }
}

// The entries of the first n children.
pub open spec fn upto<K, V>(t: ST<K, V>, n: nat) -> Seq<(K, V)>
    decreases t, 0nat, n
{
    if t is L || n == 0 || n > t->kids.len() { seq![] } else { upto(t, (n - 1) as nat) + ents(t->kids[n - 1]) }
}

pub open spec fn kes<K, V>(kids: Seq<ST<K, V>>) -> Seq<Seq<(K, V)>> {
    Seq::new(kids.len(), |i: int| ents(kids[i]))
}

pub open spec fn kid<K, V>(t: ST<K, V>, i: int) -> ST<K, V> { t->kids[i] }
pub open spec fn nkids<K, V>(t: ST<K, V>) -> int { t->kids.len() as int }

// Entries in the children before / after child i.
pub open spec fn before<K, V>(t: ST<K, V>, i: int) -> Seq<(K, V)> { cat(kes(t->kids.take(i))) }
pub open spec fn after<K, V>(t: ST<K, V>, i: int) -> Seq<(K, V)> { cat(kes(t->kids.skip(i + 1))) }

pub proof fn upto_cat<K, V>(t: ST<K, V>, n: nat)
    requires t is N, n <= t->kids.len()
    ensures upto(t, n) == cat(kes(t->kids.take(n as int)))
    decreases n
{
    let s = kes(t->kids.take(n as int));
    if n > 0 {
        upto_cat(t, (n - 1) as nat);
        assert(s.drop_last() =~= kes(t->kids.take(n - 1)));
        assert(s.last() == ents(t->kids[n - 1]));
    }
}

pub proof fn ents_n<K, V>(t: ST<K, V>)
    requires t is N
    ensures ents(t) == cat(kes(t->kids))
{
    upto_cat(t, t->kids.len());
    assert(t->kids.take(t->kids.len() as int) =~= t->kids);
}

pub proof fn ents_at<K, V>(t: ST<K, V>, i: int)
    requires t is N, 0 <= i < nkids(t)
    ensures ents(t) == before(t, i) + ents(kid(t, i)) + after(t, i)
{
    ents_n(t);
    let kids = t->kids;
    assert(kes(kids) =~= kes(kids.take(i)) + seq![ents(kids[i])] + kes(kids.skip(i + 1)));
    cat_three(kes(kids.take(i)), ents(kids[i]), kes(kids.skip(i + 1)));
}

pub open spec fn wf<K, V>(t: ST<K, V>, tight: bool) -> bool
    decreases t
{
    match t {
        ST::L(es) => sorted(es),
        ST::N { br, seps, kids } => {
            &&& seps.len() == kids.len()
            &&& sortedk(seps)
            &&& forall|i: int| 0 <= i < kids.len() ==> #[trigger] kid_ok(br, seps, kids, i, tight)
            &&& forall|i: int| 0 <= i < kids.len() ==> wf(#[trigger] kids[i], tight || i < kids.len() - 1)
        }
    }
}

// What ties child i to the separators around it.  Below the right spine a branch's separator in its
// parent is exactly its own last separator; on the right spine, and over leaves, it may be higher.
pub open spec fn kid_ok<K, V>(br: bool, seps: Seq<K>, kids: Seq<ST<K, V>>, i: int, tight: bool) -> bool {
    &&& ents(kids[i]).len() > 0
    &&& all_le(ents(kids[i]), rank(seps[i]))
    &&& i > 0 ==> all_gt(ents(kids[i]), rank(seps[i - 1]))
    &&& kids[i] is N <==> br
    &&& br && (tight || i < kids.len() - 1) ==> kids[i]->seps.len() > 0 && rank(seps[i]) == rank(kids[i]->seps.last())
}

pub proof fn wf_any<K, V>(t: ST<K, V>)
    requires wf(t, true)
    ensures wf(t, false)
    decreases t
{
    if t is N {
        let n = nkids(t);
        assert forall|i: int| 0 <= i < n implies #[trigger] kid_ok(t->br, t->seps, t->kids, i, false) by {
            assert(kid_ok(t->br, t->seps, t->kids, i, true));
        }
        assert forall|i: int| 0 <= i < n implies wf(#[trigger] t->kids[i], false || i < n - 1) by {
            if i == n - 1 { wf_any(t->kids[i]); }
        }
    }
}

pub proof fn kids_nonempty<K, V>(t: ST<K, V>)
    requires t is N, ents(t).len() > 0
    ensures nkids(t) > 0
{
    ents_n(t);
}

// The separators around child i bound everything before it and after it.
pub proof fn around<K, V>(t: ST<K, V>, i: int, tight: bool)
    requires wf(t, tight), t is N, 0 <= i < nkids(t)
    ensures
        ents(t) == before(t, i) + ents(kid(t, i)) + after(t, i),
        i > 0 ==> all_le(before(t, i), rank(t->seps[i - 1])),
        i == 0 ==> before(t, i).len() == 0,
        all_gt(after(t, i), rank(t->seps[i])),
        i == nkids(t) - 1 ==> after(t, i).len() == 0,
        kid_ok(t->br, t->seps, t->kids, i, tight),
        wf(kid(t, i), tight || i < nkids(t) - 1),
        i > 0 ==> rank(t->seps[i - 1]) < rank(t->seps[i]),
{
    ents_at(t, i);
    let kids = t->kids;
    let seps = t->seps;
    assert(kid_ok(t->br, seps, kids, i, tight));
    if i > 0 {
        let ss = kes(kids.take(i));
        assert forall|j: int| 0 <= j < before(t, i).len() implies rank((#[trigger] before(t, i)[j]).0) <= rank(seps[i - 1]) by {
            let r = cat_in(ss, j);
            assert(kid_ok(t->br, seps, kids, r.0, tight));
            assert(ents(kids[r.0])[r.1] == before(t, i)[j]);
            if r.0 < i - 1 { assert(rank(seps[r.0]) < rank(seps[i - 1])); }
        }
    } else {
        assert(kes(kids.take(i)).len() == 0);
    }
    let ss = kes(kids.skip(i + 1));
    assert forall|j: int| 0 <= j < after(t, i).len() implies rank((#[trigger] after(t, i)[j]).0) > rank(seps[i]) by {
        let r = cat_in(ss, j);
        let m = r.0 + i + 1;
        assert(kid_ok(t->br, seps, kids, m, tight));
        assert(ents(kids[m])[r.1] == after(t, i)[j]);
        if m > i + 1 { assert(rank(seps[i]) < rank(seps[m - 1])); }
    }
}

pub proof fn cat_sorted<K, V>(ss: Seq<Seq<(K, V)>>, hi: Seq<K>)
    requires
        ss.len() == hi.len(), sortedk(hi),
        forall|i: int| 0 <= i < ss.len() ==> sorted(#[trigger] ss[i]) && all_le(ss[i], rank(hi[i])) && (i > 0 ==> all_gt(ss[i], rank(hi[i - 1]))),
    ensures
        sorted(cat(ss)),
        ss.len() > 0 ==> all_le(cat(ss), rank(hi.last())),
    decreases ss.len()
{
    if ss.len() == 0 {
    } else {
        let d = ss.drop_last();
        let h = hi.drop_last();
        assert(sortedk(h)) by {
            assert forall|i: int, j: int| 0 <= i < j < h.len() implies #[trigger] rank(h[i]) < #[trigger] rank(h[j]) by {
                assert(rank(hi[i]) < rank(hi[j]));
            }
        }
        assert forall|i: int| 0 <= i < d.len() implies sorted(#[trigger] d[i]) && all_le(d[i], rank(h[i])) && (i > 0 ==> all_gt(d[i], rank(h[i - 1]))) by {
            assert(d[i] == ss[i]);
        }
        cat_sorted(d, h);
        let a = cat(d);
        let b = ss.last();
        assert(b == ss[ss.len() - 1]);
        sorted_elim(a);
        sorted_elim(b);
        let e = a + b;
        if d.len() > 0 { assert(rank(hi[hi.len() - 2]) < rank(hi[hi.len() - 1])); }
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies rank((#[trigger] e[i]).0) < rank((#[trigger] e[j]).0) by {
            if j < a.len() { assert(e[i] == a[i] && e[j] == a[j]); }
            else if i >= a.len() { assert(e[i] == b[i - a.len()] && e[j] == b[j - a.len()]); }
            else {
                assert(d.len() > 0);
                assert(e[i] == a[i] && e[j] == b[j - a.len()]);
                assert(rank(a[i].0) <= rank(h.last()));
            }
        }
        sorted_intro(e);
        assert forall|j: int| 0 <= j < e.len() implies rank((#[trigger] e[j]).0) <= rank(hi.last()) by {
            if j < a.len() { assert(e[j] == a[j]); assert(d.len() > 0); } else { assert(e[j] == b[j - a.len()]); }
        }
    }
}

pub proof fn wf_sorted<K, V>(t: ST<K, V>, tight: bool)
    requires wf(t, tight)
    ensures
        sorted(ents(t)),
        t is N && nkids(t) > 0 ==> all_le(ents(t), rank(t->seps.last())),
    decreases t
{
    if t is N {
        let ss = kes(t->kids);
        ents_n(t);
        assert forall|i: int| 0 <= i < ss.len() implies sorted(#[trigger] ss[i]) && all_le(ss[i], rank(t->seps[i])) && (i > 0 ==> all_gt(ss[i], rank(t->seps[i - 1]))) by {
            assert(kid_ok(t->br, t->seps, t->kids, i, tight));
            wf_sorted(t->kids[i], tight || i < t->kids.len() - 1);
        }
        cat_sorted(ss, t->seps);
    }
}

// Searching a node is searching the child the separators point to.
pub open spec fn fi<K, V>(t: ST<K, V>, x: real) -> int { lbk(t->seps, x) }

pub proof fn descend<K, V>(t: ST<K, V>, x: real, tight: bool)
    requires wf(t, tight), t is N
    ensures
        0 <= fi(t, x) <= nkids(t),
        fi(t, x) < nkids(t) ==> {
            let i = fi(t, x);
            let m = ents(kid(t, i));
            let a = before(t, i);
            let z = after(t, i);
            &&& wf(kid(t, i), tight || i < nkids(t) - 1)
            &&& wf(kid(t, i), false)
            &&& kid_ok(t->br, t->seps, t->kids, i, tight)
            &&& ents(t) == a + m + z
            &&& sorted(m) && all_lt(a, x) && all_gt(z, x)
            &&& lb(ents(t), x) == a.len() + lb(m, x)
            &&& 0 <= lb(m, x) <= m.len()
            &&& holds(ents(t), x) == holds(m, x)
            &&& get_of(ents(t), x) == get_of(m, x)
            &&& decreases_to!(t => kid(t, i))
        },
        fi(t, x) == nkids(t) ==> {
            &&& all_lt(ents(t), x)
            &&& lb(ents(t), x) == ents(t).len()
            &&& get_of(ents(t), x) is None
            &&& !holds(ents(t), x)
        },
{
    let i = fi(t, x);
    lbk_props(t->seps, x);
    wf_sorted(t, tight);
    if i < nkids(t) {
        around(t, i, tight);
        wf_sorted(kid(t, i), tight || i < nkids(t) - 1);
        if tight || i < nkids(t) - 1 { wf_any(kid(t, i)); }
        if i > 0 { assert(rank(t->seps[i - 1]) < x); }
        assert(rank(t->seps[i]) >= x);
        window(before(t, i), ents(kid(t, i)), after(t, i), x);
        lb_props(ents(kid(t, i)), x);
        assert(decreases_to!(t => t->kids));
        assert(decreases_to!(t->kids => t->kids[i]));
    } else {
        ents_n(t);
        if nkids(t) > 0 { assert(rank(t->seps[i - 1]) < x); }
        lb_is(ents(t), x, ents(t).len() as int);
    }
}

// Rebuilding a node with one child, or one child and its separator, exchanged.
pub open spec fn with_kid<K, V>(t: ST<K, V>, i: int, c: ST<K, V>) -> ST<K, V> {
    ST::N { br: t->br, seps: t->seps, kids: t->kids.update(i, c) }
}
pub open spec fn with_sep<K, V>(t: ST<K, V>, i: int, k: K) -> ST<K, V> {
    ST::N { br: t->br, seps: t->seps.update(i, k), kids: t->kids }
}
pub open spec fn drop_kid<K, V>(t: ST<K, V>, i: int) -> ST<K, V> {
    ST::N { br: t->br, seps: t->seps.remove(i), kids: t->kids.remove(i) }
}
pub open spec fn push_kid<K, V>(t: ST<K, V>, k: K, c: ST<K, V>) -> ST<K, V> {
    ST::N { br: t->br, seps: t->seps.push(k), kids: t->kids.push(c) }
}
pub open spec fn two_kids<K, V>(t: ST<K, V>, i: int, k1: K, c1: ST<K, V>, k2: K, c2: ST<K, V>) -> ST<K, V> {
    ST::N { br: t->br, seps: t->seps.insert(i, k2).insert(i, k1), kids: t->kids.insert(i, c2).insert(i, c1) }
}
pub open spec fn no_kids<K, V>(br: bool) -> ST<K, V> { ST::N { br, seps: seq![], kids: seq![] } }
pub open spec fn one_kid<K, V>(br: bool, k: K, c: ST<K, V>) -> ST<K, V> { ST::N { br, seps: seq![k], kids: seq![c] } }
pub open spec fn first_kids<K, V>(t: ST<K, V>, n: int) -> ST<K, V> {
    ST::N { br: t->br, seps: t->seps.take(n), kids: t->kids.take(n) }
}
pub open spec fn last_kids<K, V>(t: ST<K, V>, n: int) -> ST<K, V> {
    ST::N { br: t->br, seps: t->seps.skip(n), kids: t->kids.skip(n) }
}
// Equality of nodes, child by child.
pub open spec fn eqn<K, V>(a: ST<K, V>, b: ST<K, V>) -> bool {
    a is N && b is N && a->br == b->br && a->seps =~= b->seps && a->kids =~= b->kids
}
