// Merging two sources.

pub use Next::*;
//= struct iter/merge.rs Next

//= struct iter/merge.rs MergeIter

pub open spec fn opt<A>(a: Option<A>) -> Seq<A> { match a { None => seq![], Some(x) => seq![x] } }

// Two sequences as one: of two first elements r's comes first if gt, and one of two equal ones goes.
pub open spec fn merged<A>(ls: Seq<A>, rs: Seq<A>, gt: spec_fn(A, A) -> bool, eq: spec_fn(A, A) -> bool) -> Seq<A>
    decreases ls.len() + rs.len()
{
    if ls.len() == 0 { rs }
    else if rs.len() == 0 { ls }
    else {
        let l = ls[0];
        let r = rs[0];
        if gt(l, r) { seq![r] + merged(if eq(l, r) { ls.skip(1) } else { ls }, rs.skip(1), gt, eq) }
        else { seq![l] + merged(ls.skip(1), if eq(l, r) { rs.skip(1) } else { rs }, gt, eq) }
    }
}

// A test that is there for all elements and always gives the same answer.
pub open spec fn test<A, F: Fn(&A, &A) -> bool>(f: F) -> bool {
    &&& forall|a: A, b: A| #[trigger] f.requires((&a, &b))
    &&& forall|a: A, b: A, r: bool| #[trigger] f.ensures((&a, &b), r) ==> r == says(f, a, b)
}
pub open spec fn says<A, F: Fn(&A, &A) -> bool>(f: F, a: A, b: A) -> bool { f.ensures((&a, &b), true) }

// TRUSTED: a closure that may be called gives some answer.
pub broadcast axiom fn axiom_answers<A, F: Fn(&A, &A) -> bool>(f: F, a: A, b: A)
    requires f.requires((&a, &b))
    ensures #[trigger] says(f, a, b) || f.ensures((&a, &b), false);

impl<A, L: Source<Item = A>, R: Source<Item = A>, Cmp: Fn(&A, &A) -> bool, Eq: Fn(&A, &A) -> bool> MergeIter<A, L, R, Cmp, Eq> {
    pub open spec fn gt(&self) -> spec_fn(A, A) -> bool { fun(self.compare) }
    pub open spec fn same(&self) -> spec_fn(A, A) -> bool { fun(self.equal) }
    pub open spec fn ls(&self) -> Seq<A> { opt(self.next_left) + self.left.coming() }
    pub open spec fn rs(&self) -> Seq<A> { opt(self.next_right) + self.right.coming() }

    pub open spec fn based(&self) -> bool {
        &&& self.left.live() && self.right.live() && test(self.compare) && test(self.equal)
        &&& self.next_left is None ==> self.left.coming().len() == 0
        &&& self.next_right is None ==> self.right.coming().len() == 0
    }

    pub open spec fn inv(&self) -> bool {
        &&& self.based()
        &&& match self.next {
            Next::Left => self.next_left is None ==> self.next_right is None,
            Next::Right => self.next_right is Some,
        }
    }

    pub open spec fn rest(&self) -> Seq<A> {
        match self.next {
            Next::Left => opt(self.next_left) + merged(self.left.coming(), self.rs(), self.gt(), self.same()),
            Next::Right => opt(self.next_right) + merged(self.ls(), self.right.coming(), self.gt(), self.same()),
        }
    }
}

impl<A, L: Source<Item = A>, R: Source<Item = A>, Cmp: Fn(&A, &A) -> bool, Eq: Fn(&A, &A) -> bool> Source for MergeIter<A, L, R, Cmp, Eq> {
    type Item = A;
    open spec fn live(&self) -> bool { self.inv() }
    open spec fn coming(&self) -> Seq<A> { self.rest() }
    fn next(&mut self) -> (r: Option<A>) { MergeIter::next(self) }
}

pub broadcast proof fn drew_is<A>(c0: Seq<A>, a: Option<A>, c1: Seq<A>)
    requires #[trigger] drew(c0, a, c1)
    ensures c0 == opt(a) + c1, a is Some ==> c0.skip(1) == c1
{
    match a {
        None => { assert(c0 =~= opt(a) + c1); }
        Some(e) => { assert(c0 =~= opt(a) + c1); }
    }
}

pub broadcast proof fn opt_skip<A>(a: Option<A>, s: Seq<A>)
    ensures
        a is Some ==> (#[trigger] (opt(a) + s)).len() == s.len() + 1 && (opt(a) + s)[0] == a->0 && (opt(a) + s).skip(1) == s && opt(a) == seq![a->0],
        a is None ==> opt(a) + s == s,
{
    if a is Some { assert((opt(a) + s).skip(1) =~= s); } else { assert(opt(a) + s =~= s); }
}

pub open spec fn fun<A, F: Fn(&A, &A) -> bool>(f: F) -> spec_fn(A, A) -> bool { |a: A, b: A| says(f, a, b) }

// ---- the union of two maps ----

pub open spec fn ent_of<K, V>(es: Seq<(K, V)>, x: real) -> Option<(K, V)> {
    if holds(es, x) { Some(es[lb(es, x)]) } else { None }
}

// m is the union of a and b in key order, and where both have a key b's entry is in it.
pub open spec fn union<K, V>(m: Seq<(K, V)>, a: Seq<(K, V)>, b: Seq<(K, V)>) -> bool {
    sorted(m) && forall|x: real| #[trigger] ent_of(m, x) == (if holds(b, x) { ent_of(b, x) } else { ent_of(a, x) })
}

proof fn ent_cons<K, V>(e: (K, V), t: Seq<(K, V)>)
    requires sorted(t), all_gt(t, rank(e.0))
    ensures
        sorted(seq![e] + t),
        forall|x: real| #[trigger] ent_of(seq![e] + t, x) == (if x == rank(e.0) { Some(e) } else { ent_of(t, x) }),
        forall|x: real| x <= rank(e.0) ==> #[trigger] ent_of(t, x) is None,
        forall|x: real| x < rank(e.0) ==> #[trigger] ent_of(seq![e] + t, x) is None,
{
    let s = seq![e] + t;
    sorted_elim(t);
    sorted_intro(s);
    assert forall|x: real| #[trigger] ent_of(s, x) == (if x == rank(e.0) { Some(e) } else { ent_of(t, x) }) by {
        lb_props(t, x);
        lb_props(s, x);
        if x <= rank(e.0) {
            lb_is(s, x, 0);
            if t.len() > 0 { assert(rank(t[0].0) > x); lb_is(t, x, 0); }
        } else {
            assert forall|j: int| 0 <= j < lb(t, x) + 1 implies rank((#[trigger] s[j]).0) < x by { if j > 0 { assert(s[j] == t[j - 1]); } }
            assert forall|j: int| lb(t, x) + 1 <= j < s.len() implies rank((#[trigger] s[j]).0) >= x by { assert(s[j] == t[j - 1]); }
            lb_is(s, x, lb(t, x) + 1);
        }
    }
    assert forall|x: real| x <= rank(e.0) implies #[trigger] ent_of(t, x) is None by {
        if t.len() > 0 { assert(rank(t[0].0) > x); lb_is(t, x, 0); }
        lb_props(t, x);
    }
}

proof fn ent_split<K, V>(s: Seq<(K, V)>)
    requires sorted(s), s.len() > 0
    ensures
        sorted(s.skip(1)), all_gt(s.skip(1), rank(s[0].0)),
        forall|x: real| #[trigger] ent_of(s, x) == (if x == rank(s[0].0) { Some(s[0]) } else { ent_of(s.skip(1), x) }),
        forall|x: real| x <= rank(s[0].0) ==> #[trigger] ent_of(s.skip(1), x) is None,
        forall|x: real| x < rank(s[0].0) ==> #[trigger] ent_of(s, x) is None,
{
    let t = s.skip(1);
    sorted_elim(s);
    sorted_intro(t);
    assert(s =~= seq![s[0]] + t);
    ent_cons(s[0], t);
}

pub proof fn ent_facts<K, V>(s: Seq<(K, V)>)
    ensures s.len() == 0 ==> forall|x: real| #[trigger] ent_of(s, x) is None
{
}

// How merge_left and merge_right compare.
pub open spec fn by_key<K, V>(gt: spec_fn((K, V), (K, V)) -> bool, eq: spec_fn((K, V), (K, V)) -> bool, right: bool) -> bool {
    &&& forall|a: (K, V), b: (K, V)| #[trigger] gt(a, b) == if right { rank(a.0) >= rank(b.0) } else { rank(a.0) > rank(b.0) }
    &&& forall|a: (K, V), b: (K, V)| #[trigger] eq(a, b) == (rank(a.0) == rank(b.0))
}

proof fn merged_gt<K, V>(ls: Seq<(K, V)>, rs: Seq<(K, V)>, gt: spec_fn((K, V), (K, V)) -> bool, eq: spec_fn((K, V), (K, V)) -> bool, y: real)
    requires all_gt(ls, y), all_gt(rs, y)
    ensures all_gt(merged(ls, rs, gt, eq), y), merged(ls, rs, gt, eq).len() <= ls.len() + rs.len()
    decreases ls.len() + rs.len()
{
    if ls.len() > 0 && rs.len() > 0 {
        let a = ls.skip(1);
        let b = rs.skip(1);
        assert(all_gt(a, y)) by { assert forall|j: int| 0 <= j < a.len() implies rank((#[trigger] a[j]).0) > y by { assert(rank(ls[j + 1].0) > y); } }
        assert(all_gt(b, y)) by { assert forall|j: int| 0 <= j < b.len() implies rank((#[trigger] b[j]).0) > y by { assert(rank(rs[j + 1].0) > y); } }
        assert(rank(ls[0].0) > y && rank(rs[0].0) > y);
        if gt(ls[0], rs[0]) { merged_gt(if eq(ls[0], rs[0]) { a } else { ls }, b, gt, eq, y); }
        else { merged_gt(a, if eq(ls[0], rs[0]) { b } else { rs }, gt, eq, y); }
    }
}

pub proof fn merged_union<K, V>(ls: Seq<(K, V)>, rs: Seq<(K, V)>, gt: spec_fn((K, V), (K, V)) -> bool, eq: spec_fn((K, V), (K, V)) -> bool, right: bool)
    requires sorted(ls), sorted(rs), by_key(gt, eq, right)
    ensures
        right ==> union(merged(ls, rs, gt, eq), ls, rs),
        !right ==> union(merged(ls, rs, gt, eq), rs, ls),
        merged(ls, rs, gt, eq).len() <= ls.len() + rs.len(),
    decreases ls.len() + rs.len()
{
    let m = merged(ls, rs, gt, eq);
    if ls.len() > 0 && rs.len() > 0 {
        let a = ls.skip(1);
        let b = rs.skip(1);
        let l = ls[0];
        let r = rs[0];
        ent_split(ls);
        ent_split(rs);
        sorted_elim(ls);
        sorted_elim(rs);
        assert(gt(l, r) == if right { rank(l.0) >= rank(r.0) } else { rank(l.0) > rank(r.0) });
        assert(eq(l, r) == (rank(l.0) == rank(r.0)));
        if gt(l, r) {
            let c = if eq(l, r) { a } else { ls };
            assert(all_gt(c, rank(r.0)));
            merged_union(c, b, gt, eq, right);
            merged_gt(c, b, gt, eq, rank(r.0));
            ent_cons(r, merged(c, b, gt, eq));
        } else {
            let c = if eq(l, r) { b } else { rs };
            assert(all_gt(c, rank(l.0)));
            merged_union(a, c, gt, eq, right);
            merged_gt(a, c, gt, eq, rank(l.0));
            ent_cons(l, merged(a, c, gt, eq));
        }
        assert forall|x: real| right implies #[trigger] ent_of(m, x) == (if holds(rs, x) { ent_of(rs, x) } else { ent_of(ls, x) }) by {
            assert(holds(rs, x) == ent_of(rs, x) is Some);
            assert(holds(b, x) == ent_of(b, x) is Some);
        }
        assert forall|x: real| !right implies #[trigger] ent_of(m, x) == (if holds(ls, x) { ent_of(ls, x) } else { ent_of(rs, x) }) by {
            assert(holds(ls, x) == ent_of(ls, x) is Some);
            assert(holds(a, x) == ent_of(a, x) is Some);
        }
    }
}

// What merge_left and merge_right make of two sources.
pub open spec fn merge_of<K, V>(m: Seq<(K, V)>, ls: Seq<(K, V)>, rs: Seq<(K, V)>, right: bool) -> bool {
    &&& sorted(ls) && sorted(rs) ==> if right { union(m, ls, rs) } else { union(m, rs, ls) }
    &&& sorted(ls) && sorted(rs) ==> m.len() <= ls.len() + rs.len()
}

pub broadcast proof fn merged_of<K, V>(ls: Seq<(K, V)>, rs: Seq<(K, V)>, gt: spec_fn((K, V), (K, V)) -> bool, eq: spec_fn((K, V), (K, V)) -> bool)
    ensures
        #![trigger merged(ls, rs, gt, eq)]
        by_key(gt, eq, true) ==> merge_of(merged(ls, rs, gt, eq), ls, rs, true),
        by_key(gt, eq, false) ==> merge_of(merged(ls, rs, gt, eq), ls, rs, false),
{
    if sorted(ls) && sorted(rs) {
        if by_key(gt, eq, true) { merged_union(ls, rs, gt, eq, true); }
        if by_key(gt, eq, false) { merged_union(ls, rs, gt, eq, false); }
    }
}

pub proof fn union_none<K, V>(a: Seq<(K, V)>)
    requires sorted(a)
    ensures union(a, Seq::<(K, V)>::empty(), a), union(a, a, Seq::<(K, V)>::empty())
{
    let n = Seq::<(K, V)>::empty();
    assert forall|x: real| !holds(n, x) && ent_of(n, x) is None by { }
    assert forall|x: real| holds(a, x) == ent_of(a, x) is Some by { }
}
