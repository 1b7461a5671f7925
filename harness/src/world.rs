//! Runs a history against real palmtrees next to a `BTreeMap` model of each.
use crate::hist::History;
use crate::track::{self, TK, TV};
use palmtree::{Entry, PalmTree, Shared, SyncShared, Tree64, TreeConfig, Unique};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use typenum::{U12, U260, U300, U4, U5, U6, U64, U7, U9};

#[derive(Default)]
pub struct Stats {
    pub ops: u64,
    pub checks: u64,
    pub states: HashSet<u64>,
    pub abandoned: u64,
    pub max_keys: usize,
}

pub struct Fail {
    pub classes: Vec<u32>,
    pub msg: String,
}
type R<T = ()> = Result<T, Fail>;

fn fail<T>(classes: &[u32], msg: String) -> R<T> {
    Err(Fail { classes: classes.to_vec(), msg })
}
macro_rules! ensure {
    ($cond:expr, $classes:expr, $($fmt:tt)*) => {
        if !($cond) { return fail($classes, format!($($fmt)*)); }
    };
}

/// Use up what is left of an iterator by one of the methods std derives from `next`, which the crate
/// is free to override, and compare with what is expected.
macro_rules! rest {
    ($it:expr, $exp:expr, $how:expr, $cls:expr, $f:expr) => {{
        let mut it = $it;
        let exp: Vec<(i32, i32)> = $exp.iter().copied().collect();
        let how: u64 = $how;
        let n = exp.len();
        let limit = n + 5;
        let k = (how / 16) as usize % (n + 2);
        let (lo, hi) = it.size_hint();
        ensure!(lo <= n && hi.map_or(true, |h| h >= n), $cls, "size_hint says {:?}, {} are left", (lo, hi), n);
        let (got, want): (Vec<(i32, i32)>, Vec<(i32, i32)>) = match how % 14 {
            0 => {
                let mut g: Vec<_> = it.nth(k).map($f).into_iter().collect();
                g.extend(it.take(limit).map($f));
                (g, exp.into_iter().skip(k).collect())
            }
            1 => {
                let mut g: Vec<_> = it.nth_back(k).map($f).into_iter().collect();
                g.extend(it.rev().take(limit).map($f));
                (g, exp.into_iter().rev().skip(k).collect())
            }
            2 => (it.last().map($f).into_iter().collect(), exp.into_iter().last().into_iter().collect()),
            3 => (vec![(it.count() as i32, 0)], vec![(n as i32, 0)]),
            4 => (
                it.fold(vec![], |mut a, x| {
                    a.push($f(x));
                    a
                }),
                exp,
            ),
            5 => {
                let mut g = vec![];
                it.for_each(|x| g.push($f(x)));
                (g, exp)
            }
            6 => (
                it.rfold(vec![], |mut a, x| {
                    a.push($f(x));
                    a
                }),
                exp.into_iter().rev().collect(),
            ),
            7 => {
                let mut g: Vec<_> = it.by_ref().take(k).map($f).collect();
                g.extend(it.take(limit).map($f));
                (g, exp)
            }
            8 => (it.skip(k).step_by(2).take(limit).map($f).collect(), exp.into_iter().skip(k).step_by(2).collect()),
            9 => {
                let mut left = k;
                let g = it.position(|_| {
                    left = left.wrapping_sub(1);
                    left == usize::MAX
                });
                let mut g = vec![(g.map_or(-1, |x| x as i32), 0)];
                g.extend(it.take(limit).map($f));
                let mut w = vec![(if k < n { k as i32 } else { -1 }, 0)];
                w.extend(exp.into_iter().skip(k + 1));
                (g, w)
            }
            10 => (it.max().map($f).into_iter().collect(), exp.into_iter().max().into_iter().collect()),
            11 => (it.min().map($f).into_iter().collect(), exp.into_iter().min().into_iter().collect()),
            12 => {
                let (mut g, mut w, mut e) = (vec![], vec![], exp.into_iter());
                for step in 0..limit {
                    let j = step % (k % 4 + 1);
                    let (x, y) = if step % 2 == 0 { (it.nth(j), e.nth(j)) } else { (it.nth_back(j), e.nth_back(j)) };
                    g.push(x.map($f).unwrap_or((-1, -1)));
                    w.push(y.unwrap_or((-1, -1)));
                }
                (g, w)
            }
            _ => (it.collect::<Vec<_>>().into_iter().map($f).collect(), exp),
        };
        ensure!(got == want, $cls, "using up the rest by way {} of step {} gave {:?}, expected {:?}", how % 14, k, got, want);
    }};
}

pub trait Elem: Clone + Ord + Hash + Debug + 'static {
    fn mk(n: i32) -> Self;
    fn n(&self) -> i32;
}
impl Elem for i32 {
    fn mk(n: i32) -> Self {
        n
    }
    fn n(&self) -> i32 {
        *self
    }
}
impl Elem for TK {
    fn mk(n: i32) -> Self {
        TK::new(n)
    }
    fn n(&self) -> i32 {
        self.get()
    }
}
impl Elem for TV {
    fn mk(n: i32) -> Self {
        TV::new(n)
    }
    fn n(&self) -> i32 {
        self.get()
    }
}

/// Operations that exist for `Copy` keys and values only.
pub trait CopyOps<C>: Sized
where
    C: TreeConfig<Self::K, Self::V>,
{
    type K: Elem;
    type V: Elem;
    fn add_ref(a: PalmTree<Self::K, Self::V, C>, b: &PalmTree<Self::K, Self::V, C>, alt: bool)
        -> PalmTree<Self::K, Self::V, C>;
    fn add_assign_ref(
        a: &mut PalmTree<Self::K, Self::V, C>,
        b: &PalmTree<Self::K, Self::V, C>,
        alt: bool,
    );
    fn extend_ref(a: &mut PalmTree<Self::K, Self::V, C>, items: &[(i32, i32)]);
}
pub struct CopyKind;
pub struct TrackKind;
impl<C> CopyOps<C> for CopyKind
where
    C: TreeConfig<i32, i32>,
{
    type K = i32;
    type V = i32;
    fn add_ref(a: PalmTree<i32, i32, C>, b: &PalmTree<i32, i32, C>, alt: bool) -> PalmTree<i32, i32, C> {
        if alt {
            let c: PalmTree<i32, i32, Tree64<Shared>> = b.iter().map(|(k, v)| (*k, *v)).collect();
            a + &c
        } else {
            a + b
        }
    }
    fn add_assign_ref(a: &mut PalmTree<i32, i32, C>, b: &PalmTree<i32, i32, C>, alt: bool) {
        if alt {
            let c: PalmTree<i32, i32, Tree64<Shared>> = b.iter().map(|(k, v)| (*k, *v)).collect();
            *a += &c
        } else {
            *a += b
        }
    }
    fn extend_ref(a: &mut PalmTree<i32, i32, C>, items: &[(i32, i32)]) {
        a.extend(items.iter().map(|(k, v)| (k, v)))
    }
}
impl<C> CopyOps<C> for TrackKind
where
    C: TreeConfig<TK, TV>,
{
    type K = TK;
    type V = TV;
    fn add_ref(a: PalmTree<TK, TV, C>, b: &PalmTree<TK, TV, C>, _: bool) -> PalmTree<TK, TV, C> {
        a + b.clone()
    }
    fn add_assign_ref(a: &mut PalmTree<TK, TV, C>, b: &PalmTree<TK, TV, C>, _: bool) {
        *a += b.clone()
    }
    fn extend_ref(a: &mut PalmTree<TK, TV, C>, items: &[(i32, i32)]) {
        a.extend(items.iter().map(|(k, v)| (TK::mk(*k), TV::mk(*v))))
    }
}

/// One of the two owns memory, the other does not.
pub struct OwnedKeys;
pub struct OwnedValues;
macro_rules! mixed {
    ($kind:ident, $k:ty, $v:ty) => {
        impl<C> CopyOps<C> for $kind
        where
            C: TreeConfig<$k, $v>,
        {
            type K = $k;
            type V = $v;
            fn add_ref(a: PalmTree<$k, $v, C>, b: &PalmTree<$k, $v, C>, _: bool) -> PalmTree<$k, $v, C> {
                a + b.clone()
            }
            fn add_assign_ref(a: &mut PalmTree<$k, $v, C>, b: &PalmTree<$k, $v, C>, _: bool) {
                *a += b.clone()
            }
            fn extend_ref(a: &mut PalmTree<$k, $v, C>, items: &[(i32, i32)]) {
                a.extend(items.iter().map(|(k, v)| (<$k>::mk(*k), <$v>::mk(*v))))
            }
        }
    };
}
mixed!(OwnedKeys, TK, i32);
mixed!(OwnedValues, i32, TV);

macro_rules! config {
    ($name:ident, $b:ty, $l:ty, $p:ty) => {
        pub struct $name;
        impl<K, V> TreeConfig<K, V> for $name {
            type BranchSize = $b;
            type LeafSize = $l;
            type PointerKind = $p;
        }
    };
}
config!(U4x4, U4, U4, Unique);
config!(S4x4, U4, U4, Shared);
config!(A4x4, U4, U4, SyncShared);
config!(U5x5, U5, U5, Unique);
config!(S5x5, U5, U5, Shared);
config!(U4x7, U4, U7, Unique);
config!(U7x4, U7, U4, Unique);
config!(S5x4, U5, U4, Shared);
config!(A5x6, U5, U6, SyncShared);
config!(S9x12, U9, U12, Shared);
config!(U64x64, U64, U64, Unique);
config!(U260x300, U260, U300, Unique);
config!(S64x64, U64, U64, Shared);
config!(A64x64, U64, U64, SyncShared);

#[derive(Clone, Copy, Default)]
struct Mode {
    load_by_insert: bool,
    clone_by_rebuild: bool,
    trace: bool,
}

type M = BTreeMap<i32, i32>;

struct World<X, C>
where
    X: CopyOps<C>,
    C: TreeConfig<X::K, X::V>,
{
    trees: Vec<PalmTree<X::K, X::V, C>>,
    models: Vec<M>,
    log: DefaultHasher,
    mode: Mode,
    checks: u64,
}

fn parse<T: std::str::FromStr>(s: &str) -> T {
    s.parse().unwrap_or_else(|_| {
        eprintln!("bad token {:?}", s);
        std::process::exit(3)
    })
}
fn bound(s: &str) -> Bound<i32> {
    match &s[..1] {
        "u" => Bound::Unbounded,
        "i" => Bound::Included(parse(&s[1..])),
        _ => Bound::Excluded(parse(&s[1..])),
    }
}
fn map_bound<K: Elem>(b: Bound<i32>) -> Bound<K> {
    match b {
        Bound::Unbounded => Bound::Unbounded,
        Bound::Included(n) => Bound::Included(K::mk(n)),
        Bound::Excluded(n) => Bound::Excluded(K::mk(n)),
    }
}
fn legal(a: Bound<i32>, b: Bound<i32>) -> bool {
    match (a, b) {
        (Bound::Excluded(x), Bound::Excluded(y)) if x == y => false,
        (Bound::Included(x), Bound::Included(y))
        | (Bound::Included(x), Bound::Excluded(y))
        | (Bound::Excluded(x), Bound::Included(y))
        | (Bound::Excluded(x), Bound::Excluded(y)) => x <= y,
        _ => true,
    }
}
fn within(a: Bound<i32>, b: Bound<i32>, k: i32) -> bool {
    (match a {
        Bound::Unbounded => true,
        Bound::Included(x) => x <= k,
        Bound::Excluded(x) => x < k,
    }) && (match b {
        Bound::Unbounded => true,
        Bound::Included(x) => k <= x,
        Bound::Excluded(x) => k < x,
    })
}
fn rand_items(seed: u64, count: u64, range: u64) -> Vec<(i32, i32)> {
    let mut r = crate::hist::Rng(seed);
    let range = range.max(1);
    (0..count).map(|_| (r.below(range) as i32, r.below(1000) as i32)).collect()
}
fn run_items(start: i64, step: i64, count: u64) -> Vec<(i32, i32)> {
    (0..count as i64).map(|i| ((start + step * i) as i32, ((start + i) % 997) as i32)).collect()
}

/// Classes (property numbers) an operation answers for.
pub fn classes(op: &str) -> &'static [u32] {
    let w: Vec<&str> = op.split(' ').collect();
    match w[0] {
        "load" | "frombt" | "loadbad" => &[9],
        "ins" | "insr" | "insrun" | "recrun" | "insrand" | "recrand" | "collect" | "extend" => &[2],
        "rm" | "rmlo" | "rmhi" | "rmrun" => &[3],
        "get" | "idx" | "look" => &[1],
        "getmut" | "idxmut" => &[7, 1],
        "iter" | "iterclone" | "debug" => &[5],
        "range" => &[6],
        "rangemut" => &[6, 7],
        "itermut" => &[7],
        "into" | "intoclone" => &[8],
        "mergel" | "merger" | "appendl" | "appendr" | "add" | "addassign" | "addref" | "addassignref"
        | "mergeliter" | "mergeriter" => &[10],
        "clone" => &[11],
        "threads" => &[11, 13],
        "cmp" | "eqbuilt" => &[14],
        "ent" => match w.get(3).copied() {
            Some("insert") => &[15, 2],
            Some("remove") | Some("removeentry") => &[15, 3],
            Some("intomut") | Some("getmut") => &[15, 7],
            _ => &[15],
        },
        _ => &[4],
    }
}

/// Draw `n` entries by `mask` (bit set: from the back) and compare with the model's entries.
fn draw<I>(it: &mut I, exp: &mut std::collections::VecDeque<(i32, i32)>, mask: u64, n: u64, cls: &[u32]) -> R<()>
where
    I: DoubleEndedIterator<Item = (i32, i32)>,
{
    let mut over = 0;
    for i in 0..n {
        let back = mask >> (i % 64) & 1 == 1;
        let (got, want) =
            if back { (it.next_back(), exp.pop_back()) } else { (it.next(), exp.pop_front()) };
        ensure!(
            got == want,
            cls,
            "draw {} from the {} gave {:?}, expected {:?}",
            i,
            if back { "back" } else { "front" },
            got,
            want
        );
        if want.is_none() {
            over += 1;
            if over > 5 {
                break;
            }
        }
    }
    Ok(())
}
fn entries(m: &M) -> std::collections::VecDeque<(i32, i32)> {
    m.iter().map(|(k, v)| (*k, *v)).collect()
}

impl<X, C> World<X, C>
where
    X: CopyOps<C>,
    C: TreeConfig<X::K, X::V>,
{
    fn new(mode: Mode) -> Self {
        World {
            trees: (0..3).map(|_| PalmTree::new()).collect(),
            models: vec![M::new(); 3],
            log: DefaultHasher::new(),
            mode,
            checks: 0,
        }
    }
    fn note<T: Hash>(&mut self, x: T) {
        x.hash(&mut self.log)
    }

    /// Compare a tree with its model. `op` are the classes of the operation just performed on it;
    /// a tree the operation did not touch answers to the clone-independence class instead.
    fn verify(&mut self, t: usize, op: &[u32]) -> R<()> {
        self.checks += 1;
        let (tree, model) = (&self.trees[t], &self.models[t]);
        let want: Vec<(i32, i32)> = model.iter().map(|(k, v)| (*k, *v)).collect();
        let limit = want.len() * 2 + 10;
        let fwd: Vec<(i32, i32)> = tree.iter().take(limit).map(|(k, v)| (k.n(), v.n())).collect();
        let mut probes: Vec<i32> = vec![i32::MIN, -1];
        let stride = 1 + want.len() / 300;
        for (i, (k, _)) in want.iter().enumerate() {
            if (i + self.checks as usize) % stride == 0 || i + 2 > want.len() {
                probes.extend(&[k - 1, *k, k + 1]);
            }
        }
        for (k, _) in fwd.iter() {
            if !model.contains_key(k) {
                probes.push(*k)
            }
        }
        probes.push(i32::MAX);
        probes.dedup();
        let mut bad_get = None;
        let mut bad_lin = None;
        for k in &probes {
            let key = X::K::mk(*k);
            let g = tree.get(&key).map(|v| v.n());
            let l = tree.get_linear(&key).map(|v| v.n());
            let w = model.get(k).copied();
            if g != w && bad_get.is_none() {
                bad_get = Some((*k, g, w));
            }
            if l != w && bad_lin.is_none() {
                bad_lin = Some((*k, l, w));
            }
        }
        let len = tree.len();
        if fwd == want && bad_get.is_none() && bad_lin.is_none() {
            let bwd: Vec<(i32, i32)> = tree.iter().rev().take(limit).map(|(k, v)| (k.n(), v.n())).collect();
            ensure!(
                bwd.iter().rev().eq(want.iter()),
                &[5],
                "tree {}: iterating from the back gives {:?}, expected the reverse of {:?}",
                t,
                bwd,
                want
            );
            ensure!(len == want.len(), &[4], "tree {} reports length {}, holds {}", t, len, want.len());
            ensure!(tree.is_empty() == want.is_empty(), &[4], "tree {}: is_empty is wrong", t);
            return Ok(());
        }
        let detail = format!(
            "tree {} (len {}): {}{}{}",
            t,
            len,
            if fwd != want { format!("iterates {:?} expected {:?}; ", fwd, want) } else { String::new() },
            bad_get.map_or(String::new(), |(k, g, w)| format!("get({}) = {:?} expected {:?}; ", k, g, w)),
            bad_lin
                .map_or(String::new(), |(k, g, w)| format!("get_linear({}) = {:?} expected {:?}; ", k, g, w)),
        );
        let mut cls: Vec<u32> = vec![];
        if bad_get.is_some() && bad_lin.is_some() || fwd != want && (bad_get.is_some() || bad_lin.is_some()) {
            cls.extend(op)
        }
        if fwd == want {
            cls.push(1);
        } else if bad_get.is_none() && bad_lin.is_none() {
            // Lookups are right and iteration is wrong: an iteration defect, or an operation that
            // left the tree in a bad shape. A consuming iteration decides.
            cls.push(5);
            let own: Vec<(i32, i32)> =
                tree.clone().into_iter().take(limit).map(|(k, v)| (k.n(), v.n())).collect();
            if own != want {
                cls.extend(op)
            }
        } else if bad_get.is_some() != bad_lin.is_some() {
            cls.push(1)
        }
        fail(&cls, detail)
    }

    fn set(&mut self, t: usize, tree: PalmTree<X::K, X::V, C>, model: M) {
        self.trees[t] = tree;
        self.models[t] = model;
    }
    fn take(&mut self, t: usize) -> (PalmTree<X::K, X::V, C>, M) {
        (std::mem::take(&mut self.trees[t]), std::mem::take(&mut self.models[t]))
    }
    fn copy(&self, t: usize) -> PalmTree<X::K, X::V, C> {
        if self.mode.clone_by_rebuild {
            self.rebuild(t)
        } else {
            self.trees[t].clone()
        }
    }
    fn rebuild(&self, t: usize) -> PalmTree<X::K, X::V, C> {
        let mut out = PalmTree::new();
        for (k, v) in &self.models[t] {
            out.insert(X::K::mk(*k), X::V::mk(*v));
        }
        out
    }
    fn load(&self, items: &[(i32, i32)]) -> PalmTree<X::K, X::V, C> {
        if self.mode.load_by_insert {
            let mut out = PalmTree::new();
            for (k, v) in items {
                out.insert(X::K::mk(*k), X::V::mk(*v));
            }
            out
        } else {
            PalmTree::load(items.iter().map(|(k, v)| (X::K::mk(*k), X::V::mk(*v))))
        }
    }
    fn ins(&mut self, t: usize, k: i32, v: i32, rec: bool) -> R<()> {
        let (kk, vv) = (X::K::mk(k), X::V::mk(v));
        let got = if rec { self.trees[t].insert_recursive(kk, vv) } else { self.trees[t].insert(kk, vv) };
        let got = got.map(|v| v.n());
        let want = self.models[t].insert(k, v);
        ensure!(got == want, &[2], "insert({}) returned {:?}, expected {:?}", k, got, want);
        self.note(got);
        let key = X::K::mk(k);
        let seen = (self.trees[t].get(&key).map(|x| x.n()), self.trees[t].get_linear(&key).map(|x| x.n()));
        ensure!(
            seen.0 == Some(v) || seen.1 == Some(v),
            &[2],
            "after insert({}, {}) lookups give {:?}",
            k,
            v,
            seen
        );
        ensure!(seen.0 == seen.1, &[1], "after insert({}, {}) lookups give {:?}", k, v, seen);
        let len = self.models[t].len();
        ensure!(self.trees[t].len() == len, &[4], "after insert({}) len is {}, expected {}", k, self.trees[t].len(), len);
        Ok(())
    }
    fn rm(&mut self, t: usize, k: i32) -> R<()> {
        let got = self.trees[t].remove(&X::K::mk(k)).map(|(k, v)| (k.n(), v.n()));
        let want = self.models[t].remove(&k).map(|v| (k, v));
        ensure!(got == want, &[3], "remove({}) returned {:?}, expected {:?}", k, got, want);
        self.note(got);
        let len = self.models[t].len();
        ensure!(self.trees[t].len() == len, &[4], "after remove({}) len is {}, expected {}", k, self.trees[t].len(), len);
        Ok(())
    }

    fn step(&mut self, op: &str) -> R<()> {
        let w: Vec<&str> = op.split(' ').collect();
        let cls = classes(op);
        let t: usize = w.get(1).map_or(0, |s| parse::<usize>(s) % 3);
        let i = |n: usize| -> i32 { parse::<i64>(w[n]) as i32 };
        let u = |n: usize| -> u64 { parse(w[n]) };
        match w[0] {
            "new" => self.set(t, if t == 0 { PalmTree::new() } else { PalmTree::default() }, M::new()),
            "dropt" => drop(self.take(t)),
            "load" => {
                let items = run_items(parse(w[2]), parse::<i64>(w[3]).max(1), u(4));
                let tree = self.load(&items);
                self.set(t, tree, items.into_iter().collect());
            }
            "frombt" => {
                let m: M = rand_items(u(2), u(3), u(4)).into_iter().collect();
                let items: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
                let tree = if self.mode.load_by_insert {
                    self.load(&items)
                } else {
                    let b: BTreeMap<X::K, X::V> =
                        items.iter().map(|(k, v)| (X::K::mk(*k), X::V::mk(*v))).collect();
                    PalmTree::from(b)
                };
                self.set(t, tree, m);
            }
            "loadbad" => {
                let n = (u(2) as i64).max(2);
                let mut items = run_items(0, 2, n as u64);
                let at = 1 + (u(3) % (n as u64 - 1)) as usize;
                items[at].0 = if u(3) % 2 == 0 { items[at - 1].0 } else { items[at - 1].0 - 1 };
                let res = catch_unwind(AssertUnwindSafe(|| {
                    PalmTree::<X::K, X::V, C>::load(items.iter().map(|(k, v)| (X::K::mk(*k), X::V::mk(*v))))
                }));
                if cfg!(debug_assertions) {
                    ensure!(
                        res.is_err(),
                        &[9],
                        "load accepted a sequence of {} whose key {} is not above the one before it",
                        n,
                        at
                    );
                }
                if let Ok(t) = res {
                    drop(t)
                }
            }
            "collect" => {
                let items = rand_items(u(2), u(3), u(4));
                let tree: PalmTree<X::K, X::V, C> =
                    items.iter().map(|(k, v)| (X::K::mk(*k), X::V::mk(*v))).collect();
                self.set(t, tree, items.into_iter().collect());
            }
            "extend" => {
                let items = rand_items(u(2), u(3), u(4));
                if u(2) % 2 == 0 {
                    self.trees[t].extend(items.iter().map(|(k, v)| (X::K::mk(*k), X::V::mk(*v))));
                } else {
                    X::extend_ref(&mut self.trees[t], &items);
                }
                self.models[t].extend(items);
            }
            "insrun" | "recrun" => {
                for (k, v) in run_items(parse(w[2]), parse(w[3]), u(4)) {
                    self.ins(t, k, v, w[0] == "recrun")?;
                }
            }
            "insrand" | "recrand" => {
                for (k, v) in rand_items(u(2), u(3), u(4)) {
                    self.ins(t, k, v, w[0] == "recrand")?;
                }
            }
            "ins" | "insr" => self.ins(t, i(2), i(3), w[0] == "insr")?,
            "rm" => self.rm(t, i(2))?,
            "rmrun" => {
                for (k, _) in run_items(parse(w[2]), parse(w[3]), u(4)) {
                    self.rm(t, k)?;
                }
            }
            "rmlo" | "rmhi" => {
                let lo = w[0] == "rmlo";
                for _ in 0..u(2) {
                    let got = if lo { self.trees[t].remove_lowest() } else { self.trees[t].remove_highest() };
                    let got = got.map(|(k, v)| (k.n(), v.n()));
                    let k = if lo { self.models[t].keys().next() } else { self.models[t].keys().next_back() };
                    let want = k.copied().map(|k| (k, self.models[t].remove(&k).unwrap()));
                    ensure!(got == want, &[3], "{} returned {:?}, expected {:?}", w[0], got, want);
                    self.note(got);
                    let len = self.models[t].len();
                    ensure!(self.trees[t].len() == len, &[4], "after {} len is {}, expected {}", w[0], self.trees[t].len(), len);
                    if want.is_none() {
                        break;
                    }
                }
            }
            "get" | "look" => {
                let key = X::K::mk(i(2));
                let want = self.models[t].get(&i(2)).copied();
                let a = self.trees[t].get(&key).map(|v| v.n());
                let b = self.trees[t].get_linear(&key).map(|v| v.n());
                let c = self.trees[t].get_mut(&key).map(|v| v.n());
                ensure!(
                    a == want && b == want && c == want,
                    &[1],
                    "lookup of {}: get {:?}, get_linear {:?}, get_mut {:?}, expected {:?}",
                    i(2),
                    a,
                    b,
                    c,
                    want
                );
                self.note(a);
            }
            "idx" => {
                let key = X::K::mk(i(2));
                let want = self.models[t].get(&i(2)).copied();
                let tree = &self.trees[t];
                let got = catch_unwind(AssertUnwindSafe(|| tree[&key].n())).ok();
                ensure!(got == want, &[1], "indexing by {} gave {:?}, expected {:?}", i(2), got, want);
            }
            "getmut" | "idxmut" => {
                let key = X::K::mk(i(2));
                let tree = &mut self.trees[t];
                let new = X::V::mk(i(3));
                let had = self.models[t].get(&i(2)).copied();
                if w[0] == "getmut" {
                    match (tree.get_mut(&key), had) {
                        (Some(x), Some(h)) => {
                            ensure!(x.n() == h, &[1, 7], "get_mut({}) sees {}, expected {}", i(2), x.n(), h);
                            *x = new
                        }
                        (None, None) => {}
                        (a, b) => {
                            return fail(&[1, 7], format!("get_mut({}) gave {:?}, expected {:?}", i(2), a, b))
                        }
                    }
                } else {
                    let done = catch_unwind(AssertUnwindSafe(|| {
                        tree[&key] = new;
                    }))
                    .is_ok();
                    ensure!(done == had.is_some(), &[1, 7], "index_mut({}) gave {}, expected {:?}", i(2), done, had);
                }
                if had.is_some() {
                    self.models[t].insert(i(2), i(3));
                }
            }
            "iter" => {
                let mut exp = entries(&self.models[t]);
                let mut it = self.trees[t].iter();
                draw(&mut it.by_ref().map(|(k, v)| (k.n(), v.n())), &mut exp, u(2), u(3), cls)?;
                rest!(it, exp, u(2) ^ u(3), cls, |(k, v): (&X::K, &X::V)| (k.n(), v.n()));
                if u(3) % 2 == 1 {
                    let n = (&self.trees[t]).into_iter().count();
                    ensure!(n == self.models[t].len(), &[5], "(&tree).into_iter() yields {} entries", n);
                }
            }
            "iterclone" => {
                let mut exp = entries(&self.models[t]);
                let mut it = self.trees[t].iter();
                for n in 0..u(3).min(exp.len() as u64) {
                    if u(2) >> (n % 64) & 1 == 1 {
                        it.next_back();
                        exp.pop_back();
                    } else {
                        it.next();
                        exp.pop_front();
                    }
                }
                let mut it2 = it.clone().map(|(k, v)| (k.n(), v.n()));
                let mut exp2 = exp.clone();
                draw(&mut it2, &mut exp2, u(4), u(3) / 2 + 1, cls)?;
                if u(3) % 4 == 3 {
                    rest!(it.clone(), exp, u(4) ^ u(3), cls, |(k, v): (&X::K, &X::V)| (k.n(), v.n()));
                }
                let mut it = it.map(|(k, v)| (k.n(), v.n()));
                draw(&mut it, &mut exp, !u(4), 1_000_000, cls)?;
                draw(&mut it2, &mut exp2, u(2), 1_000_000, cls)?;
            }
            "debug" => {
                let got = format!("{:?}", self.trees[t]);
                let want = format!("{:?}", self.models[t]);
                ensure!(got == want, cls, "prints {} expected {}", got, want);
            }
            "range" => {
                let (a, b) = (bound(w[2]), bound(w[3]));
                let r = (map_bound::<X::K>(a), map_bound::<X::K>(b));
                let tree = &self.trees[t];
                let it = catch_unwind(AssertUnwindSafe(|| tree.range(r)));
                ensure!(it.is_ok() == legal(a, b), &[6, 16], "range({:?}, {:?}) refused = {}", a, b, it.is_err());
                if let Ok(mut it) = it {
                    let mut exp: std::collections::VecDeque<_> =
                        entries(&self.models[t]).into_iter().filter(|(k, _)| within(a, b, *k)).collect();
                    draw(&mut it.by_ref().map(|(k, v)| (k.n(), v.n())), &mut exp, u(4), u(5), &[6])
                        .map_err(|f| Fail { msg: format!("range({:?}, {:?}): {}", a, b, f.msg), ..f })?;
                    rest!(it, exp, u(4) ^ u(5), &[6], |(k, v): (&X::K, &X::V)| (k.n(), v.n()));
                }
            }
            "itermut" | "rangemut" => {
                let ranged = w[0] == "rangemut";
                let (a, b) =
                    if ranged { (bound(w[2]), bound(w[3])) } else { (Bound::Unbounded, Bound::Unbounded) };
                let (mask, n) = if ranged { (u(4), u(5)) } else { (u(2), u(3)) };
                let mut exp: std::collections::VecDeque<_> =
                    entries(&self.models[t]).into_iter().filter(|(k, _)| within(a, b, *k)).collect();
                let tree = &mut self.trees[t];
                let it = guard(move || {
                    if ranged {
                        tree.range_mut((map_bound::<X::K>(a), map_bound::<X::K>(b)))
                    } else if mask % 3 == 0 {
                        tree.into_iter()
                    } else {
                        tree.iter_mut()
                    }
                }).0;
                ensure!(it.is_some() == legal(a, b), &[6, 16], "range_mut({:?}, {:?}) refused = {}", a, b, it.is_none());
                if let Some(mut it) = it {
                    let mut held: Vec<(i32, &mut X::V)> = vec![];
                    let mut over = 0;
                    for d in 0..n {
                        let back = mask >> (d % 64) & 1 == 1;
                        let got = if back { it.next_back() } else { it.next() };
                        let want = if back { exp.pop_back() } else { exp.pop_front() };
                        let g = got.as_ref().map(|(k, v)| (k.n(), v.n()));
                        ensure!(
                            g == want,
                            cls,
                            "{} draw {} from the {} gave {:?}, expected {:?}",
                            op,
                            d,
                            if back { "back" } else { "front" },
                            g,
                            want
                        );
                        if let Some((k, v)) = got {
                            held.push((k.n(), v));
                        } else {
                            over += 1;
                            if over > 4 {
                                break;
                            }
                        }
                    }
                    rest!(it, exp, mask ^ n, cls, |(k, v): (&X::K, &mut X::V)| (k.n(), v.n()));
                    let mut at: Vec<usize> = held.iter().map(|(_, v)| &**v as *const X::V as usize).collect();
                    at.sort();
                    let total = at.len();
                    at.dedup();
                    ensure!(at.len() == total, &[7], "a value was handed out twice");
                    for (j, (k, v)) in held.into_iter().enumerate() {
                        if (j as u64).wrapping_add(mask) % 3 != 0 {
                            let x = 2000 + k + j as i32;
                            *v = X::V::mk(x);
                            self.models[t].insert(k, x);
                        }
                    }
                }
            }
            "into" | "intoclone" => {
                let (tree, mut exp) = if w[0] == "into" {
                    let (tree, m) = self.take(t);
                    (tree, entries(&m))
                } else {
                    (self.copy(t), entries(&self.models[t]))
                };
                let mut it = tree.into_iter();
                let mut over = 0;
                for d in 0..u(3) {
                    ensure!(
                        it.len() == exp.len() && it.size_hint() == (exp.len(), Some(exp.len())),
                        cls,
                        "before draw {} the owning iterator announces {:?}, {} are left",
                        d,
                        it.size_hint(),
                        exp.len()
                    );
                    let back = u(2) >> (d % 64) & 1 == 1;
                    let got = if back { it.next_back() } else { it.next() };
                    let got = got.map(|(k, v)| (k.n(), v.n()));
                    let want = if back { exp.pop_back() } else { exp.pop_front() };
                    ensure!(
                        got == want,
                        cls,
                        "draw {} from the {} gave {:?}, expected {:?}",
                        d,
                        if back { "back" } else { "front" },
                        got,
                        want
                    );
                    if want.is_none() {
                        over += 1;
                        if over > 4 {
                            break;
                        }
                    }
                }
                if u(2) % 4 != 0 {
                    rest!(it, exp, u(2) ^ u(3), cls, |(k, v): (X::K, X::V)| (k.n(), v.n()));
                }
            }
            "clone" => {
                let o = (parse::<usize>(w[2])) % 3;
                if o != t && !self.mode.clone_by_rebuild && self.checks % 3 == 0 {
                    let c = std::mem::take(&mut self.trees[t]);
                    self.trees[o].clone_from(&c);
                    self.trees[t] = c;
                    self.models[o] = self.models[t].clone();
                    self.verify(o, cls)?;
                } else if o != t {
                    let c = self.copy(t);
                    let m = self.models[t].clone();
                    self.set(o, c, m);
                    self.verify(o, cls)?;
                }
            }
            "threads" => {
                let r = match t {
                    0 => crate::threads::stress::<A4x4>(u(2), parse::<i32>(w[3]), u(4)),
                    _ => crate::threads::stress::<A5x6>(u(2), parse::<i32>(w[3]), u(4)),
                };
                if let Err((c, e)) = r {
                    return fail(&[c, 11, 13], e);
                }
            }
            "mergel" | "merger" | "appendl" | "appendr" | "add" | "addassign" | "addref" | "addassignref"
            | "mergeliter" | "mergeriter" => {
                let o = (parse::<usize>(w[2])) % 3;
                if o == t {
                    return Ok(());
                }
                let keep = u(3) == 1;
                let lm = self.models[t].clone();
                let rm = self.models[o].clone();
                let left_wins = matches!(w[0], "mergel" | "appendl" | "mergeliter");
                let mut want = M::new();
                if left_wins {
                    want.extend(rm.clone());
                    want.extend(lm);
                } else {
                    want.extend(lm);
                    want.extend(rm.clone());
                }
                if w[0] == "addref" {
                    let (a, _) = self.take(t);
                    let out = X::add_ref(a, &self.trees[o], keep);
                    self.set(t, out, want);
                } else if w[0] == "addassignref" {
                    let (mut a, _) = self.take(t);
                    X::add_assign_ref(&mut a, &self.trees[o], keep);
                    self.set(t, a, want);
                } else {
                    let right = if keep { self.copy(o) } else { self.take(o).0 };
                    let left = if keep && w[0].ends_with("iter") {
                        self.copy(t)
                    } else {
                        self.take(t).0
                    };
                    match w[0] {
                        "mergel" => self.set(t, PalmTree::merge_left(left, right), want),
                        "merger" => self.set(t, PalmTree::merge_right(left, right), want),
                        "add" => self.set(t, left + right, want),
                        "addassign" => {
                            let mut left = left;
                            left += right;
                            self.set(t, left, want)
                        }
                        "appendl" => {
                            let mut left = left;
                            left.append_left(right);
                            self.set(t, left, want)
                        }
                        "appendr" => {
                            let mut left = left;
                            left.append_right(right);
                            self.set(t, left, want)
                        }
                        _ => {
                            let limit = want.len() + 5;
                            let got: Vec<(i32, i32)> = if w[0] == "mergeliter" {
                                PalmTree::merge_left_iter(left, right)
                                    .take(limit)
                                    .map(|(k, v)| (k.n(), v.n()))
                                    .collect()
                            } else {
                                PalmTree::merge_right_iter(left, right)
                                    .take(limit)
                                    .map(|(k, v)| (k.n(), v.n()))
                                    .collect()
                            };
                            let want: Vec<_> = want.into_iter().collect();
                            ensure!(got == want, cls, "{} yields {:?}, expected {:?}", w[0], got, want);
                            if !keep {
                                self.set(t, PalmTree::new(), M::new())
                            }
                        }
                    }
                }
            }
            "cmp" => {
                let o = (parse::<usize>(w[2])) % 3;
                let (a, b) = (&self.trees[t], &self.trees[o]);
                let (ma, mb) = (entries(&self.models[t]), entries(&self.models[o]));
                ensure!((a == b) == (ma == mb), cls, "{:?} == {:?} is {}", a, b, a == b);
                ensure!(a.cmp(b) == ma.cmp(&mb), cls, "{:?} cmp {:?} is {:?}", a, b, a.cmp(b));
                ensure!(a.partial_cmp(b) == ma.partial_cmp(&mb), cls, "{:?} partial_cmp {:?}", a, b);
                ensure!(
                    (a != b, a < b, a <= b, a > b, a >= b) == (ma != mb, ma < mb, ma <= mb, ma > mb, ma >= mb),
                    cls,
                    "the operators on {:?} and {:?}: {:?}",
                    a,
                    b,
                    (a != b, a < b, a <= b, a > b, a >= b)
                );
                let (hi, lo) = (std::cmp::max(a, b), std::cmp::min(a, b));
                ensure!(
                    hi.iter().map(|(k, v)| (k.n(), v.n())).eq(std::cmp::max(ma.clone(), mb.clone()))
                        && lo.iter().map(|(k, v)| (k.n(), v.n())).eq(std::cmp::min(ma, mb)),
                    cls,
                    "max or min of {:?} and {:?}",
                    a,
                    b
                );
            }
            "eqbuilt" => {
                let items: Vec<_> = entries(&self.models[t]).into();
                let mut b: PalmTree<X::K, X::V, C> = match w[2] {
                    "0" => PalmTree::load(items.iter().map(|(k, v)| (X::K::mk(*k), X::V::mk(*v)))),
                    "1" => items.iter().rev().map(|(k, v)| (X::K::mk(*k), X::V::mk(*v))).collect(),
                    _ => {
                        let mut b = PalmTree::new();
                        for (k, v) in items.iter() {
                            b.insert_recursive(X::K::mk(*k), X::V::mk(*v));
                        }
                        b
                    }
                };
                let h = |x: &PalmTree<X::K, X::V, C>| {
                    let mut h = DefaultHasher::new();
                    x.hash(&mut h);
                    h.finish()
                };
                let a = &self.trees[t];
                ensure!(*a == b && b == *a, cls, "trees with the same entries compare unequal: {:?}", a);
                ensure!(a.cmp(&b) == std::cmp::Ordering::Equal, cls, "equal trees order {:?}", a.cmp(&b));
                ensure!(h(a) == h(&b), cls, "equal trees hash differently: {:?}", a);
                if let Some((k, v)) = items.get(items.len() / 2) {
                    // One changed value, then one missing entry.
                    let key = X::K::mk(*k);
                    if let Some(x) = b.get_mut(&key) {
                        *x = X::V::mk(v + 1);
                        ensure!(*a != b && *a < b && b > *a, cls, "a changed value goes unseen in {:?}", a);
                    }
                    b.remove(&key);
                    ensure!(*a != b, cls, "a missing entry goes unseen in {:?}", a);
                }
            }
            "ent" => {
                let (k, v) = (i(2), i(4));
                let had = self.models[t].get(&k).copied();
                let tree = &mut self.trees[t];
                let model = &mut self.models[t];
                match (tree.entry(X::K::mk(k)), had) {
                    (Entry::Occupied(mut e), Some(h)) => {
                        ensure!(
                            e.key().n() == k && e.get().n() == h,
                            &[15],
                            "entry({}) shows {:?} => {:?}, expected {}",
                            k,
                            e.key(),
                            e.get(),
                            h
                        );
                        match w[3] {
                            "insert" => {
                                let old = e.insert(X::V::mk(v)).n();
                                ensure!(old == h, cls, "occupied insert({}) returned {}, expected {}", k, old, h);
                                ensure!(e.get().n() == v, &[15], "occupied entry shows {:?} after inserting {}", e.get(), v);
                                model.insert(k, v);
                            }
                            "remove" => {
                                let old = e.remove().n();
                                ensure!(old == h, cls, "entry remove({}) returned {}, expected {}", k, old, h);
                                model.remove(&k);
                            }
                            "removeentry" => {
                                let old = e.remove_entry();
                                ensure!(
                                    (old.0.n(), old.1.n()) == (k, h),
                                    cls,
                                    "remove_entry({}) returned {:?}, expected {}",
                                    k,
                                    old,
                                    h
                                );
                                model.remove(&k);
                            }
                            "intomut" => {
                                let x = e.into_mut();
                                ensure!(x.n() == h, cls, "into_mut({}) sees {}, expected {}", k, x.n(), h);
                                *x = X::V::mk(v);
                                model.insert(k, v);
                            }
                            "getmut" => {
                                let x = e.get_mut();
                                ensure!(x.n() == h, cls, "get_mut of entry {} sees {}, expected {}", k, x.n(), h);
                                *x = X::V::mk(v);
                                model.insert(k, v);
                            }
                            _ => {}
                        }
                    }
                    (Entry::Vacant(e), None) => {
                        ensure!(e.key().n() == k, &[15], "vacant entry({}) shows key {:?}", k, e.key());
                        match w[3] {
                            "insert" | "getmut" => {
                                let x = e.insert(X::V::mk(v));
                                ensure!(x.n() == v, cls, "filling the entry {} gave access to {:?}, stored {}", k, x, v);
                                model.insert(k, v);
                                if w[3] == "getmut" {
                                    *x = X::V::mk(v + 1);
                                    model.insert(k, v + 1);
                                }
                            }
                            "intokey" | "remove" => {
                                let kk = e.into_key().n();
                                ensure!(kk == k, &[15], "into_key of entry {} gave {}", k, kk);
                            }
                            _ => {}
                        }
                    }
                    (Entry::Occupied(e), None) => {
                        return fail(&[15], format!("entry({}) is occupied: {:?} but the key is absent", k, e))
                    }
                    (Entry::Vacant(_), Some(_)) => {
                        return fail(&[15], format!("entry({}) is vacant but the key is present", k))
                    }
                }
            }
            _ => {
                eprintln!("unknown operation {:?}", op);
                std::process::exit(3)
            }
        }
        Ok(())
    }

    /// Perform an operation, then compare every tree with its model.
    fn op(&mut self, op: &str) -> R<()> {
        if self.mode.trace {
            let mut c = classes(op).to_vec();
            c.push(16);
            println!("TRACE {:?} {}", c, op);
        }
        let cls = classes(op);
        let touched: Vec<usize> = {
            let w: Vec<&str> = op.split(' ').collect();
            let mut v: Vec<usize> = vec![w.get(1).map_or(0, |s| parse::<usize>(s) % 3)];
            if (cls == [10] || cls == [11]) && w.len() > 2 {
                v.push(parse::<usize>(w[2]) % 3)
            }
            v
        };
        let (done, panicked) = guard(|| self.step(op));
        if let Some(p) = panicked {
            let mut c = cls.to_vec();
            c.push(16);
            return fail(&c, format!("`{}` panicked: {}", op, p));
        }
        done.unwrap().map_err(|f| Fail { msg: format!("`{}`: {}", op, f.msg), ..f })?;
        for t in 0..3 {
            let cl: &[u32] = if touched.contains(&t) { cls } else { &[11] };
            let (done, panicked) = guard(|| self.verify(t, cl));
            if let Some(p) = panicked {
                let mut c = cl.to_vec();
                c.push(16);
                return fail(&c, format!("looking at tree {} after `{}` panicked: {}", t, op, p));
            }
            done.unwrap().map_err(|f| Fail { msg: format!("after `{}`: {}", op, f.msg), ..f })?;
        }
        Ok(())
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> (Option<T>, Option<String>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => (Some(x), None),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            (None, Some(m))
        }
    }
}

struct Outcome {
    failed: Option<Fail>,
    log: u64,
}

fn run_world<X, C>(h: &History, mode: Mode, stats: &mut Stats) -> Outcome
where
    X: CopyOps<C>,
    C: TreeConfig<X::K, X::V>,
{
    track::reset();
    let mut w: World<X, C> = World::new(mode);
    for op in &h.ops {
        stats.ops += 1;
        if let Err(f) = w.op(op) {
            let errs = track::take_errors();
            std::mem::forget(w.trees);
            let mut f = f;
            if !errs.is_empty() {
                f.classes.push(13);
                f.msg = format!("{} [{}]", f.msg, errs.join("; "));
            }
            return Outcome { failed: Some(f), log: 0 };
        }
        let errs = track::take_errors();
        if !errs.is_empty() {
            std::mem::forget(w.trees);
            return Outcome {
                failed: Some(Fail { classes: vec![13], msg: format!("`{}`: {}", op, errs.join("; ")) }),
                log: 0,
            };
        }
        for m in &w.models {
            stats.max_keys = stats.max_keys.max(m.len());
            let mut hs = DefaultHasher::new();
            h.config.hash(&mut hs);
            for k in m.keys() {
                k.hash(&mut hs)
            }
            if stats.states.len() < 2_000_000 {
                stats.states.insert(hs.finish());
            }
        }
    }
    stats.checks += w.checks;
    let log = w.log.finish();
    if w.mode.trace {
        println!("TRACE [13, 16] drop everything");
    }
    let (_, panicked) = guard(move || drop(w));
    let errs = track::take_errors();
    let failed = if let Some(p) = panicked {
        Some(Fail { classes: vec![13, 16], msg: format!("dropping the trees panicked: {}", p) })
    } else if !errs.is_empty() {
        Some(Fail { classes: vec![13], msg: format!("dropping the trees: {}", errs.join("; ")) })
    } else if track::live_count() != 0 {
        Some(Fail {
            classes: vec![13],
            msg: format!("{} keys and values were never dropped", track::live_count()),
        })
    } else {
        None
    };
    Outcome { failed, log }
}

fn dispatch(config: &str, h: &History, mode: Mode, stats: &mut Stats) -> Outcome {
    match config {
        "u4x4" => run_world::<TrackKind, U4x4>(h, mode, stats),
        "s4x4" => run_world::<TrackKind, S4x4>(h, mode, stats),
        "a4x4" => run_world::<TrackKind, A4x4>(h, mode, stats),
        "u5x5" => run_world::<TrackKind, U5x5>(h, mode, stats),
        "s5x5" => run_world::<TrackKind, S5x5>(h, mode, stats),
        "u4x7" => run_world::<TrackKind, U4x7>(h, mode, stats),
        "u7x4" => run_world::<TrackKind, U7x4>(h, mode, stats),
        "a5x6" => run_world::<TrackKind, A5x6>(h, mode, stats),
        "s9x12" => run_world::<TrackKind, S9x12>(h, mode, stats),
        "ku4x4" => run_world::<OwnedKeys, U4x4>(h, mode, stats),
        "vs5x5" => run_world::<OwnedValues, S5x5>(h, mode, stats),
        "u64x64" => run_world::<TrackKind, U64x64>(h, mode, stats),
        "u260x300" => run_world::<TrackKind, U260x300>(h, mode, stats),
        "s64x64" => run_world::<TrackKind, S64x64>(h, mode, stats),
        "a64x64" => run_world::<TrackKind, A64x64>(h, mode, stats),
        "cu4x4" => run_world::<CopyKind, U4x4>(h, mode, stats),
        "cs5x4" => run_world::<CopyKind, S5x4>(h, mode, stats),
        _ => {
            eprintln!("unknown configuration {:?}", config);
            std::process::exit(3)
        }
    }
}

/// Run a history for one property: `Err` exactly when that property failed.
pub fn run(prop: &str, h: &History, stats: &mut Stats) -> Result<(), String> {
    let p: u32 = prop[1..].parse().unwrap();
    let mode = Mode { trace: std::env::var_os("PALMCHECK_TRACE").is_some(), ..Mode::default() };
    let base = if p == 12 {
        if mode.trace {
            println!("TRACE [] baseline configuration");
        }
        let quiet = Mode { trace: false, ..mode };
        let b = dispatch("u64x64", h, quiet, stats);
        if mode.trace {
            println!("TRACE [12] configuration {}", h.config);
        }
        if b.failed.is_some() {
            stats.abandoned += 1;
            return Ok(());
        }
        Some(b.log)
    } else {
        None
    };
    let out = dispatch(&h.config, h, Mode { trace: mode.trace && p != 12, ..mode }, stats);
    if p == 12 {
        return match out.failed {
            Some(f) => Err(format!("configuration {} differs from the usual one: {}", h.config, f.msg)),
            None if Some(out.log) != base => {
                Err(format!("configuration {} returns different results", h.config))
            }
            None => Ok(()),
        };
    }
    if let Some(f) = out.failed {
        if f.classes.contains(&p) {
            return Err(f.msg);
        }
        // A failure that goes away when trees are built by insertion instead of bulk loading (or
        // rebuilt instead of cloned) is a failure of bulk loading (or cloning).
        let alt = match p {
            9 => Some(Mode { load_by_insert: true, ..mode }),
            11 => Some(Mode { clone_by_rebuild: true, ..mode }),
            _ => None,
        };
        if let Some(alt) = alt {
            if dispatch(&h.config, h, alt, stats).failed.is_none() {
                return Err(f.msg);
            }
        }
        stats.abandoned += 1;
    }
    Ok(())
}
