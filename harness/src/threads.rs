//! Clones of one SyncShared tree, used by several threads at once.
use palmtree::{PalmTree, TreeConfig};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};

static LIVE: AtomicIsize = AtomicIsize::new(0);
const MAGIC: u32 = 0x5a1e_7ab1;

#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Cell {
    n: i32,
    magic: u32,
}
impl Cell {
    fn new(n: i32) -> Self {
        LIVE.fetch_add(1, SeqCst);
        Cell { n, magic: MAGIC }
    }
}
impl Clone for Cell {
    fn clone(&self) -> Self {
        Cell::new(if self.magic == MAGIC { self.n } else { i32::MIN })
    }
}
impl Drop for Cell {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
        self.magic = 0;
    }
}

fn same<C: TreeConfig<Cell, Cell>>(t: &PalmTree<Cell, Cell, C>, m: &BTreeMap<i32, i32>) -> bool {
    t.len() == m.len()
        && t.iter().take(m.len() + 3).map(|(k, v)| (k.n, v.n)).eq(m.iter().map(|(k, v)| (*k, *v)))
}

/// `count` entries, `threads` threads.  Each thread works on clones of the tree all of them see, and on one of its own.
pub fn stress<C>(seed: u64, count: i32, threads: u64) -> Result<(), (u32, String)>
where
    C: TreeConfig<Cell, Cell>,
    PalmTree<Cell, Cell, C>: Send + Sync,
{
    let before = LIVE.load(SeqCst);
    let mut tree: PalmTree<Cell, Cell, C> = PalmTree::new();
    let mut model = BTreeMap::new();
    for i in 0..count {
        tree.insert(Cell::new(i * 2), Cell::new(i));
        model.insert(i * 2, i);
    }
    let work = |who: u64, mut own: PalmTree<Cell, Cell, C>, all: &PalmTree<Cell, Cell, C>, mut m: BTreeMap<i32, i32>| {
        let mut r = crate::hist::Rng(seed ^ who << 40);
        for round in 0..60 {
            let k = r.below(count as u64 * 2 + 2) as i32;
            match r.below(5) {
                0 => drop(all.clone()),
                1 => {
                    let mut c = all.clone();
                    c.insert(Cell::new(k), Cell::new(-1));
                    drop(c.remove(&Cell::new(k / 2 * 2)));
                }
                2 => {
                    own = all.clone();
                    m = model.clone();
                }
                3 => {
                    own.insert(Cell::new(k), Cell::new(round));
                    m.insert(k, round);
                }
                _ => {
                    let a = own.remove(&Cell::new(k)).map(|x| x.1.n);
                    if a != m.remove(&k) {
                        return Err(format!("thread {} removed {:?} under {}", who, a, k));
                    }
                }
            }
            if !same(&own, &m) {
                return Err(format!("the clone that thread {} works on is not what it made of it, round {}", who, round));
            }
        }
        Ok(())
    };
    let bad = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|i| {
                let (own, m, all, work) = (tree.clone(), model.clone(), &tree, &work);
                s.spawn(move || work(i, own, all, m))
            })
            .collect();
        hs.into_iter().map(|h| h.join()).fold(None, |bad, r| match r {
            Ok(Ok(())) => bad,
            Ok(Err(e)) => Some((11, e)),
            Err(_) => Some((16, "a thread panicked".to_string())),
        })
    });
    if let Some(b) = bad {
        std::mem::forget(tree);
        return Err(b);
    }
    if !same(&tree, &model) {
        std::mem::forget(tree);
        return Err((11, "threads that worked on clones changed the original".into()));
    }
    drop(tree);
    let left = LIVE.load(SeqCst) - before;
    if left != 0 {
        return Err((13, format!("{} keys and values too many are alive after threads shared a tree", left)));
    }
    Ok(())
}
