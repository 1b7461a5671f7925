//! Key and value types whose every creation, clone and drop is accounted for.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Ledger {
    live: Vec<bool>,
    pub errors: Vec<String>,
}

thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub fn reset() {
    LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
}
pub fn live_count() -> usize {
    LEDGER.with(|l| l.borrow().live.iter().filter(|x| **x).count())
}
pub fn take_errors() -> Vec<String> {
    LEDGER.with(|l| std::mem::take(&mut l.borrow_mut().errors))
}
fn error(msg: String) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        if l.errors.len() < 8 {
            l.errors.push(msg)
        }
    });
}
const MAGIC: u64 = 0x5a1e_7ab1_e0dd_ba11;
fn fresh() -> u64 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.live.push(true);
        l.live.len() as u64 - 1
    })
}
fn check(what: &str, magic: u64, id: u64) {
    let ok = magic == MAGIC ^ id
        && LEDGER.with(|l| l.borrow().live.get(id as usize).copied() == Some(true));
    if !ok {
        error(format!("{} of something that is not a live key or value", what));
    }
}
fn release(magic: u64, id: u64) {
    check("drop", magic, id);
    LEDGER.with(|l| {
        if let Some(x) = l.borrow_mut().live.get_mut(id as usize) {
            *x = false
        }
    });
}

macro_rules! tracked {
    ($name:ident) => {
        pub struct $name {
            magic: u64,
            id: u64,
            pub n: i32,
        }
        impl $name {
            pub fn new(n: i32) -> Self {
                let id = fresh();
                Self { magic: MAGIC ^ id, id, n }
            }
            pub fn get(&self) -> i32 {
                check("read", self.magic, self.id);
                self.n
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                check("clone", self.magic, self.id);
                Self::new(self.n)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                release(self.magic, self.id);
                self.magic = 0;
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.cmp(o) == Ordering::Equal
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering {
                check("comparison", self.magic, self.id);
                check("comparison", o.magic, o.id);
                self.n.cmp(&o.n)
            }
        }
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.get().hash(h)
            }
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.get())
            }
        }
    };
}
tracked!(TK);
tracked!(TV);
