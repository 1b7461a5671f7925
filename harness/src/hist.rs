//! Histories: a configuration name and a list of operations, in a text form that can be
//! written out, shortened and replayed.

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

#[derive(Clone, Debug)]
pub struct History {
    pub config: String,
    pub ops: Vec<String>,
}

impl History {
    pub fn to_text(&self) -> String {
        let mut s = format!("config {}\n", self.config);
        for o in &self.ops {
            s.push_str(o);
            s.push('\n');
        }
        s
    }
    pub fn from_text(t: &str) -> Self {
        let mut config = "u4x4".to_string();
        let mut ops = vec![];
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some(c) = l.strip_prefix("config ") {
                config = c.to_string()
            } else {
                ops.push(l.to_string())
            }
        }
        History { config, ops }
    }
}

/// Configurations: pointer kind, branch capacity x leaf capacity; `c` = Copy keys and values.
pub const CONFIGS: &[&str] = &[
    "u4x4", "s4x4", "u5x5", "a4x4", "cu4x4", "s5x5", "u4x7", "u7x4", "cs5x4", "ku4x4", "vs5x5",
    "u64x64", "s64x64", "a64x64", "a5x6", "s9x12", "u260x300",
];

struct G {
    r: Rng,
    universe: u64,
    ntrees: u64,
}

impl G {
    fn t(&mut self) -> u64 {
        if self.r.chance(2, 3) {
            0
        } else {
            self.r.below(self.ntrees)
        }
    }
    fn other(&mut self, t: u64) -> u64 {
        let n = self.ntrees;
        (t + 1 + self.r.below(n - 1)) % n
    }
    fn k(&mut self) -> i64 {
        let u = self.universe;
        match self.r.below(20) {
            0 => -1,
            1 => u as i64 * 2 + 3,
            2 => 0,
            _ => self.r.below(u) as i64 + self.r.below(u) as i64 * self.r.below(2) as i64,
        }
    }
    fn v(&mut self) -> u64 {
        self.r.below(1000)
    }
    fn bound(&mut self) -> String {
        match self.r.below(5) {
            0 => "u".into(),
            1 | 2 => format!("i{}", self.k()),
            _ => format!("x{}", self.k()),
        }
    }
    /// Mostly legal ranges, now and then an illegal one.
    fn range(&mut self) -> String {
        let (a, b) = (self.bound(), self.bound());
        if a != "u" && b != "u" && !self.r.chance(1, 12) {
            let x: i64 = a[1..].parse().unwrap();
            let mut y: i64 = b[1..].parse().unwrap();
            if self.r.chance(1, 3) {
                y = x + self.r.below(12) as i64
            }
            if x <= y {
                return format!("{}{} {}{}", &a[..1], x, &b[..1], y);
            }
            return format!("{}{} {}{}", &a[..1], y, &b[..1], x);
        }
        format!("{} {}", a, b)
    }
    fn mask(&mut self) -> u64 {
        match self.r.below(4) {
            0 => 0,
            1 => u64::MAX,
            _ => self.r.next(),
        }
    }
    fn draws(&mut self) -> u64 {
        match self.r.below(4) {
            0 => self.r.below(8),
            1 => self.r.below(self.universe + 1),
            _ => 100_000,
        }
    }
    fn build(&mut self, t: u64) -> String {
        let u = self.universe;
        let count = match self.r.below(6) {
            0 => self.r.below(6),
            1 => u / 2,
            _ => self.r.below(u + 1),
        };
        let step = 1 + self.r.below(3);
        match self.r.below(9) {
            0 | 1 => format!("load {} {} {} {}", t, self.r.below(4), step, count),
            2 => format!("insrun {} {} {} {}", t, self.r.below(4), step, count),
            3 => format!("insrun {} {} -{} {}", t, u * step, step, count),
            4 => format!("insrand {} {} {} {}", t, self.r.next() % 99991, count, u * 2),
            5 => format!("recrand {} {} {} {}", t, self.r.next() % 99991, count, u * 2),
            6 => format!("collect {} {} {} {}", t, self.r.next() % 99991, count, u * 2),
            7 => format!("frombt {} {} {} {}", t, self.r.next() % 99991, count, u * 2),
            _ => format!("recrun {} {} {} {}", t, self.r.below(4), step, count),
        }
    }
    fn op(&mut self, class: u32) -> String {
        let t = self.t();
        let o = self.other(t);
        match class {
            0 => self.build(t),
            1 => match self.r.below(5) {
                0 => format!("idx {} {}", t, self.k()),
                1 => format!("look {} {}", t, self.k()),
                _ => format!("get {} {}", t, self.k()),
            },
            2 => match self.r.below(8) {
                0 | 1 => format!("insr {} {} {}", t, self.k(), self.v()),
                2 => {
                    format!("extend {} {} {} {}", t, self.r.below(9999), self.r.below(20), self.universe * 2)
                }
                3 => format!("insrun {} {} {} {}", t, self.k(), 1, self.r.below(12)),
                4 => format!("insrun {} {} {} {}", t, self.k(), -1, self.r.below(12)),
                5 => format!("recrun {} {} {} {}", t, self.k(), 1, self.r.below(12)),
                _ => format!("ins {} {} {}", t, self.k(), self.v()),
            },
            3 => match self.r.below(9) {
                0 => format!("rmlo {} 1", t),
                1 => format!("rmhi {} 1", t),
                2 => format!("rmlo {} {}", t, self.draws()),
                3 => format!("rmhi {} {}", t, self.draws()),
                4 | 5 => format!("rmrun {} {} 1 {}", t, self.k(), self.r.below(20)),
                _ => format!("rm {} {}", t, self.k()),
            },
            5 => match self.r.below(5) {
                0 => format!("iterclone {} {} {} {}", t, self.mask(), self.draws(), self.mask()),
                1 => format!("debug {}", t),
                _ => format!("iter {} {} {}", t, self.mask(), self.draws()),
            },
            6 => match self.r.below(3) {
                0 => format!("rangemut {} {} {} {}", t, self.range(), self.mask(), self.draws()),
                _ => format!("range {} {} {} {}", t, self.range(), self.mask(), self.draws()),
            },
            7 => match self.r.below(6) {
                0 => format!("getmut {} {} {}", t, self.k(), self.v()),
                1 => format!("idxmut {} {} {}", t, self.k(), self.v()),
                2 => format!("rangemut {} {} {} {}", t, self.range(), self.mask(), self.draws()),
                3 => format!("ent {} {} {} {}", t, self.k(), "intomut", self.v()),
                4 => format!("ent {} {} {} {}", t, self.k(), "getmut", self.v()),
                _ => format!("itermut {} {} {}", t, self.mask(), self.draws()),
            },
            8 => {
                if self.r.chance(1, 2) {
                    format!("intoclone {} {} {}", t, self.mask(), self.draws())
                } else {
                    format!("into {} {} {}", t, self.mask(), self.draws())
                }
            }
            9 => match self.r.below(4) {
                0 => format!("loadbad {} {} {}", t, self.r.below(self.universe) + 2, self.r.next() % 9999),
                1 => format!("frombt {} {} {} {}", t, self.r.below(9999), self.r.below(self.universe), self.universe * 2),
                _ => format!("load {} {} {} {}", t, self.r.below(4), 1 + self.r.below(3), self.r.below(self.universe + 1)),
            },
            10 => {
                let k = *self.r.pick(&[
                    "mergel", "merger", "appendl", "appendr", "add", "addassign", "addref", "addassignref",
                    "mergeliter", "mergeriter",
                ]);
                let keep = self.r.below(2);
                format!("{} {} {} {}", k, t, o, keep)
            }
            11 => format!("clone {} {}", t, o),
            14 => match self.r.below(3) {
                0 => format!("eqbuilt {} {}", t, self.r.below(3)),
                _ => format!("cmp {} {}", t, o),
            },
            15 => {
                let a = *self.r.pick(&["look", "insert", "insert", "remove", "removeentry", "intomut", "getmut", "drop", "intokey"]);
                format!("ent {} {} {} {}", t, self.k(), a, self.v())
            }
            _ => match self.r.below(2) {
                0 => format!("new {}", t),
                _ => format!("dropt {}", t),
            },
        }
    }
}

pub fn generate(prop: &str, seed: u64, index: u64) -> History {
    let pn: u64 = prop[1..].parse().unwrap_or(0);
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ (index << 8) ^ pn);
    r.next();
    let config = match pn {
        11 | 12 => CONFIGS[(index % CONFIGS.len() as u64) as usize],
        _ => {
            if r.chance(1, 3) {
                CONFIGS[(index % CONFIGS.len() as u64) as usize]
            } else {
                CONFIGS[(index % 11) as usize]
            }
        }
    };
    let big = config.contains("64") || config.contains("300");
    let universe = match r.below(10) {
        0 => 6,
        1 | 2 | 3 => 24,
        4 | 5 | 6 => 70,
        7 | 8 => 200,
        _ => 500,
    } * if config.contains("300") { 16 } else if big { 4 } else { 1 };
    let ntrees = 2 + r.below(2);
    let mut g = G { r, universe, ntrees };
    let mut ops = vec![];
    let tall = !config.contains("64") && g.r.chance(1, 250);
    if tall {
        // as high as trees may get
        let n = 2000 + g.r.below(58_000);
        ops.push(format!("insrun 0 0 1 {}", n));
        g.universe = n;
    } else if g.r.chance(5, 6) {
        ops.push(g.build(0));
    }
    if g.r.chance(1, 2) {
        ops.push(g.build(1));
    }
    let n = match g.r.below(4) {
        0 => 3 + g.r.below(6),
        1 | 2 => 8 + g.r.below(16),
        _ => 16 + g.r.below(40),
    };
    let focus: &[u32] = match pn {
        1 => &[1, 1, 1, 2, 3, 7],
        2 => &[2, 2, 2, 3, 15],
        3 => &[3, 3, 3, 2, 15],
        4 => &[2, 3, 10, 9, 11, 15],
        5 => &[5, 5, 2, 3],
        6 => &[6, 6, 6, 2, 3],
        7 => &[7, 7, 7, 2, 3],
        8 => &[8, 8, 8, 2, 3, 0],
        9 => &[9, 9, 9, 2, 3, 5, 6, 8],
        10 => &[10, 10, 10, 2, 3, 0],
        11 => &[11, 11, 2, 3, 7, 8, 15, 10],
        14 => &[14, 14, 2, 3, 11],
        15 => &[15, 15, 15, 2, 3],
        _ => &[2, 3, 5, 6, 7, 8, 10, 11, 15],
    };
    for _ in 0..if tall { n.min(8) } else { n } {
        let class = if g.r.chance(3, 4) {
            *g.r.pick(focus)
        } else {
            *g.r.pick(&[0, 1, 2, 2, 3, 3, 5, 6, 7, 8, 9, 10, 11, 11, 14, 15, 99])
        };
        let o = g.op(class);
        ops.push(o);
    }
    if (pn == 11 || pn == 13) && g.r.chance(1, 40) {
        ops.push(format!("threads {} {} {} {}", g.r.below(2), g.r.next() % 99991, 1 + g.r.below(60), 2 + g.r.below(3)));
    }
    History { config: config.to_string(), ops }
}
