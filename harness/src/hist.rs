//! Histories: lists of coarse operations (runs of inserts, contiguous or
//! thinning removals, churn, rebuilds ...) that the driver expands, relative
//! to the current state of the reference model, into elementary steps on the
//! system under test. Each elementary step is checked by the `Sink`.

use crate::case::*;
use crate::model::Model;
use crate::rng::{mix, Rng};
use crate::runner::Cx;
use crate::R;

pub struct Hist {
    pub m: Model,
    pub vid: u64,
    pub rng: Rng,
    /// key index of the last mutation
    pub last: u32,
    pub max_n: usize,
    pub steps: u64,
    density: usize,
}

pub trait Sink {
    /// called before the model changes
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R;
    fn remove(&mut self, m: &Model, x: u32) -> R;
    /// x is present; change its value to `vid` in place
    fn touch(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.insert(m, x, vid)
    }
    fn clear(&mut self, m: &Model) -> R;
    /// rebuild the same contents with a bulk constructor
    fn rebuild(&mut self, m: &Model, mode: usize) -> R;
    /// cheap checks and reads, called after a share of the steps
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R;
    /// full checks
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R;
    fn special(&mut self, _h: &mut Hist, _op: &Op) -> R {
        Ok(())
    }
}

impl Hist {
    pub fn new(case: &Case) -> Self {
        Hist {
            m: Model::new(case.param(0).clamp(1, 1 << 25) as usize),
            vid: 1,
            rng: Rng::new(case.param(1) as u64),
            last: 0,
            max_n: 0,
            steps: 0,
            density: case.param(2).max(0) as usize,
        }
    }
    pub fn next_vid(&mut self) -> u64 {
        self.vid += 1;
        self.vid
    }
    fn stepped<S: Sink>(&mut self, s: &mut S, x: u32) -> R {
        self.last = x;
        self.steps += 1;
        self.max_n = self.max_n.max(self.m.len());
        if self.density > 0 && self.rng.below(256) < self.density {
            s.probe(&self.m, x, &mut self.rng)?;
        }
        Ok(())
    }
    pub fn insert<S: Sink>(&mut self, s: &mut S, x: u32) -> R {
        let vid = self.next_vid();
        s.insert(&self.m, x, vid)?;
        self.m.set(x, vid);
        self.stepped(s, x)
    }
    pub fn remove<S: Sink>(&mut self, s: &mut S, x: u32) -> R {
        s.remove(&self.m, x)?;
        self.m.remove(x);
        self.stepped(s, x)
    }
    pub fn touch<S: Sink>(&mut self, s: &mut S, x: u32) -> R {
        let vid = self.next_vid();
        s.touch(&self.m, x, vid)?;
        self.m.set(x, vid);
        self.stepped(s, x)
    }
    /// a key worth reading: near the last mutation, a present one, or any
    pub fn interesting(m: &Model, last: u32, rng: &mut Rng) -> u32 {
        match rng.below(10) {
            0..=3 if !m.is_empty() => {
                let r = m.rank(last) as i64 + rng.below(7) as i64 - 3;
                m.select(r.clamp(0, m.len() as i64 - 1) as usize).unwrap()
            }
            4 => (last as i64 + rng.below(3) as i64 - 1).clamp(0, m.dom() as i64 - 1) as u32,
            5..=7 if !m.is_empty() => m.select(rng.below(m.len())).unwrap(),
            _ => rng.below(m.dom()) as u32,
        }
    }
}

/// Run one history. The caller does final checks and tear-down.
pub fn run_hist<S: Sink>(case: &Case, s: &mut S, cx: &mut Cx) -> Result<Hist, String> {
    let mut h = Hist::new(case);
    run_ops(&mut h, case, s, cx)?;
    Ok(h)
}

pub fn run_ops<S: Sink>(h: &mut Hist, case: &Case, s: &mut S, cx: &mut Cx) -> R {
    for (i, o) in case.ops.iter().enumerate() {
        // the randomness of an operation does not depend on the ones before it
        h.rng = Rng::new(mix(&[case.param(1) as u64, o.c as u64, o.a as u64, o.b as u64, o.d as u64]));
        apply(h, o, s).map_err(|e| format!("{e} [at op {i}: {} {} {} {}]", o.name(), o.a, o.b, o.d))?;
    }
    cx.steps += h.steps;
    if h.max_n > 64 {
        cx.label("more than one leaf");
    }
    if h.max_n > 2112 {
        cx.label("maybe 3 levels (>2112 entries)");
    }
    if h.max_n > 65_000 {
        cx.label("maybe 4 levels (>65000 entries)");
    }
    if h.max_n > 65 * 33 * 33 * 32 {
        cx.label("maybe 5 levels (>2265120 entries)");
    }
    Ok(())
}

const MAXRUN: usize = 1 << 22;

fn apply<S: Sink>(h: &mut Hist, o: &Op, s: &mut S) -> R {
    let dom = h.m.dom();
    let (a, b, d) = (o.ua(), o.ub().min(MAXRUN), o.ud());
    match o.c {
        INS => {
            let step = (d >> 3).max(1);
            match d & 7 {
                0 => {
                    for i in 0..b {
                        h.insert(s, ((a + i * step) % dom) as u32)?;
                    }
                }
                1 => {
                    for i in 0..b {
                        let back = (i * step) % dom;
                        h.insert(s, ((a % dom + dom - back) % dom) as u32)?;
                    }
                }
                2 => {
                    let mut xs: Vec<u32> = (0..b).map(|i| ((a + i * step) % dom) as u32).collect();
                    for i in (1..xs.len()).rev() {
                        let j = h.rng.below(i + 1);
                        xs.swap(i, j);
                    }
                    for x in xs {
                        h.insert(s, x)?;
                    }
                }
                3 => {
                    for _ in 0..b {
                        let x = h.rng.below(dom) as u32;
                        h.insert(s, x)?;
                    }
                }
                4 => {
                    for _ in 0..b {
                        let x = (a + h.rng.below(4 * b)) % dom;
                        h.insert(s, x as u32)?;
                    }
                }
                5 => {
                    for i in 0..b {
                        let off = (i / 2 + 1) * step % dom;
                        let x = if i % 2 == 0 { a % dom + off } else { a % dom + dom - off };
                        h.insert(s, (x % dom) as u32)?;
                    }
                }
                _ => {
                    // two interleaved ascending runs
                    for i in 0..b {
                        let x = if i % 2 == 0 { a + i * step } else { a + (b + i) * step };
                        h.insert(s, (x % dom) as u32)?;
                    }
                }
            }
        }
        DEL => {
            let k = d >> 3;
            match d & 7 {
                0 => {
                    for _ in 0..b {
                        if h.m.is_empty() {
                            break;
                        }
                        let r = a.min(h.m.len() - 1);
                        let x = h.m.select(r).unwrap();
                        h.remove(s, x)?;
                    }
                }
                1 => {
                    let mut r = a;
                    for _ in 0..b {
                        if h.m.is_empty() {
                            break;
                        }
                        r = r.min(h.m.len() - 1);
                        let x = h.m.select(r).unwrap();
                        h.remove(s, x)?;
                        r = r.saturating_sub(1);
                    }
                }
                2 => {
                    let mut r = a;
                    for _ in 0..b {
                        if r >= h.m.len() {
                            break;
                        }
                        let x = h.m.select(r).unwrap();
                        h.remove(s, x)?;
                        r += k;
                    }
                }
                3 => {
                    for _ in 0..b {
                        if h.m.is_empty() {
                            break;
                        }
                        let x = h.m.select(h.rng.below(h.m.len())).unwrap();
                        h.remove(s, x)?;
                    }
                }
                4 => {
                    for _ in 0..b {
                        if h.m.is_empty() {
                            break;
                        }
                        let r = a + h.rng.below(4 * b);
                        let x = h.m.select(r % h.m.len()).unwrap();
                        h.remove(s, x)?;
                    }
                }
                5 => {
                    for i in 0..b {
                        if h.m.is_empty() {
                            break;
                        }
                        let r = if i % 2 == 0 { 0 } else { h.m.len() - 1 };
                        let x = h.m.select(r).unwrap();
                        h.remove(s, x)?;
                    }
                }
                _ => {
                    for _ in 0..b {
                        let x = h.rng.below(dom) as u32;
                        h.remove(s, x)?;
                    }
                }
            }
        }
        UPD | MUT => {
            for i in 0..b {
                if h.m.is_empty() {
                    break;
                }
                let r = if d & 1 == 0 { a + i } else { h.rng.below(h.m.len()) };
                let x = h.m.select(r % h.m.len()).unwrap();
                if o.c == UPD {
                    h.insert(s, x)?;
                } else {
                    h.touch(s, x)?;
                }
            }
        }
        MIX => {
            // random inserts and removals in a window of keys
            let w = d.max(1);
            for _ in 0..b {
                let x = ((a + h.rng.below(w)) % dom) as u32;
                if h.rng.bool() {
                    h.insert(s, x)?;
                } else {
                    h.remove(s, x)?;
                }
            }
        }
        TOG => {
            // take keys out and put them back, walking along the ranks
            let hold = (d & 63).max(1);
            let mut r = a;
            let mut i = 0;
            while i < b {
                let mut taken = vec![];
                for _ in 0..hold {
                    if h.m.is_empty() {
                        break;
                    }
                    let x = h.m.select(r % h.m.len()).unwrap();
                    h.remove(s, x)?;
                    taken.push(x);
                    i += 1;
                }
                if d & 64 == 0 {
                    taken.reverse();
                }
                for x in taken {
                    h.insert(s, x)?;
                }
                r += 1 + (d >> 7);
                i += 1;
            }
        }
        CLR => {
            s.clear(&h.m)?;
            h.m.clear();
            h.stepped(s, 0)?;
        }
        BLD => {
            s.rebuild(&h.m, d)?;
            let l = h.last;
            h.stepped(s, l)?;
        }
        CHK => s.check(&h.m, &mut h.rng)?,
        PRB => {
            for _ in 0..b {
                let l = h.last;
                s.probe(&h.m, l, &mut h.rng)?;
            }
        }
        _ => s.special(h, o)?,
    }
    Ok(())
}

// ------------------------------------------------------------- generation

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Tiny,
    Leaf,
    Small,
    Medium,
    Large,
    Huge,
    Giant,
}

impl Class {
    pub fn of(stage: &str) -> Class {
        match stage {
            "tiny" => Class::Tiny,
            "leaf" => Class::Leaf,
            "small" => Class::Small,
            "medium" => Class::Medium,
            "large" => Class::Large,
            "huge" => Class::Huge,
            "giant" => Class::Giant,
            _ => Class::Small,
        }
    }
}

pub struct HistGen {
    /// (special op code, weight relative to ~40 for the ordinary phases)
    pub specials: &'static [(u8, usize)],
    /// probes per 256 steps to choose from
    pub densities: &'static [usize],
    pub variants: usize,
    pub clear: bool,
    pub bulk: bool,
    pub touch: bool,
    /// share of histories that end by draining everything
    pub drain_pct: usize,
}

impl Default for HistGen {
    fn default() -> Self {
        HistGen {
            specials: &[],
            densities: &[0, 16, 64, 256],
            variants: 1,
            clear: true,
            bulk: true,
            touch: true,
            drain_pct: 25,
        }
    }
}

pub fn sizes(rng: &mut Rng, class: Class) -> usize {
    match class {
        Class::Tiny => rng.range(0, 24),
        Class::Leaf => match rng.below(3) {
            0 => rng.range(60, 68),
            1 => rng.range(126, 133),
            _ => rng.range(30, 170),
        },
        Class::Small => rng.range(100, 600),
        Class::Medium => rng.range(600, 2200),
        Class::Large => rng.range(2113, 9000),
        Class::Huge => rng.range(68_000, 100_000),
        // in order, leaving all nodes half full: five levels from 65 * 33 * 33 * 32 entries on
        Class::Giant => rng.range(2_271_000, 2_420_000),
    }
}

/// Sizes at which bulk loaded trees change shape
pub fn bulk_size(rng: &mut Rng, class: Class) -> usize {
    let d = rng.below(5);
    let leaf = 64;
    let inner = 65 * leaf;
    match class {
        Class::Tiny => rng.below(30),
        Class::Leaf => (leaf * rng.range(1, 3) + d).saturating_sub(2),
        Class::Small => leaf * rng.range(2, 10) + d - 2,
        Class::Medium => leaf * rng.range(10, 34) + d - 2,
        Class::Large => match rng.below(3) {
            0 => inner * rng.range(1, 3) + d - 2,
            1 => inner * rng.range(1, 3) + leaf * rng.range(0, 3) + d - 2,
            _ => leaf * rng.range(33, 200) + d - 2,
        },
        Class::Huge | Class::Giant => match rng.below(3) {
            0 => inner * 65 + d - 2,
            1 => inner * 65 + leaf * rng.range(0, 3) + d - 2,
            _ => inner * rng.range(15, 66) + d - 2,
        },
    }
}

/// Five levels: built in order, then changes where the upper levels are touched
fn gen_giant(rng: &mut Rng, g: &HistGen) -> Case {
    let n = sizes(rng, Class::Giant);
    let dom = n + rng.range(1, 70_000);
    let seed = (rng.next() >> 1) as i64;
    let mut ops = vec![];
    if rng.bool() {
        ops.push(op(INS, 0, n, 1 << 3));
    } else {
        ops.push(op(INS, dom - 1, n, 1 | 1 << 3));
    }
    let left = n / 2;
    for _ in 0..rng.range(2, 4) {
        let at = match rng.below(4) {
            0 => 0,
            1 => left,
            2 => 33 * 33 * 32 * rng.range(1, 60) + rng.below(80),
            _ => rng.below(left),
        };
        match rng.below(8) {
            0 | 1 => ops.push(op(DEL, at, rng.range(300_000, 700_000), rng.below(2))),
            2 => ops.push(op(DEL, at, rng.range(20_000, 120_000), rng.below(2))),
            3 => ops.push(op(DEL, 0, n / 2, 2 | 1 << 3)),
            4 => ops.push(op(INS, rng.below(dom), rng.range(10, 60_000), rng.below(2) | 1 << 3)),
            5 => ops.push(op(MIX, at, rng.range(10, 30_000), rng.skew(2, dom))),
            6 if !g.specials.is_empty() => {
                let c = g.specials[rng.below(g.specials.len())].0;
                ops.push(op(c, rng.below(1 << 30), rng.below(1 << 30), rng.below(1 << 30)));
            }
            _ => ops.push(op(TOG, at, rng.range(10, 2000), rng.pick(&[1usize, 17, 60]) | rng.pick(&[0usize, 5]) << 7)),
        }
        ops.push(op(PRB, 0, rng.range(1, 30), rng.below(1 << 20)));
    }
    ops.push(op(CHK, 0, 0, rng.below(1 << 20)));
    Case { stage: "giant".into(), params: vec![dom as i64, seed, 0, 0], ops }
}

pub fn gen_hist(rng: &mut Rng, stage: &str, g: &HistGen) -> Case {
    let class = Class::of(stage);
    if class == Class::Giant {
        return gen_giant(rng, g);
    }
    let bulk_start = g.bulk && rng.pct(25) && !(class == Class::Huge && rng.bool());
    let target = if bulk_start { bulk_size(rng, class) } else { sizes(rng, class) };
    let spread = if class == Class::Huge { rng.range(1, 2) } else { rng.pick(&[1usize, 2, 3, 4, 6]) };
    let dom = (target * spread + rng.range(1, 70)).max(3);
    let density = match class {
        Class::Huge => rng.pick(g.densities).min(16),
        _ => rng.pick(g.densities),
    };
    let variant = rng.below(g.variants.max(1));
    let seed = (rng.next() >> 1) as i64;
    let mut ops: Vec<Op> = vec![];
    let mut n; // estimated number of entries
    let check_every = match class {
        Class::Tiny | Class::Leaf | Class::Small => 35,
        Class::Medium => 20,
        _ => 8,
    };

    // build
    if class == Class::Tiny {
        n = 0;
    } else if bulk_start {
        ops.push(op(INS, 0, target, rng.pick(&[1usize, spread]) << 3));
        ops.push(op(BLD, 0, 0, rng.below(8)));
        n = target;
    } else {
        match rng.weighted(&[6, 3, 4, 3, 2, 2, 3]) {
            0 => ops.push(op(INS, 0, target, spread << 3)),
            1 => ops.push(op(INS, dom - 1, target, 1 | spread << 3)),
            2 => ops.push(op(INS, 0, target, 2 | spread << 3)),
            3 => ops.push(op(INS, 0, target, 3)),
            4 => ops.push(op(INS, dom / 2, target, 5)),
            5 => ops.push(op(INS, 0, target, 6)),
            _ => {
                // several strided passes
                let passes = rng.range(2, 5);
                for p in 0..passes {
                    ops.push(op(INS, p, target / passes + 1, (passes * spread).max(1) << 3));
                }
            }
        }
        n = target;
    }

    let phases = match class {
        Class::Tiny => rng.range(3, 30),
        Class::Huge => rng.range(1, 4),
        _ => rng.range(1, 8),
    };
    let spw: usize = g.specials.iter().map(|x| x.1).sum();
    for _ in 0..phases {
        let w = [
            10,                             // contiguous removal
            5,                              // thinning
            5,                              // scattered removal
            3,                              // both ends
            8,                              // insert
            5,                              // mix
            4,                              // toggle
            2,                              // overwrite
            if g.touch { 2 } else { 0 },    // in-place
            if g.bulk { 2 } else { 0 },     // rebuild
            if g.clear { 1 } else { 0 },    // clear
            3,                              // probes
            spw,
        ];
        let cnt = |rng: &mut Rng, n: usize| match rng.below(4) {
            0 => rng.range(1, 40).min(n.max(1)),
            1 => rng.skew(1, n.max(1)),
            2 => rng.range(1, n.max(1)),
            _ => (n / 2 + rng.below(40)).max(1),
        };
        let rank = |rng: &mut Rng, n: usize| match rng.below(4) {
            0 => 0,
            1 => n.saturating_sub(1 + rng.below(80)),
            _ => rng.below(n.max(1)),
        };
        match rng.weighted(&w) {
            0 => {
                let c = cnt(rng, n);
                ops.push(op(DEL, rank(rng, n), c, rng.below(2)));
                n = n.saturating_sub(c);
            }
            1 => {
                let keep = rng.pick(&[1usize, 1, 1, 2, 3, 15, 31, 63]);
                let c = if rng.pct(60) { n / (keep + 1) + 1 } else { cnt(rng, n) / (keep + 1) + 1 };
                ops.push(op(DEL, if rng.pct(60) { 0 } else { rank(rng, n) }, c, 2 | keep << 3));
                n = n.saturating_sub(c);
            }
            2 => {
                let c = cnt(rng, n);
                let mode = rng.pick(&[3usize, 3, 4, 6]);
                ops.push(op(DEL, rank(rng, n), c, mode));
                n = n.saturating_sub(if mode == 6 { c / spread } else { c });
            }
            3 => {
                let c = cnt(rng, n);
                ops.push(op(DEL, 0, c, 5));
                n = n.saturating_sub(c);
            }
            4 => {
                let c = cnt(rng, target.max(8) / 2);
                let mode = rng.pick(&[0usize, 1, 2, 3, 4, 5, 6]);
                let step = rng.pick(&[1usize, 1, 1, 2, 3, spread]);
                ops.push(op(INS, rng.below(dom), c, mode | step << 3));
                n = (n + c).min(dom);
            }
            5 => {
                let c = cnt(rng, n.min(3000)) * 2 + 4;
                ops.push(op(MIX, rng.below(dom), c, rng.skew(2, dom)));
            }
            6 => {
                let c = cnt(rng, n.min(2000)) + 2;
                let hold = rng.pick(&[1usize, 1, 2, 5, 17, 33, 60]);
                ops.push(op(TOG, rank(rng, n), c, hold | (rng.below(2) * 64) | rng.pick(&[0usize, 0, 5, 15]) << 7));
            }
            7 => {
                let c = cnt(rng, n.min(500));
                ops.push(op(UPD, rank(rng, n), c, rng.below(2)));
            }
            8 => {
                let c = cnt(rng, n.min(500));
                ops.push(op(MUT, rank(rng, n), c, rng.below(2)));
            }
            9 => ops.push(op(BLD, 0, 0, rng.below(8))),
            10 => {
                ops.push(op(CLR, 0, 0, 0));
                n = 0;
            }
            11 => ops.push(op(PRB, 0, rng.range(1, 30), rng.below(1 << 20))),
            _ => {
                let ws: Vec<usize> = g.specials.iter().map(|x| x.1).collect();
                let c = g.specials[rng.weighted(&ws)].0;
                ops.push(op(c, rng.below(1 << 30), rng.below(1 << 30), rng.below(1 << 30)));
            }
        }
        if rng.pct(check_every) {
            ops.push(op(CHK, 0, 0, rng.below(1 << 20)));
        }
    }
    if rng.pct(g.drain_pct) {
        let all = dom;
        match rng.below(5) {
            0 => ops.push(op(DEL, 0, all, 0)),
            1 => ops.push(op(DEL, dom, all, 1)),
            2 => ops.push(op(DEL, 0, all, 5)),
            3 => {
                // leave a handful
                let leave = rng.pick(&[1usize, 15, 16, 17, 31, 33, 70]);
                ops.push(op(DEL, rng.below(n.max(1)), n.saturating_sub(leave), rng.below(2)));
                ops.push(op(CHK, 0, 0, 1));
                ops.push(op(DEL, 0, all, 0));
            }
            _ => ops.push(op(DEL, 0, all, 3)),
        }
        if rng.bool() {
            ops.push(op(INS, rng.below(dom), rng.range(1, 80), rng.below(2)));
        }
    }
    ops.push(op(CHK, 0, 0, rng.below(1 << 20)));
    Case {
        stage: stage.to_string(),
        params: vec![dom as i64, seed, density as i64, variant as i64],
        ops,
    }
}
