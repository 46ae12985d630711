//! C05: a pool of cursors of every age against the model.

use harness::core::Core;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::Cursor;

const POOL: usize = 8;

struct Cur<K: TKey> {
    c: Cursor<K>,
    x: u32,
    /// steps of the history when it was made
    born: u64,
}

struct S<K: TKey, V: TVal, A: Augmentation<K, V>> {
    core: Core<K, V, Tree<K, V, A>>,
    pool: Vec<Cur<K>>,
    clock: u64,
    stale: u64,
    gone: u64,
    crossed: bool,
}

fn key_is<K: TKey>(c: &Cursor<K>, x: u32) -> R {
    ensure!(c.key().ix() == x, "cursor on key {} should be on key {x}", c.key().ix());
    Ok(())
}

impl<K: TKey, V: TVal, A: Augmentation<K, V>> S<K, V, A> {
    fn keep(&mut self, c: Cursor<K>, x: u32, rng: &mut Rng) {
        let n = Cur { c, x, born: self.clock };
        if self.pool.len() < POOL {
            self.pool.push(n);
        } else {
            let i = rng.below(POOL);
            self.pool[i] = n;
        }
    }
    fn val(got: Option<&V>, want: Option<u64>, what: &str, x: u32) -> R {
        Core::<K, V, Tree<K, V, A>>::same(got, want, what, x)
    }
    /// all a cursor can answer, without moving it
    fn observe(t: &Tree<K, V, A>, c: &Cursor<K>, x: u32, m: &Model) -> R {
        key_is(c, x)?;
        Self::val(c.value(t), m.get(x), "cursor value", x)?;
        ensure!(c.exists(t) == m.get(x).is_some(), "exists() of the cursor on key {x} is wrong");
        Self::step(t, c, x, m, true, true)?;
        Self::step(t, c, x, m, false, true)?;
        Self::step(t, c, x, m, true, false)?;
        Self::step(t, c, x, m, false, false)?;
        key_is(c, x)
    }
    fn step(
        t: &Tree<K, V, A>,
        c: &Cursor<K>,
        x: u32,
        m: &Model,
        fwd: bool,
        with_value: bool,
    ) -> Result<Option<(Cursor<K>, u32)>, String> {
        let want = if fwd { m.succ(x) } else { m.pred(x) };
        let what = if fwd { "next" } else { "prev" };
        let got = if with_value {
            let r = if fwd { c.next_with_value(t) } else { c.prev_with_value(t) };
            if let Some((n, v)) = &r {
                if Some(n.key().ix()) == want {
                    Self::val(Some(v), m.get(n.key().ix()), what, n.key().ix())?;
                }
            }
            r.map(|x| x.0)
        } else if fwd {
            c.next(t)
        } else {
            c.prev(t)
        };
        match (got, want) {
            (None, None) => Ok(None),
            (Some(n), Some(w)) if n.key().ix() == w => Ok(Some((n, w))),
            (g, w) => Err(format!(
                "{what} of the cursor on key {x} ({}) is {:?}, should be {w:?}",
                if m.get(x).is_some() { "present" } else { "absent" },
                g.map(|c| c.key().ix())
            )),
        }
    }
    fn make(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        match rng.below(8) {
            0 => {
                let got = Cursor::first(&self.core.d);
                match (got, m.first()) {
                    (None, None) => {}
                    (Some((c, v)), Some(x)) => {
                        key_is(&c, x)?;
                        Self::val(Some(v), m.get(x), "Cursor::first", x)?;
                        self.keep(c, x, rng);
                    }
                    (g, w) => return Err(format!("Cursor::first is {:?}, should be {w:?}", g.map(|g| g.0.key().ix()))),
                }
            }
            1 => {
                let got = Cursor::last(&self.core.d);
                match (got, m.last()) {
                    (None, None) => {}
                    (Some((c, v)), Some(x)) => {
                        key_is(&c, x)?;
                        Self::val(Some(v), m.get(x), "Cursor::last", x)?;
                        self.keep(c, x, rng);
                    }
                    (g, w) => return Err(format!("Cursor::last is {:?}, should be {w:?}", g.map(|g| g.0.key().ix()))),
                }
            }
            2 => match (self.core.d.cursor_first(), m.first()) {
                (None, None) => {}
                (Some(c), Some(x)) => {
                    key_is(&c, x)?;
                    self.keep(c, x, rng);
                }
                (g, w) => return Err(format!("cursor_first is {:?}, should be {w:?}", g.map(|g| g.key().ix()))),
            },
            _ => {
                let x = Hist::interesting(m, last, rng);
                match self.core.d.get_cursor(&K::of(x)) {
                    None => return Err(format!("get_cursor(key {x}) gave nothing")),
                    Some((c, v)) => {
                        key_is(&c, x)?;
                        Self::val(v, m.get(x), "get_cursor", x)?;
                        self.keep(c, x, rng);
                    }
                }
            }
        }
        Ok(())
    }
    fn cursors(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        for _ in 0..rng.range(1, 3) {
            if self.pool.is_empty() || rng.below(5) == 0 {
                self.make(m, last, rng)?;
                continue;
            }
            let i = rng.below(self.pool.len());
            let (x, born) = (self.pool[i].x, self.pool[i].born);
            if self.clock > born {
                self.stale += 1;
                self.gone += m.get(x).is_none() as u64;
            }
            match rng.below(6) {
                0..=2 => Self::observe(&self.core.d, &self.pool[i].c, x, m)?,
                3 => {
                    // walk, keeping the last position
                    let n = rng.pick(&[1usize, 2, 5, 64, 70]);
                    let fwd = rng.bool();
                    let mut cur = self.pool[i].c.clone();
                    let mut at = x;
                    for _ in 0..n {
                        let wv = rng.bool();
                        match Self::step(&self.core.d, &cur, at, m, fwd, wv)? {
                            None => break,
                            Some((c, y)) => {
                                cur = c;
                                at = y;
                            }
                        }
                    }
                    self.pool[i] = Cur { c: cur, x: at, born: self.clock };
                }
                _ => {
                    // one step, the cursor stays in the pool at its new place
                    let fwd = rng.bool();
                    let wv = rng.bool();
                    if let Some((c, y)) = Self::step(&self.core.d, &self.pool[i].c, x, m, fwd, wv)? {
                        self.pool[i] = Cur { c, x: y, born: self.clock };
                    }
                }
            }
        }
        Ok(())
    }
}

impl<K: TKey, V: TVal, A: Augmentation<K, V>> Sink for S<K, V, A> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.clock += 1;
        self.core.insert(m, x, vid)
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        self.clock += 1;
        self.core.remove(m, x)
    }
    fn touch(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.core.touch(m, x, vid)
    }
    fn clear(&mut self, m: &Model) -> R {
        self.clock += 1;
        self.core.clear(m)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        self.clock += 1;
        self.crossed = true;
        self.core.rebuild(m, mode)
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.cursors(m, last, rng)?;
        if rng.below(8) == 0 {
            self.core.probe(m, last, rng)?;
        }
        Ok(())
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        for c in &self.pool {
            Self::observe(&self.core.d, &c.c, c.x, m)?;
        }
        // a full walk, and every key of the domain, if that is affordable
        let step = (m.dom() / 800).max(1);
        let mut x = rng.below(step.min(m.dom()));
        while x < m.dom() {
            let (c, v) = self.core.d.get_cursor(&K::of(x as u32)).ok_or("get_cursor gave nothing")?;
            Self::val(v, m.get(x as u32), "get_cursor", x as u32)?;
            Self::observe(&self.core.d, &c, x as u32, m)?;
            x += step;
        }
        let fwd = rng.bool();
        let start = if fwd { Cursor::first(&self.core.d) } else { Cursor::last(&self.core.d) };
        ensure!(start.is_some() != m.is_empty(), "cursor at the end of {} entries: {}", m.len(), start.is_some());
        if let Some((c, _)) = start {
            let mut cur = c;
            let mut at = if fwd { m.first() } else { m.last() }.unwrap();
            key_is(&cur, at)?;
            for _ in 0..m.len().min(6000) {
                match Self::step(&self.core.d, &cur, at, m, fwd, true)? {
                    None => break,
                    Some((c, y)) => {
                        cur = c;
                        at = y;
                    }
                }
            }
        }
        Ok(())
    }
    fn special(&mut self, h: &mut Hist, op: &Op) -> R {
        match op.c {
            SP0 => {
                // the cursors move on to a differently shaped tree with the same contents
                self.crossed = true;
                self.clock += 1;
                if op.ud() % 2 == 0 {
                    self.core.rebuild(&h.m, op.ud())?;
                } else {
                    let mut t = <Tree<K, V, A> as dict::Dict<K, V>>::new();
                    let mut e = h.m.entries();
                    dict::scramble(&mut e, op.ud());
                    for (x, v) in e {
                        t.insert(K::of(x), V::of(v));
                    }
                    self.core.d = t;
                }
                for c in &self.pool {
                    Self::observe(&self.core.d, &c.c, c.x, &h.m)?;
                }
            }
            _ => {
                // the documented pattern: walk and delete behind or under the cursor
                let Some((c, _)) = Cursor::first(&self.core.d) else { return Ok(()) };
                let mut cur = c;
                let mut at = h.m.first().unwrap();
                let n = op.ub() % 400;
                let fwd0 = op.ud() % 2 == 0;
                if !fwd0 {
                    cur = Cursor::last(&self.core.d).unwrap().0;
                    at = h.m.last().unwrap();
                }
                let share = op.ua() % 8;
                for _ in 0..n {
                    let mut rng = h.rng.clone();
                    if rng.below(8) < share {
                        let x = match rng.below(3) {
                            0 => Some(at),
                            1 => h.m.succ(at),
                            _ => h.m.pred(at),
                        };
                        h.rng = rng.clone();
                        if let Some(x) = x {
                            h.remove(self, x)?;
                        }
                    } else if rng.below(4) == 0 {
                        let x = rng.below(h.m.dom()) as u32;
                        h.rng = rng.clone();
                        h.insert(self, x)?;
                    }
                    h.rng = rng;
                    self.stale += 1;
                    self.gone += h.m.get(at).is_none() as u64;
                    match Self::step(&self.core.d, &cur, at, &h.m, fwd0, true)? {
                        None => break,
                        Some((c, y)) => {
                            cur = c;
                            at = y;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn go<K: TKey, V: TVal, A: Augmentation<K, V>>(case: &Case, cx: &mut Cx) -> R {
    let mut s: S<K, V, A> = S {
        core: Core::new(dict::Dict::new()),
        pool: vec![],
        clock: 0,
        stale: 0,
        gone: 0,
        crossed: false,
    };
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(3))?;
    if s.stale >= 5 && h.max_n > 64 {
        cx.nontrivial();
    }
    if s.gone > 0 {
        cx.label("cursor whose key was removed");
    }
    if s.crossed {
        cx.label("cursor used on another tree");
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C05";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) with a pool of up to eight cursors (first, last, at a present or absent key), which are read, stepped and walked after mutations, clears, bulk rebuilds and on other trees with the same contents; key, value, exists, next and prev in both forms compared with successor and predecessor in the model. Non-trivial: more than one leaf (>64 entries) and at least five uses of a cursor made before a later mutation.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 6, classes(tier, 24000, 12000, 9000, 4500, 2000, 40))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen { variants: 5, specials: &[(SP0, 3), (SP1, 8)], densities: &[16, 64, 256], ..HistGen::default() },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, ()>(case, cx),
            1 => go::<String, String, ()>(case, cx),
            2 => go::<(u32, u32), u64, Count>(case, cx),
            3 => go::<Wide, u64, ()>(case, cx),
            _ => go::<u32, u64, Count>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
