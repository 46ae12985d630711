//! C15: unions of two sets, each with a history.

use harness::core::Core;
use harness::dict::Dict;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::tok::{self, KTok};
use harness::*;
use sweep_bptree::BPlusTreeSet;

type Set<K> = Core<K, (), BPlusTreeSet<K>>;

struct S<K: TKey> {
    a: Set<K>,
    b: Set<K>,
    bm: Model,
    mixed: u64,
    overlap: bool,
    copies: u64,
}

fn hint(h: (usize, Option<usize>), left: usize, total: usize) -> R {
    ensure!(
        h.0 <= left && h.1.map_or(true, |u| left <= u),
        "size_hint is {h:?} with {left} of {total} keys to come"
    );
    Ok(())
}

/// take everything there is, step by step, with copies on the way
fn run<'a, K: TKey + 'a, U>(
    mut u: U,
    want: &[u32],
    mut at: usize,
    rng: &mut Rng,
    depth: usize,
    copies: &mut u64,
) -> R
where
    U: Iterator<Item = &'a K> + Clone,
{
    let n = want.len();
    let stop = match rng.below(5) {
        0 => at + rng.below(n - at + 1),
        1 => (at + rng.below(5)).min(n),
        _ => n,
    };
    let mut dups = if depth < 2 { rng.below(3) } else { 0 };
    let jumps = rng.pct(20);
    hint(u.size_hint(), n - at, n)?;
    while at < stop {
        let jump = if jumps && rng.below(8) == 0 { rng.below(70) } else { 0 };
        let x = if jump == 0 { u.next() } else { u.nth(jump) };
        let to = at + jump;
        match x {
            None => {
                ensure!(to >= n, "the union ended after {at} of {n} keys");
                at = n;
                break;
            }
            Some(k) => {
                ensure!(to < n, "key {} from the union after all {n}", k.ix());
                ensure!(k.ix() == want[to], "key {to} of the union is {}, should be {}", k.ix(), want[to]);
                at = to + 1;
            }
        }
        hint(u.size_hint(), n - at, n)?;
        if dups > 0 && rng.below(if n - at < 40 { 3 } else { 80 }) == 0 {
            dups -= 1;
            *copies += 1;
            let c = u.clone();
            if rng.bool() {
                run(c, want, at, rng, depth + 1, copies).map_err(|e| format!("in a copy: {e}"))?;
                hint(u.size_hint(), n - at, n)?;
            } else {
                // go on with the copy
                let old = std::mem::replace(&mut u, c);
                if rng.bool() {
                    run(old, want, at, rng, depth + 1, copies).map_err(|e| format!("after copying: {e}"))?;
                }
            }
        }
    }
    if at == n {
        for _ in 0..3 {
            ensure!(u.next().is_none(), "the union goes on after its {n} keys");
            hint(u.size_hint(), 0, n)?;
        }
        ensure!(u.clone().next().is_none(), "a copy of an exhausted union goes on");
        return Ok(());
    }
    // what the adaptors make of the rest
    let rest = &want[at..];
    let p = rng.below(rest.len());
    match rng.below(12) {
        5 => {
            let l = u.fold(Vec::new(), |mut v, k| {
                v.push(k.ix());
                v
            });
            ensure!(l == rest, "fold() of the rest saw {} keys, should be {}, or differs", l.len(), rest.len());
        }
        6 => {
            let f = u.find(|k| k.ix() >= rest[p]).map(|k| k.ix());
            ensure!(f == Some(rest[p]), "find() in the rest gave {f:?}, should be {}", rest[p]);
            return run(u, want, at + p + 1, rng, depth + 1, copies);
        }
        7 => {
            let f = u.position(|k| k.ix() == rest[p]);
            ensure!(f == Some(p), "position() in the rest gave {f:?}, should be {p}");
            return run(u, want, at + p + 1, rng, depth + 1, copies);
        }
        8 => {
            let step = rng.pick(&[1usize, 2, 3, 64, 65]);
            let l: Vec<u32> = u.step_by(step).map(|k| k.ix()).collect();
            let w: Vec<u32> = rest.iter().copied().step_by(step).collect();
            ensure!(l == w, "step_by({step}) of the rest gave {} keys, should be {}, or differs", l.len(), w.len());
        }
        9 => {
            let l: Vec<u32> = u.by_ref().take(p).map(|k| k.ix()).collect();
            ensure!(l == rest[..p], "take({p}) of the rest gave {} keys, or differs", l.len());
            return run(u, want, at + p, rng, depth + 1, copies);
        }
        10 => {
            let l: Vec<u32> = u.skip(p).map(|k| k.ix()).collect();
            ensure!(l == rest[p..], "skip({p}) of the rest gave {} keys, or differs", l.len());
        }
        0 => {
            let c = u.count();
            ensure!(c == rest.len(), "count() of the rest is {c}, should be {}", rest.len());
        }
        1 => {
            let l = u.last().map(|k| k.ix());
            ensure!(l == rest.last().copied(), "last() of the rest is {l:?}");
        }
        2 => {
            let l = u.min().map(|k| k.ix());
            ensure!(l == rest.first().copied(), "min() of the rest is {l:?}, should be {:?}", rest.first());
        }
        3 => {
            let l = u.max().map(|k| k.ix());
            ensure!(l == rest.last().copied(), "max() of the rest is {l:?}");
        }
        4 => {
            let l: Vec<u32> = u.map(|k| k.ix()).collect();
            ensure!(l == rest, "the rest of the union has {} keys, should be {}, or differs", l.len(), rest.len());
        }
        _ => drop(u),
    }
    Ok(())
}

fn merged(a: &Model, b: &Model) -> (Vec<u32>, bool) {
    let (x, y) = (a.entries(), b.entries());
    let (mut i, mut j) = (0, 0);
    let mut out = Vec::with_capacity(x.len() + y.len());
    let mut both = false;
    while i < x.len() || j < y.len() {
        let l = x.get(i).map(|e| e.0).unwrap_or(u32::MAX);
        let r = y.get(j).map(|e| e.0).unwrap_or(u32::MAX);
        out.push(l.min(r));
        both |= l == r;
        i += (l <= r) as usize;
        j += (r <= l) as usize;
    }
    (out, both)
}

impl<K: TKey> S<K> {
    fn unions(&mut self, m: &Model, rng: &mut Rng) -> R {
        let (want, both) = merged(m, &self.bm);
        self.overlap |= both && want.len() > m.len();
        if m.len() > 64 && !self.bm.is_empty() {
            self.mixed += 1;
        }
        let (a, b) = (&self.a.d, &self.b.d);
        let mut c = 0;
        for flip in [rng.bool(), rng.bool()] {
            let u = if flip { b.union(a) } else { a.union(b) };
            run(u, &want, 0, rng, 0, &mut c).map_err(|e| format!("{e} ({} | {} keys)", m.len(), self.bm.len()))?;
        }
        // both orders give the same
        if want.len() < 4000 {
            let x: Vec<u32> = a.union(b).take(want.len() + 3).map(|k| k.ix()).collect();
            let y: Vec<u32> = b.union(a).take(want.len() + 3).map(|k| k.ix()).collect();
            ensure!(x == want, "a union b has {} keys, should have {}, or differs", x.len(), want.len());
            ensure!(y == want, "b union a has {} keys, should have {}, or differs", y.len(), want.len());
        }
        if rng.below(8) == 0 {
            // with itself
            let own: Vec<u32> = m.entries().into_iter().map(|e| e.0).collect();
            run(a.union(a), &own, 0, rng, 0, &mut c).map_err(|e| format!("with itself: {e}"))?;
        }
        self.copies += c;
        Ok(())
    }
    fn other(&mut self, h: &mut Hist, op: &Op) {
        let dom = h.m.dom();
        let own: Vec<u32> = h.m.entries().into_iter().map(|e| e.0).collect();
        let k = op.ub() % (own.len() + 1);
        let xs: Vec<u32> = match op.ua() % 10 {
            0 => own.clone(),
            1 => own.iter().copied().skip(k).collect(),
            2 => own.iter().copied().take(k).collect(),
            3 => (0..dom as u32).filter(|x| h.m.get(*x).is_none()).collect(),
            4 => vec![],
            5 => vec![h.rng.below(dom) as u32],
            6 => (0..dom as u32).filter(|_| h.rng.below(4) == 0).collect(),
            7 => {
                // blocks
                let w = h.rng.range(1, 80) as u32;
                (0..dom as u32).filter(|x| (x / w) % 2 == 0).collect()
            }
            8 => {
                let below = h.m.first().unwrap_or(0);
                (0..below).collect()
            }
            _ => {
                let above = h.m.last().unwrap_or(0);
                (above..dom as u32).collect()
            }
        };
        let mut bm = Model::new(dom);
        for x in &xs {
            bm.set(*x, 0);
        }
        self.b.d = if op.ud() % 2 == 0 {
            xs.iter().map(|x| K::of(*x)).collect()
        } else {
            let mut s = BPlusTreeSet::new();
            for x in &xs {
                s.insert(K::of(*x));
            }
            s
        };
        self.bm = bm;
    }
}

impl<K: TKey> Sink for S<K> {
    steps_via!(a);
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.a.probe(m, last, rng)?;
        if m.len() + self.bm.len() < 300 && rng.below(4) == 0 {
            self.unions(m, rng)?;
        }
        Ok(())
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.unions(m, rng)
    }
    fn special(&mut self, h: &mut Hist, op: &Op) -> R {
        match op.c {
            SP0 => {
                std::mem::swap(&mut self.a, &mut self.b);
                std::mem::swap(&mut h.m, &mut self.bm);
            }
            SP1 => self.other(h, op),
            _ => {}
        }
        let m = h.m.clone();
        self.unions(&m, &mut h.rng)
    }
}

fn go<K: TKey>(case: &Case, cx: &mut Cx) -> R {
    tok::reset();
    let mut s: S<K> = S {
        a: Core::new(Dict::new()),
        b: Core::new(Dict::new()),
        bm: Model::new(case.param(0).max(1) as usize),
        mixed: 0,
        overlap: false,
        copies: 0,
    };
    let h = run_hist(case, &mut s, cx)?;
    let mut rng = Rng::new(case.param(1) as u64);
    s.unions(&h.m, &mut rng)?;
    // the sets are still what they were
    s.a.check(&h.m, &mut rng)?;
    let bm = s.bm.clone();
    s.b.check(&bm, &mut rng)?;
    if s.overlap {
        cx.label("partly overlapping sets");
    }
    if s.copies > 0 {
        cx.label("copies of unions");
    }
    if s.mixed > 0 {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C15";
    const RULE: &'static str = "Two sets, each the result of a history over seven size classes (0 to 2.4M entries) (grown, shrunk, rebuilt, swapped) or made from the other (equal, prefix, suffix, complement, blocks, below, above, random, empty); their unions in both operand orders (and with themselves) are stepped with next, nth, copies at random points and the remaining adaptors, with the size hint checked at each step. Non-trivial: a union of a set of more than one leaf (>64 keys) with a non-empty one.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 4, classes(tier, 20000, 9000, 6000, 3000, 1000, 12))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 5,
                specials: &[(SP0, 12), (SP1, 10), (SP2, 4)],
                densities: &[0, 4, 24],
                touch: false,
                ..HistGen::default()
            },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 | 1 => go::<u32>(case, cx),
            2 => go::<String>(case, cx),
            3 => go::<Wide>(case, cx),
            _ => go::<KTok>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
