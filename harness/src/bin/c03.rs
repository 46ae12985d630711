//! C03: consuming iterators of tree and set, with ownership tokens.

use harness::core::Core;
use harness::dict::Dict;
use harness::hist::Hist;
use harness::iterx::script;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::tok::{self, KTok, VTok};
use harness::*;
use sweep_bptree::{BPlusTree, BPlusTreeSet};

fn want(m: &Model, i: usize) -> (u32, u64) {
    let x = m.select(i).unwrap();
    (x, m.get(x).unwrap())
}

trait Consume: Sized {
    fn take_all(self, m: &Model, rng: &mut Rng) -> R;
    fn copy(&self) -> Option<Self>;
}

impl<K: TKey, V: TVal> Consume for Tree<K, V> {
    fn take_all(self, m: &Model, rng: &mut Rng) -> R {
        let ok = |e: &(K, V), i: usize| {
            let (x, v) = want(m, i);
            e.0.ix() == x && e.1.is(v)
        };
        script(BPlusTree::into_iter(self), m.len(), usize::MAX, rng, &ok, None)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl<K: TKey> Consume for BPlusTreeSet<K> {
    fn take_all(self, m: &Model, rng: &mut Rng) -> R {
        let ok = |e: &K, i: usize| e.ix() == m.select(i).unwrap();
        if rng.below(6) == 0 {
            let mut it = BPlusTreeSet::into_iter(self);
            let a = rng.below(m.len() + 1);
            (0..a).for_each(|_| drop(it.next()));
            let (got, w) = match rng.below(2) {
                0 => (it.min(), m.select(a)),
                _ => (it.max(), if a < m.len() { m.select(m.len() - 1) } else { None }),
            };
            let got = got.map(|k| k.ix());
            ensure!(got == w, "min() or max() of the consuming iterator after {a} of {}: {got:?}, not {w:?}", m.len());
            return Ok(());
        }
        script(BPlusTreeSet::into_iter(self), m.len(), usize::MAX, rng, &ok, None)
    }
    fn copy(&self) -> Option<Self> {
        None
    }
}

struct S<K, V, D> {
    core: Core<K, V, D>,
    toks: bool,
    big: bool,
}

impl<K: TKey, V: TVal, D: Dict<K, V> + Consume> S<K, V, D> {
    /// consume the collection itself, then start again from a rebuilt one
    fn consume(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.big |= m.len() > 64;
        let before = tok::live(tok::VAL);
        // (a copy made here must not outlive this statement)
        let copy = if rng.bool() { self.core.d.copy() } else { None };
        match copy {
            Some(c) => c.take_all(m, rng)?,
            None => {
                let old = std::mem::replace(&mut self.core.d, D::new());
                old.take_all(m, rng)?;
                if self.toks {
                    let (k, v) = (tok::live(tok::KEY), tok::live(tok::VAL));
                    ensure!(k == 0 && v == 0, "{k} keys and {v} values not released after consuming");
                }
                for (x, v) in m.entries() {
                    self.core.d.insert(K::of(x), V::of(v));
                }
            }
        }
        if self.toks {
            if let Some(e) = tok::error() {
                return Err(e);
            }
            let v = tok::live(tok::VAL);
            ensure!(v == before, "{v} values alive, {before} before the copy was consumed");
        }
        Ok(())
    }
}

impl<K: TKey, V: TVal, D: Dict<K, V> + Consume> Sink for S<K, V, D> {
    steps_via!(core);
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        if m.len() < 40 && rng.below(6) == 0 {
            return self.consume(m, rng);
        }
        self.core.probe(m, last, rng)
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.consume(m, rng)
    }
    fn special(&mut self, h: &mut Hist, _op: &Op) -> R {
        self.consume(&h.m, &mut h.rng)
    }
}

fn go<K: TKey, V: TVal, D: Dict<K, V> + Consume>(case: &Case, cx: &mut Cx, toks: bool) -> R {
    tok::reset();
    let mut s = S { core: Core::<K, V, D>::new(D::new()), toks, big: false };
    let h = run_hist(case, &mut s, cx)?;
    let d = std::mem::replace(&mut s.core.d, D::new());
    d.take_all(&h.m, &mut Rng::new(case.param(1) as u64))?;
    if s.core.removals {
        cx.label("removals");
    }
    if toks {
        drop(std::mem::replace(&mut s.core.d, D::new()));
        let (k, v) = (tok::live(tok::KEY), tok::live(tok::VAL));
        ensure!(k == 0 && v == 0, "{k} keys and {v} values were never released");
        if let Some(e) = tok::error() {
            return Err(e);
        }
    }
    if s.big {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C03";
    const RULE: &'static str = "Histories as for C01 (incrementally built and bulk loaded), then into_iter of the tree, a clone of it, or the set is driven by random scripts (both ends, nth, early drop, exhaustion); items compared with the model by rank, ownership tokens count what is still alive. Non-trivial: a collection of more than one leaf (>64 entries) was consumed.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 4, classes(tier, 16000, 10000, 7000, 2600, 1200, 30))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen { variants: 7, specials: &[(SP0, 12)], densities: &[0, 8, 40], ..HistGen::default() },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Tree<u32, u64>>(case, cx, false),
            1 => go::<KTok, VTok, Tree<KTok, VTok>>(case, cx, true),
            2 => go::<KTok, (), BPlusTreeSet<KTok>>(case, cx, true),
            3 => go::<String, (), BPlusTreeSet<String>>(case, cx, false),
            4 => go::<Wide, Box<u64>, Tree<Wide, Box<u64>>>(case, cx, false),
            5 => go::<u32, (), BPlusTreeSet<u32>>(case, cx, false),
            _ => go::<Al, AlV, Tree<Al, AlV>>(case, cx, false),
        }
    }
}
fn main() {
    runner::main::<P>();
}
