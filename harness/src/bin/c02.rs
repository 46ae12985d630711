//! C02: borrowing iterators of tree, map and set.

use harness::core::Core;
use harness::dict::Dict;
use harness::hist::Hist;
use harness::iterx::script;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::*;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::{BPlusTreeMap, BPlusTreeSet};

trait Iterate {
    fn drive(&self, m: &Model, cap: usize, rng: &mut Rng) -> R;
}

fn want(m: &Model, i: usize) -> (u32, u64) {
    let x = m.select(i).unwrap();
    (x, m.get(x).unwrap())
}

impl<K: TKey, V: TVal, A: Augmentation<K, V>> Iterate for Tree<K, V, A> {
    fn drive(&self, m: &Model, cap: usize, rng: &mut Rng) -> R {
        let ok = |e: &(&K, &V), i: usize| {
            let (x, v) = want(m, i);
            e.0.ix() == x && e.1.is(v)
        };
        script(self.iter(), m.len(), cap, rng, &ok, Some(&|it| it.clone()))
    }
}
impl<K: TKey, V: TVal, A: Augmentation<K, V>> Iterate for BPlusTreeMap<K, V, A> {
    fn drive(&self, m: &Model, cap: usize, rng: &mut Rng) -> R {
        let ok = |e: &(&K, &V), i: usize| {
            let (x, v) = want(m, i);
            e.0.ix() == x && e.1.is(v)
        };
        script(self.iter(), m.len(), cap, rng, &ok, None)
    }
}
impl<K: TKey> Iterate for BPlusTreeSet<K> {
    fn drive(&self, m: &Model, cap: usize, rng: &mut Rng) -> R {
        let ok = |e: &&K, i: usize| e.ix() == m.select(i).unwrap();
        if m.len() < 500 || rng.pct(2) {
            // order of the keys themselves, over a part of the range
            let (a, b) = (rng.below(m.len() + 2), rng.below(m.len() + 2));
            let mut it = self.iter();
            (0..a).for_each(|_| drop(it.next()));
            (0..b).for_each(|_| drop(it.next_back()));
            let (lo, hi) = (a.min(m.len()), m.len() - b.min(m.len()));
            let w = |i: usize| if lo < hi { m.select(i) } else { None };
            let (l, h) = (it.clone().min().map(|k| k.ix()), it.clone().max().map(|k| k.ix()));
            ensure!(l == w(lo), "min() of the iterator from {lo} to {hi} is {l:?}, should be {:?}", w(lo));
            ensure!(h == w(hi.max(1) - 1), "max() of the iterator from {lo} to {hi} is {h:?}");
            ensure!(it.is_sorted(), "the iterator from {lo} to {hi} is not sorted");
        }
        script(self.iter(), m.len(), cap, rng, &ok, Some(&|it| it.clone()))
    }
}

struct S<K, V, D> {
    core: Core<K, V, D>,
    big: bool,
}

impl<K: TKey, V: TVal, D: Dict<K, V> + Iterate> Sink for S<K, V, D> {
    steps_via!(core);
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        if rng.below(4) == 0 {
            return self.core.probe(m, last, rng);
        }
        self.core.d.drive(m, 6, rng)
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        let times = if m.len() < 3000 { 3 } else { 1 };
        self.big |= m.len() > 64;
        for _ in 0..times {
            self.core.d.drive(m, usize::MAX, rng)?;
        }
        Ok(())
    }
    fn special(&mut self, h: &mut Hist, _op: &Op) -> R {
        self.big |= h.m.len() > 64;
        self.core.d.drive(&h.m, usize::MAX, &mut h.rng)
    }
}

fn go<K: TKey, V: TVal, D: Dict<K, V> + Iterate>(case: &Case, cx: &mut Cx) -> R {
    let mut s = S { core: Core::<K, V, D>::new(D::new()), big: false };
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(case.param(1) as u64))?;
    if s.core.removals {
        cx.label("removals");
    }
    if s.big {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C02";
    const RULE: &'static str = "Histories as for C01; at checkpoints random iterator scripts (front/back mixes, runs, nth, partial consumption, copies, exhaustion, adaptors) on Tree/Map/Set::iter, every step compared with the model by rank, len and size_hint checked after every step. Non-trivial: a full script ran over a collection of more than one leaf (>64 entries).";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 4, classes(tier, 20000, 12000, 8000, 3000, 1400, 40))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen { variants: 8, specials: &[(SP0, 12)], densities: &[0, 8, 40], ..HistGen::default() },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Tree<u32, u64>>(case, cx),
            1 => go::<u32, u64, BPlusTreeMap<u32, u64>>(case, cx),
            2 => go::<String, String, Tree<String, String>>(case, cx),
            3 => go::<u32, (), BPlusTreeSet<u32>>(case, cx),
            4 => go::<String, (), BPlusTreeSet<String>>(case, cx),
            5 => go::<Wide, AlV, BPlusTreeMap<Wide, AlV>>(case, cx),
            6 => go::<Al, (), Tree<Al, ()>>(case, cx),
            _ => go::<(u32, u32), u8, Tree<(u32, u32), u8>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
