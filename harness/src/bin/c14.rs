//! C14: the set against the model set.

use harness::core::Core;
use harness::dict::Dict;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::*;
use sweep_bptree::BPlusTreeSet;

struct S<K: TKey> {
    core: Core<K, (), BPlusTreeSet<K>>,
}

impl<K: TKey> Sink for S<K> {
    steps_via!(core);
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.core.probe(m, last, rng)
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.core.check(m, rng)?;
        // both directions, as a whole
        let want: Vec<u32> = m.entries().into_iter().map(|x| x.0).collect();
        let up: Vec<u32> = self.core.d.iter().take(m.len() + 2).map(|k| k.ix()).collect();
        ensure!(up == want, "iteration differs: {} keys, should be {}", up.len(), want.len());
        let mut down: Vec<u32> = self.core.d.iter().rev().take(m.len() + 2).map(|k| k.ix()).collect();
        down.reverse();
        ensure!(down == want, "reverse iteration differs: {} keys, should be {}", down.len(), want.len());
        ensure!(self.core.d.iter().len() == want.len(), "iter().len() is wrong");
        Ok(())
    }
    fn special(&mut self, h: &mut Hist, op: &Op) -> R {
        // collect a sequence with repetitions in some order
        let n = op.ua() % (h.m.dom() + 1);
        let mut xs: Vec<u32> = (0..n).map(|_| h.rng.below(h.m.dom()) as u32).collect();
        match op.ub() % 3 {
            0 => xs.sort(),
            1 => {
                xs.sort();
                xs.reverse()
            }
            _ => {}
        }
        let mut m = Model::new(h.m.dom());
        for x in &xs {
            m.set(*x, 0);
        }
        self.core.d = if op.ud() % 2 == 0 {
            xs.into_iter().map(K::of).collect()
        } else {
            BPlusTreeSet::from_iter(xs.into_iter().map(K::of))
        };
        h.m = m;
        h.max_n = h.max_n.max(h.m.len());
        self.core.len(h.m.len())?;
        if h.m.len() < 4000 {
            self.check(&h.m.clone(), &mut h.rng)?;
        }
        Ok(())
    }
}

fn go<K: TKey>(case: &Case, cx: &mut Cx) -> R {
    let d = if case.param(1) % 2 == 0 { BPlusTreeSet::default() } else { <BPlusTreeSet<K> as Dict<K, ()>>::new() };
    let mut s = S { core: Core::<K, (), _>::new(d) };
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(3))?;
    let left: Vec<u32> = std::mem::take(&mut s.core.d).into_iter().map(|k| k.ix()).collect();
    let want: Vec<u32> = h.m.entries().into_iter().map(|x| x.0).collect();
    ensure!(left == want, "consuming the set gave {} keys, should be {}", left.len(), want.len());
    if h.max_n > 64 && s.core.removals {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C14";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) on BPlusTreeSet for seven key types, with collect() of sequences with repetitions in sorted, reversed and random order in between; every result compared with the model set, full membership, first/last and both iteration directions at checkpoints. Non-trivial: more than one leaf (>64 keys) and removals of present keys.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 6, classes(tier, 30000, 16000, 12000, 6000, 3200, 60))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen { variants: 7, specials: &[(SP0, 3)], touch: false, ..HistGen::default() },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32>(case, cx),
            1 => go::<String>(case, cx),
            2 => go::<Wide>(case, cx),
            3 => go::<Al>(case, cx),
            4 => go::<Box<u32>>(case, cx),
            5 => go::<i64>(case, cx),
            _ => go::<(u32, u32)>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
