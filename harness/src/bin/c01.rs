//! C01: maps and trees against the ordered-dictionary model.

use harness::core::Core;
use harness::dict::Dict;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::BPlusTreeMap;

struct S<K, V, D> {
    core: Core<K, V, D>,
}

impl<K: TKey, V: TVal, D: Dict<K, V>> Sink for S<K, V, D> {
    steps_via!(core);
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.core.probe(m, last, rng)
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.core.check(m, rng)
    }
}

fn go<K: TKey, V: TVal, D: Dict<K, V>>(case: &Case, cx: &mut Cx) -> R {
    let mut s = S { core: Core::<K, V, D>::new(D::new()) };
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(3))?;
    if s.core.overwrites {
        cx.label("overwrites");
    }
    if h.max_n > 64 && s.core.removals {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C01";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries; build shapes asc/desc/shuffled/random/middle-out/strided/bulk, then contiguous, thinning, scattered and two-ended removals, gap inserts, churn, overwrites, in-place edits, rebuilds, clears) on map and tree for ten key/value type pairs. Non-trivial: the history grew past one leaf (>64 entries) and removed present keys.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 12, classes(tier, 40000, 20000, 16000, 8000, 4800, 120))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        let mut c = gen_hist(rng, stage, &HistGen { variants: 11, ..HistGen::default() });
        if stage == "giant" {
            c.params[3] = rng.below(2) as i64;
        }
        c
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Tree<u32, u64>>(case, cx),
            1 => go::<u32, u64, BPlusTreeMap<u32, u64>>(case, cx),
            2 => go::<String, String, BPlusTreeMap<String, String>>(case, cx),
            3 => go::<String, u64, Tree<String, u64>>(case, cx),
            4 => go::<Wide, Box<u64>, Tree<Wide, Box<u64>>>(case, cx),
            5 => go::<Al, AlV, BPlusTreeMap<Al, AlV>>(case, cx),
            6 => go::<i64, (), Tree<i64, ()>>(case, cx),
            7 => go::<[u8; 3], [u64; 5], Tree<[u8; 3], [u64; 5]>>(case, cx),
            8 => go::<Box<u32>, u8, BPlusTreeMap<Box<u32>, u8>>(case, cx),
            9 => go::<u64, u64, BPlusTreeMap<u64, u64, Count>>(case, cx),
            _ => go::<(u32, u32), u64, Tree<(u32, u32), u64, Count>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
