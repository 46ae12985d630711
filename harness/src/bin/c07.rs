//! C07: order statistics against rank and select of the model.

use harness::core::Core;
use harness::dict::Dict;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::{BPlusTree, BPlusTreeMap};

trait Order<K: TKey, V: TVal>: Dict<K, V> {
    fn count(&self) -> usize;
    fn at(&self, i: usize) -> Option<(&K, &V)>;
    fn at_mut(&mut self, i: usize) -> Option<&mut V>;
    fn take(&mut self, i: usize) -> Option<(K, V)>;
    fn rank(&self, k: &K) -> Result<usize, usize>;
}
macro_rules! order {
    ($t:ident) => {
        fn count(&self) -> usize {
            $t::root_augmentation(self).count()
        }
        fn at(&self, i: usize) -> Option<(&K, &V)> {
            $t::get_by_augmentation(self, i)
        }
        fn at_mut(&mut self, i: usize) -> Option<&mut V> {
            $t::get_mut_by_augmentation(self, i)
        }
        fn take(&mut self, i: usize) -> Option<(K, V)> {
            $t::remove_by_augmentation(self, i)
        }
        fn rank(&self, k: &K) -> Result<usize, usize> {
            $t::rank_by_augmentation(self, k)
        }
    };
}
impl<K: TKey, V: TVal> Order<K, V> for Tree<K, V, Count> {
    order!(BPlusTree);
}
impl<K: TKey, V: TVal> Order<K, V> for BPlusTreeMap<K, V, Count> {
    order!(BPlusTreeMap);
}

struct S<K, V, D> {
    core: Core<K, V, D>,
    by_pos: u64,
}

impl<K: TKey, V: TVal, D: Order<K, V>> S<K, V, D> {
    fn pos(&self, m: &Model, i: usize) -> R {
        let want = m.select(i);
        match (self.core.d.at(i), want) {
            (None, None) => Ok(()),
            (Some((k, v)), Some(x)) if k.ix() == x && v.is(m.get(x).unwrap()) => Ok(()),
            (g, w) => Err(format!("position {i} of {} holds {g:?}, should be key {w:?}", m.len())),
        }
    }
    fn key(&self, m: &Model, x: u32) -> R {
        let want = if m.get(x).is_some() { Ok(m.rank(x)) } else { Err(m.rank(x)) };
        let got = self.core.d.rank(&K::of(x));
        ensure!(got == want, "rank of key {x} is {got:?}, should be {want:?}");
        Ok(())
    }
    fn take(&mut self, h: &mut Hist, i: usize) -> R {
        let len = h.m.len();
        let want = h.m.select(i);
        let got = self.core.d.take(i);
        match (&got, want) {
            (None, None) => {}
            (Some((k, v)), Some(x)) if k.ix() == x && v.is(h.m.get(x).unwrap()) => {}
            _ => return Err(format!("removing position {i} of {len} gave {got:?}, should be key {want:?}")),
        }
        if let Some(x) = want {
            h.m.remove(x);
            h.last = x;
            self.by_pos += 1;
        }
        h.steps += 1;
        self.core.len(h.m.len())?;
        ensure!(self.core.d.count() == h.m.len(), "root count is {}, should be {}", self.core.d.count(), h.m.len());
        if h.rng.below(6) == 0 {
            let l = h.last;
            self.probe(&h.m, l, &mut h.rng)?;
        }
        Ok(())
    }
    fn put(&mut self, h: &mut Hist, i: usize) -> R {
        let want = h.m.select(i);
        let vid = h.next_vid();
        match (self.core.d.at_mut(i), want) {
            (None, None) => {}
            (Some(v), Some(x)) if v.is(h.m.get(x).unwrap()) => {
                v.put(vid);
                h.m.set(x, vid);
            }
            (g, w) => return Err(format!("mutable access at position {i} gave {g:?}, should be key {w:?}")),
        }
        h.steps += 1;
        Ok(())
    }
}

impl<K: TKey, V: TVal, D: Order<K, V>> Sink for S<K, V, D> {
    steps_via!(core);
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        ensure!(self.core.d.count() == m.len(), "root count is {}, should be {}", self.core.d.count(), m.len());
        for _ in 0..rng.range(1, 4) {
            let i = match rng.below(6) {
                0 => m.len() + rng.below(3),
                1 => 0,
                2 => m.len().saturating_sub(1),
                3 => (m.rank(last) + rng.below(5)).saturating_sub(2),
                _ => rng.below(m.len() + 1),
            };
            self.pos(m, i)?;
            self.key(m, Hist::interesting(m, last, rng))?;
        }
        match rng.below(16) {
            0 => self.core.probe(m, last, rng)?,
            1 => {
                for i in [usize::MAX, usize::MAX / 2, m.len()] {
                    self.pos(m, i)?;
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.core.len(m.len())?;
        ensure!(self.core.d.count() == m.len(), "root count is {}, should be {}", self.core.d.count(), m.len());
        let step = if m.dom() > 20_000 { 7 } else { 1 };
        let mut i = rng.below(step);
        while i < m.len() + 3 {
            self.pos(m, i)?;
            i += step;
        }
        let mut x = rng.below(step);
        while x < m.dom() {
            self.key(m, x as u32)?;
            x += step;
        }
        // position and rank are inverse, on the collection alone
        for i in 0..m.len().min(200) {
            let i = if m.len() > 200 { rng.below(m.len()) } else { i };
            let k = self.core.d.at(i).ok_or("no entry at a position below the length")?.0;
            ensure!(self.core.d.rank(k) == Ok(i), "rank of the key at position {i} is {:?}", self.core.d.rank(k));
        }
        Ok(())
    }
    fn special(&mut self, h: &mut Hist, op: &Op) -> R {
        let n = match op.ub() % 5 {
            0 => h.m.len(),
            1 => h.m.len().saturating_sub(op.ub() / 5 % 70),
            _ => op.ub() / 5 % (h.m.len() / 2 + 10),
        };
        match op.c {
            SP0 => {
                // runs of removals by position
                let at = op.ud();
                for j in 0..n {
                    let len = h.m.len();
                    let i = match op.ua() % 7 {
                        0 => 0,
                        1 => len.saturating_sub(1),
                        2 => h.rng.below(len + 1),
                        3 => at % (len + 1),
                        4 => (at % 3 + 1) * j % (len + 1),
                        5 => len / 2,
                        _ => (at % 64).min(len),
                    };
                    self.take(h, i)?;
                }
            }
            SP1 => {
                for _ in 0..n.min(400) {
                    let i = h.rng.below(h.m.len() + 2);
                    self.put(h, i)?;
                }
            }
            _ => {
                // mixed: by position, by key
                for _ in 0..n.min(3000) {
                    match h.rng.below(5) {
                        0 | 1 => {
                            let i = h.rng.below(h.m.len() + 1);
                            self.take(h, i)?
                        }
                        2 => {
                            let i = h.rng.below(h.m.len() + 1);
                            self.put(h, i)?
                        }
                        _ => {
                            let x = h.rng.below(h.m.dom()) as u32;
                            h.insert(self, x)?
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn go<K: TKey, V: TVal, D: Order<K, V>>(case: &Case, cx: &mut Cx) -> R {
    let mut s = S { core: Core::<K, V, D>::new(D::new()), by_pos: 0 };
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(3))?;
    if s.by_pos > 0 {
        cx.label("removals by position");
    }
    if h.max_n > 64 && (s.by_pos > 0 || s.core.removals) {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C07";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) on trees and maps with the counting augmentation, with runs of removals by position and edits by position; entry at a position, rank of a key (present and absent), out-of-range positions and the root count compared with rank/select of the model after steps and for every position and key at checkpoints. Non-trivial: more than one leaf (>64 entries) and a removal by key or position.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 10, classes(tier, 26000, 13000, 9000, 4500, 2200, 40))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 5,
                specials: &[(SP0, 10), (SP1, 3), (SP2, 5)],
                densities: &[8, 32, 256],
                ..HistGen::default()
            },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Tree<u32, u64, Count>>(case, cx),
            1 => go::<u32, u64, BPlusTreeMap<u32, u64, Count>>(case, cx),
            2 => go::<String, String, Tree<String, String, Count>>(case, cx),
            3 => go::<Wide, u8, BPlusTreeMap<Wide, u8, Count>>(case, cx),
            _ => go::<(u32, u32), (), Tree<(u32, u32), (), Count>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
