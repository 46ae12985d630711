//! C13: clones, each with a model of its own.

use harness::core::Core;
use harness::dict::Dict;
use harness::folds::*;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::seg::Seg;
use harness::tok::{self, KTok, VTok};
use harness::walk::{dfs, At, Node};
use harness::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::BPlusTree;

/// a summary the model predicts
trait Sum<K: TKey, V: TVal>: Augmentation<K, V> {
    fn right(&self, m: &Model) -> R;
}
impl<K: TKey, V: TVal> Sum<K, V> for () {
    fn right(&self, _: &Model) -> R {
        Ok(())
    }
}
impl<K: TKey, V: TVal> Sum<K, V> for Count {
    fn right(&self, m: &Model) -> R {
        ensure!(self.count() == m.len(), "the summary counts {} of {} entries", self.count(), m.len());
        Ok(())
    }
}
macro_rules! known {
    ($($t:ty),*) => {$(
        impl<K: TKey, V: TVal + Vid> Sum<K, V> for $t {
            fn right(&self, m: &Model) -> R {
                let e: Vec<(u32, u64)> = m.entries().into_iter().map(|(x, v)| (x, V::norm(v))).collect();
                let want = <$t as Known<K, V>>::of_model(m, &Seg::from(m.dom(), &e));
                ensure!(
                    <$t as Known<K, V>>::same(self, &want),
                    "the summary is {self:?}, should be {want:?}"
                );
                Ok(())
            }
        }
    )*};
}
known!(Fold, HeapFold, List);

struct S<K: TKey, V: TVal, A: Sum<K, V>> {
    core: Core<K, V, Tree<K, V, A>>,
    others: Vec<(Core<K, V, Tree<K, V, A>>, Model)>,
    made: u64,
    diverged: bool,
}

impl<K: TKey, V: TVal, A: Sum<K, V>> S<K, V, A> {
    fn one(c: &mut Core<K, V, Tree<K, V, A>>, m: &Model, rng: &mut Rng) -> R {
        c.check(m, rng)?;
        BPlusTree::root_augmentation(&c.d).right(m)?;
        // what the visitor sees and both directions of iteration
        let want = m.entries();
        let mut i = want.len();
        for (k, v) in c.d.iter().rev() {
            i = i.wrapping_sub(1);
            ensure!(
                i < want.len() && k.ix() == want[i].0 && v.is(want[i].1),
                "entry {i} of the reverse iteration is {k:?} {v:?}, should be {:?}",
                want.get(i)
            );
        }
        ensure!(i == 0, "the reverse iteration lacks {i} entries");
        if want.len() < 3000 {
            let d = &c.d;
            let mut i = 0;
            dfs::<K, V, A>(&|p| d.descend_visit(At::new(p)), &mut |_, n| {
                if let Node::Leaf { keys, values } = n {
                    for (k, v) in keys.iter().zip(values) {
                        ensure!(
                            i < want.len() && k.ix() == want[i].0 && v.is(want[i].1),
                            "entry {i} shown to the visitor is {k:?} {v:?}"
                        );
                        i += 1;
                    }
                }
                Ok(())
            })?;
            ensure!(i == want.len(), "visitors see {i} of {} entries", want.len());
        }
        if let Some(e) = tok::error() {
            return Err(e);
        }
        Ok(())
    }
    fn everyone(&mut self, m: &Model, rng: &mut Rng) -> R {
        Self::one(&mut self.core, m, rng)?;
        for (i, (c, m)) in self.others.iter_mut().enumerate() {
            Self::one(c, m, rng).map_err(|e| format!("resting copy {i}: {e}"))?;
        }
        Ok(())
    }
    fn copy(&mut self, m: &Model, rng: &mut Rng, how: usize) -> R {
        let d = &self.core.d;
        let c = if how % 4 == 3 && self.others.len() > 1 {
            // over another tree
            let (mut old, _) = self.others.swap_remove(how / 4 % self.others.len());
            old.d.clone_from(d);
            old
        } else {
            Core::new(d.clone())
        };
        self.made += 1;
        if c.d.len() < 5000 || how % 8 == 0 {
            let mut c = c;
            c.check(m, rng).map_err(|e| format!("right after cloning, the copy: {e}"))?;
            BPlusTree::root_augmentation(&c.d).right(m).map_err(|e| format!("right after cloning: {e}"))?;
            self.others.push((c, m.clone()));
        } else {
            c.len(m.len())?;
            self.others.push((c, m.clone()));
        }
        if self.others.len() > 4 {
            self.others.remove(0);
        }
        Ok(())
    }
}

impl<K: TKey, V: TVal, A: Sum<K, V>> Sink for S<K, V, A> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.diverged |= !self.others.is_empty();
        self.core.insert(m, x, vid)
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        self.diverged |= !self.others.is_empty();
        self.core.remove(m, x)
    }
    fn clear(&mut self, m: &Model) -> R {
        self.core.clear(m)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        self.core.rebuild(m, mode)
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.core.probe(m, last, rng)?;
        let n = self.others.len();
        if n > 0 {
            // the same key in a resting copy
            let (c, m) = &mut self.others[rng.below(n)];
            c.read(m, last, rng.below(4)).map_err(|e| format!("in a resting copy: {e}"))?;
            c.probe(m, last, rng).map_err(|e| format!("in a resting copy: {e}"))?;
        }
        Ok(())
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        Self::one(&mut self.core, m, rng)?;
        if !self.others.is_empty() {
            let i = rng.below(self.others.len());
            let (c, m) = &mut self.others[i];
            Self::one(c, m, rng).map_err(|e| format!("resting copy {i}: {e}"))?;
        }
        Ok(())
    }
    fn special(&mut self, h: &mut Hist, o: &Op) -> R {
        let m = h.m.clone();
        match o.c {
            SP0 => self.copy(&m, &mut h.rng, o.ua()),
            // go on with another one
            SP1 => {
                if self.others.is_empty() {
                    return Ok(());
                }
                let i = o.ua() % self.others.len();
                std::mem::swap(&mut self.core, &mut self.others[i].0);
                std::mem::swap(&mut h.m, &mut self.others[i].1);
                self.core.len(h.m.len())
            }
            // one goes, in some way; the others do not notice
            SP2 => {
                if self.others.is_empty() {
                    return Ok(());
                }
                let i = o.ua() % self.others.len();
                let (mut c, om) = self.others.remove(i);
                match o.ub() % 4 {
                    0 => drop(c),
                    1 => {
                        c.clear(&om)?;
                        let e = Model::new(om.dom());
                        Self::one(&mut c, &e, &mut h.rng)?;
                        self.others.push((c, e));
                    }
                    2 => {
                        let k = h.rng.below(om.len() + 1);
                        let want = om.entries();
                        for (i, (k, v)) in c.d.into_iter().take(k).enumerate() {
                            ensure!(
                                k.ix() == want[i].0 && v.is(want[i].1),
                                "entry {i} of a consumed copy is {k:?} {v:?}"
                            );
                        }
                    }
                    _ => {
                        // emptied one by one
                        let mut om = om;
                        for _ in 0..om.len().min(700) {
                            let x = om.select(h.rng.below(om.len())).unwrap();
                            c.remove(&om, x)?;
                            om.remove(x);
                        }
                        self.others.push((c, om));
                    }
                }
                self.everyone(&m, &mut h.rng)
            }
            // warm one leaf, copy, and change that neighbourhood in one of the two
            _ => {
                let x = Hist::interesting(&h.m, h.last, &mut h.rng);
                self.core.read(&h.m, x, o.ub() % 4)?;
                self.copy(&m, &mut h.rng, 0)?;
                if o.ud() % 2 == 0 {
                    let l = self.others.len() - 1;
                    std::mem::swap(&mut self.core, &mut self.others[l].0);
                }
                let n = h.rng.range(1, 130);
                let r = h.m.rank(x).saturating_sub(h.rng.below(n));
                let spread = h.rng.range(1, 4);
                for i in 0..n {
                    if o.ua() % 2 == 0 {
                        match h.m.select(r) {
                            Some(y) => h.remove(self, y)?,
                            None => break,
                        }
                    } else {
                        let y = (x as usize + i * spread) % h.m.dom();
                        h.insert(self, y as u32)?;
                    }
                    if i % 16 == 0 {
                        let (c, m) = self.others.last_mut().unwrap();
                        c.read(m, x, i / 16 % 4).map_err(|e| format!("in the copy left alone: {e}"))?;
                        let m = h.m.clone();
                        self.core.read(&m, x, i / 16 % 2)?;
                    }
                }
                let m = h.m.clone();
                self.everyone(&m, &mut h.rng)
            }
        }
    }
}

fn go<K: TKey, V: TVal, A: Sum<K, V>>(case: &Case, cx: &mut Cx) -> R {
    tok::reset();
    let mut s: S<K, V, A> = S {
        core: Core::new(<Tree<K, V, A> as Dict<K, V>>::new()),
        others: vec![],
        made: 0,
        diverged: false,
    };
    let h = run_hist(case, &mut s, cx)?;
    let mut rng = Rng::new(case.param(1) as u64);
    s.everyone(&h.m, &mut rng)?;
    if rng.bool() {
        // the original goes first
        s.core.d = <Tree<K, V, A> as Dict<K, V>>::new();
        let m = Model::new(h.m.dom());
        s.everyone(&m, &mut rng)?;
    }
    let (made, div) = (s.made, s.diverged);
    drop(s);
    if let Some(e) = tok::error() {
        return Err(e);
    }
    if made > 1 {
        cx.label("several clones");
    }
    if h.max_n > 64 && made > 0 && div {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C13";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) on a tree together with up to four clones of it taken at any point (clone and clone_from), each with a model of its own: the active one is switched, the resting ones are read, cleared, consumed, drained or dropped, leaves are warmed right before cloning; contents, both iteration directions, visits, length and summary of all are compared. Plain, counting, hashing, heap-owning and listing summaries, token keys and values. Non-trivial: more than one leaf (>64 entries), a clone, and changes after it.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 4, classes(tier, 10000, 4000, 3000, 1000, 360, 8))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 8,
                specials: &[(SP0, 12), (SP1, 8), (SP2, 8), (SP3, 12)],
                touch: false,
                ..HistGen::default()
            },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, ()>(case, cx),
            1 => go::<u32, u64, Fold>(case, cx),
            2 => go::<String, String, HeapFold>(case, cx),
            3 if case.params[0] < 3000 => go::<u64, u64, List>(case, cx),
            4 => go::<KTok, VTok, Fold>(case, cx),
            5 => go::<KTok, VTok, ()>(case, cx),
            6 => go::<Wide, [u64; 5], Count>(case, cx),
            _ => go::<Box<u32>, Box<u64>, Count>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
