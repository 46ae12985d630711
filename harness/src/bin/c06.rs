//! C06: summaries at the root and at every child equal the recomputation.

use harness::core::Core;
use harness::dict::Dict;
use harness::folds::*;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::seg::Seg;
use harness::walk::{dfs, At, Node};
use harness::*;
use sweep_bptree::{BPlusTree, BPlusTreeMap};

trait Aug<K: TKey, V: TVal, A: Known<K, V>>: Dict<K, V>
where
    V: Vid,
{
    fn root(&self) -> &A;
    fn at(&self, path: &[usize]) -> Option<Node<K, V, A>>;
    fn take_at(&mut self, i: usize) -> Option<(K, V)>;
    /// mutable access by position that leaves the value alone
    fn look_at(&mut self, i: usize) -> Option<V>;
}
macro_rules! aug {
    ($t:ident) => {
        fn root(&self) -> &A {
            $t::root_augmentation(self)
        }
        fn at(&self, path: &[usize]) -> Option<Node<K, V, A>> {
            $t::descend_visit(self, At::new(path))
        }
        fn take_at(&mut self, i: usize) -> Option<(K, V)> {
            $t::remove_by_augmentation(self, i)
        }
        fn look_at(&mut self, i: usize) -> Option<V> {
            $t::get_mut_by_augmentation(self, i).map(|v| v.clone())
        }
    };
}
impl<K: TKey, V: TVal + Vid, A: Known<K, V>> Aug<K, V, A> for Tree<K, V, A> {
    aug!(BPlusTree);
}
impl<K: TKey, V: TVal + Vid, A: Known<K, V>> Aug<K, V, A> for BPlusTreeMap<K, V, A> {
    aug!(BPlusTreeMap);
}

struct S<K, V, D, A> {
    core: Core<K, V, D>,
    seg: Seg,
    inner_seen: u64,
    deep: bool,
    _a: std::marker::PhantomData<A>,
}

impl<K: TKey, V: TVal + Vid, D: Aug<K, V, A>, A: Known<K, V>> S<K, V, D, A> {
    fn root(&self, m: &Model) -> R {
        let got = self.core.d.root();
        let want = A::of_model(m, &self.seg);
        ensure!(got.same(&want), "root summary of {} entries is {got:?}, should be {want:?}", m.len());
        if m.is_empty() {
            ensure!(got.same(&A::default()), "the summary of an empty tree is not the default one");
        }
        Ok(())
    }
    fn of_node(n: &Node<K, V, A>) -> A {
        match n {
            Node::Inner { keys, augs } => A::from_inner(keys, augs),
            Node::Leaf { keys, values } => A::from_leaf(keys, values),
        }
    }
    /// follow one random path; each summary shown must be that of the node below
    fn one_path(&mut self, m: &Model, rng: &mut Rng) -> R {
        let mut path = vec![];
        let mut want = self.core.d.root().clone();
        loop {
            let n = self.core.d.at(&path).ok_or("a visit gave nothing")?;
            let got = Self::of_node(&n);
            if !(m.is_empty() && path.is_empty()) {
                ensure!(
                    got.same(&want),
                    "the summary shown for path {path:?} is {want:?}, but the node there holds {got:?}"
                );
            }
            match n {
                Node::Leaf { .. } => return Ok(()),
                Node::Inner { augs, .. } => {
                    self.inner_seen += 1;
                    let i = match rng.below(4) {
                        0 => 0,
                        1 => augs.len() - 1,
                        _ => rng.below(augs.len()),
                    };
                    want = augs[i].clone();
                    path.push(i);
                }
            }
        }
    }
    /// all nodes: entries in order, and every child summary
    fn everything(&mut self, m: &Model) -> R {
        let entries = m.entries();
        let mut i = 0;
        let mut shown: Vec<A> = vec![];
        let mut deep = 0;
        let d = &self.core.d;
        let root = d.root().clone();
        dfs(&|p| d.at(p), &mut |p, n| {
            deep = deep.max(p.len());
            let got = Self::of_node(n);
            let want = if p.is_empty() {
                root.clone()
            } else {
                shown.pop().ok_or("visited more children than there are summaries")?
            };
            ensure!(
                got.same(&want) || (entries.is_empty() && p.is_empty()),
                "the summary shown for path {p:?} is {want:?}, but the node there holds {got:?}"
            );
            match n {
                Node::Inner { augs, .. } => shown.extend(augs.iter().rev().cloned()),
                Node::Leaf { keys, values } => {
                    for (k, v) in keys.iter().zip(values) {
                        ensure!(
                            i < entries.len() && entries[i].0 == k.ix() && v.is(entries[i].1),
                            "leaf at {p:?} shows {k:?} {v:?} as entry {i}, should be {:?}",
                            entries.get(i)
                        );
                        i += 1;
                    }
                }
            }
            Ok(())
        })?;
        ensure!(i == entries.len(), "the leaves hold {i} entries of {}", entries.len());
        self.deep |= deep >= 2;
        self.inner_seen += deep as u64;
        Ok(())
    }
}

impl<K: TKey, V: TVal + Vid, D: Aug<K, V, A>, A: Known<K, V>> Sink for S<K, V, D, A> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.seg.set(x, Some(V::norm(vid)));
        self.core.insert(m, x, vid)
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        self.seg.set(x, None);
        self.core.remove(m, x)
    }
    fn clear(&mut self, m: &Model) -> R {
        self.seg = Seg::new(m.dom());
        self.core.clear(m)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        self.core.rebuild(m, mode)
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.root(m)?;
        self.one_path(m, rng)?;
        match rng.below(12) {
            0 => self.core.probe(m, last, rng)?,
            1 if m.len() < 200 => self.everything(m)?,
            _ => {}
        }
        Ok(())
    }
    fn check(&mut self, m: &Model, _rng: &mut Rng) -> R {
        self.core.len(m.len())?;
        self.root(m)?;
        self.everything(m)
    }
    fn special(&mut self, h: &mut Hist, op: &Op) -> R {
        // removals by position
        let n = op.ub() % (h.m.len() / 2 + 8);
        let front = op.ua() % 3;
        for _ in 0..n {
            let len = h.m.len();
            let i = match front {
                0 => op.ud() % (len + 1),
                1 => h.rng.below(len + 1),
                _ => len.saturating_sub(1),
            };
            let want = h.m.select(i);
            if h.rng.below(4) == 0 {
                let got = self.core.d.look_at(i);
                Core::<K, V, D>::same(got.as_ref(), want.and_then(|x| h.m.get(x)), "look at position", i as u32)?;
            }
            let got = self.core.d.take_at(i);
            match (&got, want) {
                (None, None) => {}
                (Some((k, v)), Some(x)) if k.ix() == x && v.is(h.m.get(x).unwrap()) => {}
                _ => return Err(format!("removing position {i} of {len} gave {got:?}, should be key {want:?}")),
            }
            if let Some(x) = want {
                self.seg.set(x, None);
                h.m.remove(x);
                h.last = x;
            }
            h.steps += 1;
            if h.rng.below(8) == 0 {
                self.root(&h.m)?;
                self.one_path(&h.m, &mut h.rng)?;
            }
        }
        self.root(&h.m)
    }
}

fn go<K: TKey, V: TVal + Vid, D: Aug<K, V, A>, A: Known<K, V>>(case: &Case, cx: &mut Cx) -> R {
    let dom = case.param(0).clamp(1, 1 << 22) as usize;
    let mut s: S<K, V, D, A> =
        S { core: Core::new(D::new()), seg: Seg::new(dom), inner_seen: 0, deep: false, _a: Default::default() };
    s.root(&Model::new(dom))?;
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(3))?;
    if s.inner_seen > 0 && (s.core.removals || s.core.overwrites) {
        cx.nontrivial();
    }
    if s.deep {
        cx.label("summaries checked over 3 levels");
    }
    if s.core.overwrites {
        cx.label("values overwritten");
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C06";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) (inserts, overwrites, removals by key and by position, bulk loads, clears) with four augmentations that are order-sensitive folds over keys and values (a hash with count, weight and maximum; one that owns heap memory; the list of all entries itself); the root summary compared with a segment tree over the model, every child summary with the node below it, along random paths after steps and over the whole tree at checkpoints. Non-trivial: child summaries of inner nodes were checked in a history with overwrites or removals.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 4, classes(tier, 12000, 6000, 4000, 1500, 700, 20))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        let mut c = gen_hist(
            rng,
            stage,
            &HistGen { variants: 6, specials: &[(SP0, 8)], touch: false, densities: &[8, 64, 256], ..HistGen::default() },
        );
        // the list of all entries is affordable in small trees only
        if matches!(stage, "medium" | "large" | "huge") && matches!(c.params[3], 4 | 5) {
            c.params[3] -= 4;
        }
        c
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Tree<u32, u64, Fold>, Fold>(case, cx),
            1 => go::<u32, u64, BPlusTreeMap<u32, u64, HeapFold>, HeapFold>(case, cx),
            2 => go::<String, String, Tree<String, String, HeapFold>, HeapFold>(case, cx),
            3 => go::<Wide, [u64; 5], BPlusTreeMap<Wide, [u64; 5], Fold>, Fold>(case, cx),
            4 => go::<u32, u64, Tree<u32, u64, List>, List>(case, cx),
            _ => go::<u32, (), Tree<u32, (), List>, List>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
