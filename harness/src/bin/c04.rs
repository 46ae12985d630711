//! C04: bulk construction against one-by-one insertion (the model), then
//! arbitrary later histories, down to empty.

use harness::core::Core;
use harness::dict::{scramble, Dict};
use harness::hist::{bulk_size, run_ops, Hist};
use harness::kinds::*;
use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet};

/// What a bulk-built collection has to answer besides the dictionary calls.
trait Built<K: TKey, V: TVal>: Dict<K, V> {
    const SORTED_ONLY: bool;
    fn build(items: Vec<(K, V)>, how: usize) -> Self;
    fn order(&self, _m: &Model, _rng: &mut Rng) -> R {
        Ok(())
    }
    /// remove the entry at a position, where that is offered
    fn take_at(&mut self, _i: usize) -> Option<(K, V)> {
        None
    }
    fn positional() -> bool {
        false
    }
}
impl<K: TKey, V: TVal> Built<K, V> for Tree<K, V> {
    const SORTED_ONLY: bool = true;
    fn build(items: Vec<(K, V)>, _: usize) -> Self {
        BPlusTree::bulk_load(items)
    }
}
macro_rules! ordered {
    ($t:ident) => {
        fn order(&self, m: &Model, rng: &mut Rng) -> R {
            let c = $t::root_augmentation(self).count();
            ensure!(c == m.len(), "root count is {c}, should be {}", m.len());
            for i in 0..(m.len() + 2).min(40) {
                let i = if m.len() > 38 { rng.below(m.len() + 2) } else { i };
                let got = $t::get_by_augmentation(self, i);
                let want = m.select(i);
                ensure!(
                    got.map(|(k, _)| k.ix()) == want
                        && got.map_or(true, |(k, v)| v.is(m.get(k.ix()).unwrap())),
                    "entry at position {i} is {got:?}, should be key {want:?}"
                );
                let x = rng.below(m.dom()) as u32;
                let got = $t::rank_by_augmentation(self, &K::of(x));
                let want = if m.get(x).is_some() { Ok(m.rank(x)) } else { Err(m.rank(x)) };
                ensure!(got == want, "rank of key {x} is {got:?}, should be {want:?}");
            }
            Ok(())
        }
        fn take_at(&mut self, i: usize) -> Option<(K, V)> {
            $t::remove_by_augmentation(self, i)
        }
        fn positional() -> bool {
            true
        }
    };
}
impl<K: TKey, V: TVal> Built<K, V> for Tree<K, V, Count> {
    const SORTED_ONLY: bool = true;
    fn build(items: Vec<(K, V)>, _: usize) -> Self {
        BPlusTree::bulk_load(items)
    }
    ordered!(BPlusTree);
}
impl<K: TKey, V: TVal> Built<K, V> for BPlusTreeMap<K, V> {
    const SORTED_ONLY: bool = false;
    fn build(items: Vec<(K, V)>, how: usize) -> Self {
        match how % 2 {
            0 => items.into_iter().collect(),
            // an iterator that knows nothing about its length
            _ => BPlusTreeMap::from_iter(items.into_iter().filter(|_| true)),
        }
    }
}
impl<K: TKey, V: TVal> Built<K, V> for BPlusTreeMap<K, V, Count> {
    const SORTED_ONLY: bool = false;
    fn build(items: Vec<(K, V)>, _how: usize) -> Self {
        items.into_iter().collect()
    }
    ordered!(BPlusTreeMap);
}
impl<K: TKey> Built<K, ()> for BPlusTreeSet<K> {
    const SORTED_ONLY: bool = false;
    fn build(items: Vec<(K, ())>, how: usize) -> Self {
        match how % 2 {
            0 => items.into_iter().map(|x| x.0).collect(),
            _ => BPlusTreeSet::from_iter(items.into_iter().filter(|_| true).map(|x| x.0)),
        }
    }
}

struct S<K, V, D> {
    core: Core<K, V, D>,
    built: usize,
    after: u64,
    dups: bool,
}

impl<K: TKey, V: TVal, D: Built<K, V>> S<K, V, D> {
    /// op SP0: a = number of items, b = (order, repetitions), d = key spacing
    fn build(&mut self, h: &mut Hist, op: &Op) -> R {
        let n = op.ua();
        let (order, reps) = (op.ub() % 5, op.ub() / 5 % 5);
        let dom = h.m.dom();
        let step = op.ud().clamp(1, (dom / n.max(1)).max(1));
        let mut xs: Vec<u32> = (0..n).map(|i| ((i * step) % dom) as u32).collect();
        let distinct = xs.len();
        match reps {
            0 | 1 => {}
            2 => xs.extend((0..distinct / 3 + 1).map(|_| h.rng.below(dom) as u32)),
            3 => {
                // runs of one key
                for _ in 0..h.rng.range(1, 4) {
                    let x = h.rng.below(dom) as u32;
                    for _ in 0..h.rng.pick(&[1usize, 2, 63, 64, 65, 130]) {
                        xs.push(x);
                    }
                }
            }
            _ => {
                let all = xs.clone();
                xs.extend(all);
            }
        }
        if reps >= 2 {
            self.dups = true;
        }
        match order {
            0 => xs.sort(),
            1 => {
                xs.sort();
                xs.reverse()
            }
            2 => scramble(&mut xs, op.ub()),
            3 => {
                xs.sort();
                // nearly sorted
                for _ in 0..xs.len().min(4) {
                    let (i, j) = (h.rng.below(xs.len()), h.rng.below(xs.len()));
                    xs.swap(i, j);
                }
            }
            _ => {}
        }
        if D::SORTED_ONLY {
            xs.sort();
        }
        let mut m = Model::new(dom);
        let mut items = Vec::with_capacity(xs.len());
        for x in xs {
            let vid = h.next_vid();
            m.set(x, vid);
            items.push((K::of(x), V::of(vid)));
        }
        self.core.d = D::build(items, op.ud());
        h.m = m;
        h.max_n = h.max_n.max(h.m.len());
        self.built = self.built.max(h.m.len());
        self.core.len(h.m.len())?;
        self.check(&h.m.clone(), &mut h.rng)
    }
    /// op SP1: remove everything by position, from a pattern of positions
    fn drain_at(&mut self, h: &mut Hist, op: &Op) -> R {
        if !D::positional() {
            return Ok(());
        }
        let mut n = op.ub();
        while !h.m.is_empty() && n > 0 {
            n -= 1;
            let len = h.m.len();
            let i = match op.ua() % 4 {
                0 => 0,
                1 => len - 1,
                2 => h.rng.below(len),
                _ => len / 2,
            };
            let x = h.m.select(i).unwrap();
            let want = h.m.remove(x).unwrap();
            let got = self.core.d.take_at(i);
            ensure!(
                got.as_ref().map_or(false, |(k, v)| k.ix() == x && v.is(want)),
                "removing position {i} gave {got:?}, should be key {x}"
            );
            self.core.len(h.m.len())?;
            self.after += 1;
        }
        Ok(())
    }
}

impl<K: TKey, V: TVal, D: Built<K, V>> Sink for S<K, V, D> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.after += 1;
        self.core.insert(m, x, vid)
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        self.after += 1;
        self.core.remove(m, x)
    }
    fn touch(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.core.touch(m, x, vid)
    }
    fn clear(&mut self, m: &Model) -> R {
        self.core.clear(m)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        let mut items: Vec<(K, V)> = m.entries().into_iter().map(|(x, v)| (K::of(x), V::of(v))).collect();
        if !D::SORTED_ONLY && mode & 1 == 1 {
            scramble(&mut items, mode);
        }
        self.core.d = D::build(items, mode);
        self.built = self.built.max(m.len());
        self.core.len(m.len())
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.core.probe(m, last, rng)
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.core.check(m, rng)?;
        self.core.d.order(m, rng)
    }
    fn special(&mut self, h: &mut Hist, op: &Op) -> R {
        match op.c {
            SP0 => self.build(h, op),
            _ => self.drain_at(h, op),
        }
    }
}

fn go<K: TKey, V: TVal, D: Built<K, V>>(case: &Case, cx: &mut Cx) -> R {
    let mut s = S { core: Core::<K, V, D>::new(D::new()), built: 0, after: 0, dups: false };
    let mut h = Hist::new(case);
    run_ops(&mut h, case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(3))?;
    cx.steps += s.after;
    if s.dups {
        cx.label("repeated keys in the input");
    }
    if s.built > 4160 {
        cx.label("bulk loaded to 3 levels (>4160)");
    }
    if s.built > 64 && s.after >= 8 {
        cx.nontrivial();
    }
    if s.built > 64 && h.m.is_empty() {
        cx.label("drained to empty");
    }
    Ok(())
}

/// build, then one of the ways of emptying it (or a partial one and refill)
fn drain_case(st: &str, n: usize, mode: usize, rng: &mut Rng) -> Case {
    let dom = n + 2;
    let all = dom;
    let mut ops = vec![op(SP0, n, 0, 1)];
    let (kind, ops2): (i64, Vec<Op>) = match mode % 8 {
        0 => (0, vec![op(DEL, 0, all, 0)]),
        1 => (0, vec![op(DEL, dom, all, 1)]),
        2 => (2, vec![op(DEL, 0, all, 3)]),
        3 => (4, vec![op(DEL, 0, all, 5)]),
        4 => (1, vec![op(SP1, rng.below(4), all, 0)]),
        5 => (3, vec![op(SP1, 1, all, 0)]),
        // the last leaf only, then grow again at the end
        6 => (0, vec![op(DEL, dom, rng.range(1, 70), 1), op(CHK, 0, 0, 0), op(INS, dom.saturating_sub(80), 80, 8), op(DEL, dom, all, 1)]),
        _ => (1, vec![op(DEL, rng.below(n.max(1)), all / 2, rng.below(2)), op(CHK, 0, 0, 0), op(INS, 0, all, 2 | 8), op(DEL, 0, all, 0)]),
    };
    ops.extend(ops2);
    if rng.bool() {
        ops.push(op(INS, 0, rng.range(0, 70).min(dom), 8));
        ops.push(op(CHK, 0, 0, 1));
    }
    Case { stage: st.into(), params: vec![dom as i64, (rng.next() >> 1) as i64, 0, kind], ops }
}

/// sizes around every count of full leaves and full branches
fn edges() -> Vec<usize> {
    let mut v = vec![];
    for k in 1..=140usize {
        for d in -2i64..=2 {
            v.push((64 * k as i64 + d) as usize);
        }
    }
    for k in 1..=6usize {
        for l in [0usize, 1, 2, 3, 16, 17, 32, 64] {
            for d in -2i64..=3 {
                v.push((65 * 64 * k as i64 + 64 * l as i64 + d) as usize);
            }
        }
    }
    v
}

struct P;
impl Prop for P {
    const ID: &'static str = "C04";
    const RULE: &'static str = "Bulk loads of tree, map, set and counted tree/map: (sizes) every length 0..1100 and a sample to 4500, each emptied in one of eight ways; (edges) all lengths around multiples of a full leaf and of a full branch; (seqs) sorted, reversed, shuffled and nearly sorted sequences with repetitions, then a random history; (big) three and four level loads; (vast) loads of 17.6 million entries around the size at which all of four levels are full. Compared with a model filled one entry at a time. Non-trivial: more than 64 entries were bulk loaded and at least 8 mutations followed.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        let t = tier == Tier::Thorough;
        vec![
            stage("vast", if t { 12 } else { 1 }),
            stage("big", if t { 400 } else { 14 }),
            stage("edges", if t { 988 * 16 } else { 988 * 2 }),
            stage("sizes", if t { 4500 * 8 } else { 3000 }),
            stage("seqs", if t { 150_000 } else { 9000 }),
        ]
    }
    fn gen(st: &str, idx: u64, rng: &mut Rng) -> Case {
        let i = idx as usize;
        match st {
            "sizes" => {
                let n = if i < 1100 { i } else if i < 3000 { rng.below(4500) } else { i % 4500 };
                drain_case(st, n, rng.below(8), rng)
            }
            "edges" => {
                let e = edges();
                let mode = if i < 2 * e.len() { rng.below(8) } else { i / e.len() };
                drain_case(st, e[i % e.len()], mode, rng)
            }
            "vast" => {
                // full on every level, four or five of them
                let n = 65 * 65 * 65 * 64 + 64 * (rng.below(3) * rng.below(2)) + rng.below(6) - 2;
                let mut ops = vec![op(SP0, n, 0, 1)];
                for _ in 0..rng.range(2, 5) {
                    let at = rng.pick(&[0, n, n / 2, 65 * 65 * 64 - 20, 65 * 65 * 64 * 33 - 20]);
                    ops.push(match rng.below(4) {
                        0 => op(DEL, at, rng.range(1, 200_000), rng.below(2)),
                        1 => op(TOG, at, rng.range(1, 3000), rng.pick(&[1usize, 17, 60])),
                        2 => op(INS, n + 60, rng.range(1, 200), 1 | 8),
                        _ => op(DEL, at, rng.range(1, 3000), 2 | 15 << 3),
                    });
                    ops.push(op(TOG, at, rng.range(1, 200), 1));
                }
                let dom = n + 70;
                Case { stage: st.into(), params: vec![dom as i64, (rng.next() >> 1) as i64, 0, rng.below(3) as i64], ops }
            }
            "big" => {
                let n = match i % 5 {
                    0 => 65 * 65 * 64 + rng.below(6) - 1,
                    1 => 65 * 65 * 64 + 64 * rng.range(0, 3) + rng.below(5) - 1,
                    2 => 65 * 64 * rng.range(2, 66) + rng.below(5) - 2,
                    3 => 65 * 64 * rng.range(8, 40) + 64 * rng.range(0, 64) + rng.below(5) - 2,
                    _ => rng.range(20_000, 280_000),
                };
                let m = rng.pick(&[0usize, 1, 1, 2, 4, 5, 6]);
                drain_case(st, n, m, rng)
            }
            _ => {
                let class = rng.pick(&[
                    Class::Tiny,
                    Class::Leaf,
                    Class::Leaf,
                    Class::Small,
                    Class::Small,
                    Class::Medium,
                    Class::Large,
                ]);
                let n = if rng.bool() { bulk_size(rng, class) } else { hist::sizes(rng, class) };
                let name = match class {
                    Class::Tiny => "tiny",
                    Class::Leaf => "leaf",
                    Class::Small => "small",
                    Class::Medium => "medium",
                    _ => "large",
                };
                let mut c = gen_hist(rng, name, &HistGen { variants: 7, bulk: false, specials: &[(SP1, 4)], drain_pct: 40, ..HistGen::default() });
                let spread = rng.range(1, 4);
                c.params[0] = (n * spread + rng.range(1, 70)) as i64;
                c.stage = st.into();
                // drop the incremental build
                if class != Class::Tiny {
                    while c.ops.len() > 1 && c.ops[0].c == INS {
                        c.ops.remove(0);
                    }
                }
                c.ops.insert(0, op(SP0, n, rng.below(25), spread));
                c
            }
        }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u32, u64, Tree<u32, u64>>(case, cx),
            1 => go::<u32, u64, Tree<u32, u64, Count>>(case, cx),
            2 => go::<u32, u64, BPlusTreeMap<u32, u64>>(case, cx),
            3 => go::<i64, u64, BPlusTreeMap<i64, u64, Count>>(case, cx),
            4 => go::<u32, (), BPlusTreeSet<u32>>(case, cx),
            5 => go::<String, (), BPlusTreeSet<String>>(case, cx),
            _ => go::<Wide, String, BPlusTreeMap<Wide, String>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
