//! C08: group counts, group queries and in-group ranks.

use harness::core::Core;
use harness::dict::Dict;
use harness::groups::*;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::*;
use std::rc::Rc;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount, Tuple2};
use sweep_bptree::{BPlusTree, BPlusTreeMap};

/// A group as the caller sees it.
trait Group<K>: FromRef<K> + Clone + Ord + std::fmt::Debug {
    fn g(gid: u32) -> Self;
}
impl Group<TupK> for Tuple2<Grp> {
    fn g(gid: u32) -> Self {
        Tuple2::from_ref(&(Grp(gid), 0u32))
    }
}
/// user grouping of plain keys
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Plain(u32);
impl FromRef<u32> for Plain {
    fn from_ref(k: &u32) -> Self {
        Plain(gid(*k))
    }
}
impl Group<u32> for Plain {
    fn g(gid: u32) -> Self {
        Plain(gid)
    }
}
/// owning group
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Named(String);
impl FromRef<String> for Named {
    fn from_ref(k: &String) -> Self {
        Named::g(gid(k.ix()))
    }
}
impl Group<String> for Named {
    fn g(gid: u32) -> Self {
        Named(format!("g{gid:08}"))
    }
}
/// groups whose order is the reverse of their content
#[derive(Clone, Debug, PartialEq, Eq)]
struct Rev(u32);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl FromRef<Wide> for Rev {
    fn from_ref(k: &Wide) -> Self {
        Rev(u32::MAX - gid(k.ix()))
    }
}
impl Group<Wide> for Rev {
    fn g(gid: u32) -> Self {
        Rev(u32::MAX - gid)
    }
}

type RankOf<G> = Result<Option<(G, usize)>, Option<(G, usize)>>;
trait Grouped<K: TKey, V: TVal, G: Group<K>>: Dict<K, V> {
    fn root(&self) -> &GroupCount<G>;
    fn at(&self, g: G, i: usize) -> Option<(&K, &V)>;
    fn at_mut(&mut self, g: G, i: usize) -> Option<&mut V>;
    fn take(&mut self, g: G, i: usize) -> Option<(K, V)>;
    fn rank(&self, k: &K) -> RankOf<G>;
    fn size(&self, g: G) -> Option<usize>;
}
macro_rules! grouped {
    ($t:ident) => {
        fn root(&self) -> &GroupCount<G> {
            $t::root_augmentation(self)
        }
        fn at(&self, g: G, i: usize) -> Option<(&K, &V)> {
            $t::get_by_augmentation(self, (g, i))
        }
        fn at_mut(&mut self, g: G, i: usize) -> Option<&mut V> {
            $t::get_mut_by_augmentation(self, (g, i))
        }
        fn take(&mut self, g: G, i: usize) -> Option<(K, V)> {
            $t::remove_by_augmentation(self, (g, i))
        }
        fn rank(&self, k: &K) -> RankOf<G> {
            $t::rank_by_augmentation(self, k)
        }
        fn size(&self, g: G) -> Option<usize> {
            $t::descend_visit(self, ExtractGroupSize::new(g))
        }
    };
}
impl<K: TKey, V: TVal, G: Group<K>> Grouped<K, V, G> for Tree<K, V, GroupCount<G>> {
    grouped!(BPlusTree);
}
impl<K: TKey, V: TVal, G: Group<K>> Grouped<K, V, G> for BPlusTreeMap<K, V, GroupCount<G>> {
    grouped!(BPlusTreeMap);
}

struct S<K, V, D, G> {
    core: Core<K, V, D>,
    l: Rc<Layout>,
    /// entries present per group, and how many groups are present
    per: Vec<u32>,
    distinct: usize,
    by_pos: u64,
    spanning: bool,
    crowded: bool,
    _g: std::marker::PhantomData<G>,
}

impl<K: TKey, V: TVal, G: Group<K>, D: Grouped<K, V, G>> S<K, V, D, G> {
    fn count(&mut self, x: u32, by: i32) {
        let c = &mut self.per[(self.l.gid[x as usize] / 2) as usize];
        let was = *c > 0;
        *c = (*c as i64 + by as i64) as u32;
        let is = *c > 0;
        self.distinct = self.distinct + (is && !was) as usize - (was && !is) as usize;
        self.spanning |= *c > 130;
    }
    fn recount(&mut self, m: &Model) {
        self.per = vec![0; self.l.groups()];
        self.distinct = 0;
        for (x, _) in m.entries() {
            self.count(x, 1);
        }
    }
    fn members(&self, m: &Model, gid: u32) -> (usize, usize) {
        let (lo, hi) = self.l.range(gid);
        let a = m.rank(lo);
        (a, if hi as usize >= m.dom() { m.len() } else { m.rank(hi) } - a)
    }
    fn root(&mut self, m: &Model) -> R {
        self.crowded |= self.distinct >= 3;
        let r = self.core.d.root();
        ensure!(
            r.group_count() == self.distinct,
            "group_count() is {}, should be {} ({} entries)",
            r.group_count(),
            self.distinct,
            m.len()
        );
        ensure!(r.is_zero() == m.is_empty(), "is_zero() is {} with {} entries", r.is_zero(), m.len());
        let want = m.last().map(|x| self.l.gid[x as usize]).map(|g| (G::g(g), self.per[(g / 2) as usize] as usize));
        let got = r.max_group().map(|(g, c)| (g.clone(), c));
        ensure!(got == want, "max_group() is {got:?}, should be {want:?}");
        Ok(())
    }
    fn group(&self, m: &Model, gid: u32, off: usize) -> R {
        let (a, n) = if gid % 2 == 1 { self.members(m, gid) } else { (0, 0) };
        let want = if off < n { m.select(a + off) } else { None };
        match (self.core.d.at(G::g(gid), off), want) {
            (None, None) => {}
            (Some((k, v)), Some(x)) if k.ix() == x && v.is(m.get(x).unwrap()) => {}
            (g, w) => {
                return Err(format!("entry {off} of group {gid} ({n} members) is {g:?}, should be key {w:?}"))
            }
        }
        let s = self.core.d.size(G::g(gid));
        ensure!(s == Some(n), "size of group {gid} is {s:?}, should be {n}");
        Ok(())
    }
    fn key(&self, m: &Model, x: u32) -> R {
        let g = self.l.gid[x as usize];
        let (lo, _) = self.l.range(g);
        let n = m.rank(x) - m.rank(lo);
        let w = Some((G::g(g), n));
        let want = if m.get(x).is_some() { Ok(w) } else { Err(w) };
        let got = self.core.d.rank(&K::of(x));
        ensure!(got == want, "rank of key {x} is {got:?}, should be {want:?}");
        Ok(())
    }
    fn some_group(&self, m: &Model, x: u32, rng: &mut Rng) -> u32 {
        let last = (self.l.groups() * 2) as u32;
        match rng.below(10) {
            0..=5 => self.l.gid[x as usize],
            6 => m.last().map(|x| self.l.gid[x as usize]).unwrap_or(1),
            7 => (self.l.gid[x as usize] + rng.below(5) as u32).saturating_sub(2).min(last + 3),
            8 => rng.below(self.l.groups()) as u32 * 2 + 1,
            _ => rng.below(last as usize + 4) as u32,
        }
    }
    fn some_off(n: usize, rng: &mut Rng) -> usize {
        match rng.below(6) {
            0 => 0,
            1 => n,
            2 => n.saturating_sub(1),
            3 if rng.pct(20) => usize::MAX - rng.below(3),
            3 => n + rng.below(70),
            _ => rng.below(n.max(1)),
        }
    }
}

impl<K: TKey, V: TVal, G: Group<K>, D: Grouped<K, V, G>> Sink for S<K, V, D, G> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        if m.get(x).is_none() {
            self.count(x, 1);
        }
        self.core.insert(m, x, vid)
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        if m.get(x).is_some() {
            self.count(x, -1);
        }
        self.core.remove(m, x)
    }
    fn touch(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.core.touch(m, x, vid)
    }
    fn clear(&mut self, m: &Model) -> R {
        self.recount(&Model::new(m.dom()));
        self.core.clear(m)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        self.core.rebuild(m, mode)
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.root(m)?;
        for _ in 0..rng.range(1, 3) {
            let x = Hist::interesting(m, last, rng);
            let g = self.some_group(m, x, rng);
            let n = self.members(m, g).1;
            self.group(m, g, Self::some_off(n, rng))?;
            self.key(m, Hist::interesting(m, last, rng))?;
        }
        if rng.below(20) == 0 {
            self.core.probe(m, last, rng)?;
        }
        Ok(())
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.core.len(m.len())?;
        self.root(m)?;
        let step = m.dom() / 1500 + 1;
        let mut x = rng.below(step);
        while x < m.dom() {
            self.key(m, x as u32)?;
            x += step;
        }
        let total = self.l.groups() * 2 + 2;
        let step = total / 400 + 1;
        let mut g = rng.below(step);
        while g < total {
            let n = self.members(m, g as u32).1;
            for o in [0, n, n.saturating_sub(1), n / 2, rng.below(n + 1)] {
                self.group(m, g as u32, o)?;
            }
            g += step;
        }
        self.group(m, u32::MAX / 4 * 2, 0)?;
        for i in 0..m.len().min(300) {
            // every entry is where its rank says
            let i = if m.len() > 300 { rng.below(m.len()) } else { i };
            let x = m.select(i).unwrap();
            let g = self.l.gid[x as usize];
            let off = i - self.members(m, g).0;
            self.group(m, g, off)?;
        }
        Ok(())
    }
    fn special(&mut self, h: &mut Hist, op: &Op) -> R {
        let n = op.ub() % (h.m.len() / 2 + 12);
        for j in 0..n {
            let x = match op.ua() % 4 {
                0 => Hist::interesting(&h.m, h.last, &mut h.rng),
                1 => (op.ud() % h.m.dom()) as u32,
                2 => h.m.first().unwrap_or(0),
                _ => ((op.ud() + j) % h.m.dom()) as u32,
            };
            let mut rng = h.rng.clone();
            let g = if op.ua() % 4 == 0 { self.some_group(&h.m, x, &mut rng) } else { self.l.gid[x as usize] };
            let (a, c) = self.members(&h.m, g);
            let off = match op.ud() % 3 {
                0 => 0,
                1 => c.saturating_sub(1),
                _ => Self::some_off(c, &mut rng),
            };
            let want = if off < c { h.m.select(a + off) } else { None };
            if op.c == SP0 {
                let got = self.core.d.take(G::g(g), off);
                match (&got, want) {
                    (None, None) => {}
                    (Some((k, v)), Some(x)) if k.ix() == x && v.is(h.m.get(x).unwrap()) => {}
                    _ => {
                        return Err(format!("removing entry {off} of group {g} ({c}) gave {got:?}, should be {want:?}"))
                    }
                }
                if let Some(x) = want {
                    h.m.remove(x);
                    self.count(x, -1);
                    h.last = x;
                    self.by_pos += 1;
                }
                self.core.len(h.m.len())?;
            } else {
                let vid = h.next_vid();
                match (self.core.d.at_mut(G::g(g), off), want) {
                    (None, None) => {}
                    (Some(v), Some(x)) if v.is(h.m.get(x).unwrap()) => {
                        v.put(vid);
                        h.m.set(x, vid);
                    }
                    (v, w) => return Err(format!("mutable entry {off} of group {g} ({c}) is {v:?}, should be {w:?}")),
                }
            }
            h.steps += 1;
            h.rng = rng;
            if h.rng.below(10) == 0 {
                let l = h.last;
                let mut rng = h.rng.clone();
                self.probe(&h.m, l, &mut rng)?;
            }
        }
        Ok(())
    }
}

fn go<K: TKey, V: TVal, G: Group<K>, D: Grouped<K, V, G>>(case: &Case, cx: &mut Cx) -> R {
    let dom = case.param(0).clamp(1, 1 << 22) as usize;
    let l = Rc::new(Layout::make(dom, case.param(4).max(0) as usize, case.param(1) as u64));
    LAYOUT.with(|c| *c.borrow_mut() = l.clone());
    let mut s: S<K, V, D, G> = S {
        core: Core::new(D::new()),
        per: vec![0; l.groups()],
        l,
        distinct: 0,
        by_pos: 0,
        spanning: false,
        crowded: false,
        _g: Default::default(),
    };
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(3))?;
    if s.spanning {
        cx.label("a group spanning leaves (>130 members)");
    }
    if s.by_pos > 0 {
        cx.label("removals by (group, offset)");
    }
    if h.max_n > 64 && s.crowded {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C08";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) with 24 group layouts (fixed sizes 1..4200, random, skewed, singletons between giants, one or two groups), four key/group types, with removals and edits by (group, offset); group count, largest group, lookups at existing and missing groups and offsets, in-group rank of present and absent keys and the group-size visitor compared with the model. Non-trivial: more than one leaf (>64 entries) and at least three groups present.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 4, classes(tier, 16000, 9000, 6500, 2800, 1300, 24))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        let mut c = gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 4,
                specials: &[(SP0, 8), (SP1, 3)],
                densities: &[8, 32, 256],
                ..HistGen::default()
            },
        );
        c.params.push(rng.below(24) as i64);
        c
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<TupK, u64, Tuple2<Grp>, BPlusTreeMap<TupK, u64, GroupCount<Tuple2<Grp>>>>(case, cx),
            1 => go::<u32, u64, Plain, Tree<u32, u64, GroupCount<Plain>>>(case, cx),
            2 => go::<String, String, Named, BPlusTreeMap<String, String, GroupCount<Named>>>(case, cx),
            _ => go::<Wide, u8, Rev, Tree<Wide, u8, GroupCount<Rev>>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
