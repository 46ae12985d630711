//! C25: keys that compare equal but can be told apart. Which of them is in
//! the collection is part of its contents.

use harness::dict::Dict;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, with_giant, Prop, Stage, Tier};
use harness::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTreeMap, BPlusTreeSet};

/// ordered by `x` alone
#[derive(Clone, Debug)]
struct Tag {
    x: u32,
    tag: u64,
    name: Option<Box<u64>>,
}
impl Tag {
    fn new(x: u32, tag: u64) -> Self {
        Tag { x, tag, name: (tag % 3 == 0).then(|| Box::new(tag)) }
    }
    /// the tag, if the key is in one piece
    fn get(&self) -> u64 {
        match &self.name {
            Some(b) if **b != self.tag => u64::MAX - 1,
            n if n.is_some() != (self.tag % 3 == 0) => u64::MAX - 2,
            _ => self.tag,
        }
    }
}
impl PartialEq for Tag {
    fn eq(&self, o: &Self) -> bool {
        self.x == o.x
    }
}
impl Eq for Tag {}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tag {
    fn cmp(&self, o: &Self) -> Ordering {
        self.x.cmp(&o.x)
    }
}
impl Borrow<u32> for Tag {
    fn borrow(&self) -> &u32 {
        &self.x
    }
}
/// the tag of keys that are only looked up
const ASK: u64 = 1 << 50;
impl TKey for Tag {
    type Q = u32;
    fn of(x: u32) -> Self {
        Tag::new(x, ASK + x as u64)
    }
    fn ix(&self) -> u32 {
        self.x
    }
}

type Seen = Option<(u32, u64)>;
fn key(k: &Tag) -> (u32, u64) {
    (k.x, k.get())
}

/// the leaf a key belongs to
struct Leaf(u32);
impl<V, A> DescendVisit<Tag, V, A> for Leaf {
    type Result = Vec<(u32, u64)>;
    fn visit_inner(&mut self, keys: &[Tag], _: &[A]) -> DescendVisitResult<Self::Result> {
        DescendVisitResult::GoDown(keys.partition_point(|k| k.x <= self.0))
    }
    fn visit_leaf(&mut self, keys: &[Tag], _: &[V]) -> Option<Self::Result> {
        Some(keys.iter().map(key).collect())
    }
}

trait More<V: TVal>: Dict<Tag, V> {
    fn copy(&self) -> Option<Self> {
        None
    }
    /// ways to see the key at position `i`, holding `x`
    fn seen(&self, _x: u32, _i: usize, _pred: Option<u32>, _succ: Option<u32>) -> Vec<(&'static str, Seen)> {
        vec![]
    }
    fn leaf(&self, _x: u32) -> Option<Vec<(u32, u64)>> {
        None
    }
    fn take(&mut self, _i: usize) -> Option<Option<(Tag, V)>> {
        None
    }
    fn back(&self) -> Vec<(u32, u64)> {
        vec![]
    }
    fn eat(self, _back: bool) -> Option<Vec<((u32, u64), V)>> {
        None
    }
    fn merge(&self, _o: &Self) -> Option<Vec<(u32, u64)>> {
        None
    }
}

fn eat<V, I: DoubleEndedIterator<Item = (Tag, V)>>(i: I, back: bool) -> Vec<((u32, u64), V)> {
    match back {
        false => i.map(|(k, v)| (key(&k), v)).collect(),
        true => {
            let mut v: Vec<_> = i.rev().map(|(k, v)| (key(&k), v)).collect();
            v.reverse();
            v
        }
    }
}

fn cursors<A: Augmentation<Tag, u64>>(
    t: &Tree<Tag, u64, A>,
    pred: Option<u32>,
    succ: Option<u32>,
    out: &mut Vec<(&'static str, Seen)>,
) {
    let c = |c: Option<Cursor<Tag>>| c.map(|c| key(c.key()));
    match pred {
        Some(p) => {
            let p = t.get_cursor(&Tag::of(p)).unwrap().0;
            out.push(("next", c(p.next(t))));
            out.push(("next with value", c(p.next_with_value(t).map(|x| x.0))));
        }
        None => {
            out.push(("cursor_first", c(t.cursor_first())));
            out.push(("Cursor::first", c(Cursor::first(t).map(|x| x.0))));
        }
    }
    match succ {
        Some(s) => {
            let s = t.get_cursor(&Tag::of(s)).unwrap().0;
            out.push(("prev", c(s.prev(t))));
            out.push(("prev with value", c(s.prev_with_value(t).map(|x| x.0))));
        }
        None => out.push(("Cursor::last", c(Cursor::last(t).map(|x| x.0)))),
    }
}

macro_rules! tree {
    ($a:ty, $at:expr, $take:expr) => {
        impl More<u64> for Tree<Tag, u64, $a> {
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
            fn seen(&self, x: u32, i: usize, pred: Option<u32>, succ: Option<u32>) -> Vec<(&'static str, Seen)> {
                let mut out = vec![];
                cursors(self, pred, succ, &mut out);
                let at: fn(&Self, usize) -> Option<Seen> = $at;
                out.extend(at(self, i).map(|s| ("position", s)));
                let _ = x;
                out
            }
            fn leaf(&self, x: u32) -> Option<Vec<(u32, u64)>> {
                self.descend_visit(Leaf(x))
            }
            fn take(&mut self, i: usize) -> Option<Option<(Tag, u64)>> {
                let f: fn(&mut Self, usize) -> Option<Option<(Tag, u64)>> = $take;
                f(self, i)
            }
            fn back(&self) -> Vec<(u32, u64)> {
                self.iter().rev().map(|x| key(x.0)).collect()
            }
            fn eat(self, back: bool) -> Option<Vec<((u32, u64), u64)>> {
                Some(eat(self.into_iter(), back))
            }
        }
    };
}
tree!((), |_, _| None, |_, _| None);
tree!(Count, |t, i| Some(t.get_by_augmentation(i).map(|x| key(x.0))), |t, i| Some(t.remove_by_augmentation(i)));

impl More<u64> for BPlusTreeMap<Tag, u64, Count> {
    fn seen(&self, _: u32, i: usize, _: Option<u32>, _: Option<u32>) -> Vec<(&'static str, Seen)> {
        vec![("position", self.get_by_augmentation(i).map(|x| key(x.0)))]
    }
    fn leaf(&self, x: u32) -> Option<Vec<(u32, u64)>> {
        self.descend_visit(Leaf(x))
    }
    fn take(&mut self, i: usize) -> Option<Option<(Tag, u64)>> {
        Some(self.remove_by_augmentation(i))
    }
    fn back(&self) -> Vec<(u32, u64)> {
        self.iter().rev().map(|x| key(x.0)).collect()
    }
}
impl More<()> for BPlusTreeSet<Tag> {
    fn back(&self) -> Vec<(u32, u64)> {
        self.iter().rev().map(key).collect()
    }
    fn eat(self, back: bool) -> Option<Vec<((u32, u64), ())>> {
        Some(eat(self.into_iter().map(|k| (k, ())).collect::<Vec<_>>().into_iter(), back))
    }
    fn merge(&self, o: &Self) -> Option<Vec<(u32, u64)>> {
        Some(self.union(o).map(key).collect())
    }
}

struct S<D> {
    d: D,
    /// the tag of the key that is in the collection
    tags: Vec<u64>,
    n: u64,
    /// keys offered again with another tag
    again: u64,
}

impl<D> S<D> {
    fn tag(&mut self) -> u64 {
        self.n += 1;
        self.n
    }
    fn want(&self, x: Option<u32>) -> Seen {
        x.map(|x| (x, self.tags[x as usize]))
    }
}

fn same<V: TVal>(got: Option<&V>, want: Option<u64>) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(v), Some(w)) => v.is(w),
        _ => false,
    }
}

struct Front<V, D>(S<D>, std::marker::PhantomData<V>);
impl<V: TVal, D: More<V>> Front<V, D> {
    fn ends(&self, m: &Model) -> R {
        let f = self.0.d.first().map(|x| key(x.0));
        let l = self.0.d.last().map(|x| key(x.0));
        ensure!(f == self.0.want(m.first()), "first() has key {f:?}, should be {:?}", self.0.want(m.first()));
        ensure!(l == self.0.want(m.last()), "last() has key {l:?}, should be {:?}", self.0.want(m.last()));
        Ok(())
    }
    fn len(&self, n: usize) -> R {
        ensure!(self.0.d.len() == n, "len() is {}, should be {n}", self.0.d.len());
        Ok(())
    }
    fn all(&self, m: &Model) -> Vec<(u32, u64)> {
        m.entries().into_iter().map(|e| (e.0, self.0.tags[e.0 as usize])).collect()
    }
    fn at(&self, m: &Model, x: u32) -> R {
        let want = self.0.want(Some(x));
        for (what, got) in self.0.d.seen(x, m.rank(x), m.pred(x), m.succ(x)) {
            ensure!(got == want, "{what} shows key {got:?}, should be {want:?}");
        }
        if let Some(keys) = self.0.d.leaf(x) {
            let r = m.rank(x);
            let at = keys.iter().position(|k| k.0 == x);
            let Some(at) = at else { return Err(format!("key {x} is not in the leaf visited for it")) };
            for (j, k) in keys.iter().enumerate() {
                let w = self.0.want((r + j).checked_sub(at).and_then(|i| m.select(i)));
                ensure!(Some(*k) == w, "a visitor is shown key {k:?}, should be {w:?}");
            }
        }
        Ok(())
    }
    /// entries, each several times over with keys that can be told apart
    fn repeated(&mut self, m: &Model, rng: &mut Rng, sorted: bool) -> Vec<(Tag, V)> {
        let mut xs: Vec<u32> = vec![];
        let most = rng.range(1, 4);
        for (x, _) in m.entries() {
            for _ in 0..rng.range(1, most) {
                xs.push(x);
            }
        }
        if !sorted {
            for i in (1..xs.len()).rev() {
                xs.swap(i, rng.below(i + 1));
            }
        }
        // the last one stays, key and value
        let mut out: Vec<(Tag, V)> = Vec::with_capacity(xs.len());
        let mut done = vec![false; m.dom()];
        for x in xs.into_iter().rev() {
            let tag = self.0.tag();
            let first = !std::mem::replace(&mut done[x as usize], true);
            if first {
                self.0.tags[x as usize] = tag;
            } else {
                self.0.again += 1;
            }
            out.push((Tag::new(x, tag), V::of(if first { m.get(x).unwrap() } else { u64::MAX })));
        }
        out.reverse();
        out
    }
}

impl<V: TVal, D: More<V> + Sorted> Sink for Front<V, D> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        let want = m.get(x);
        let tag = self.0.tag();
        let got = self.0.d.insert(Tag::new(x, tag), V::of(vid));
        ensure!(same(got.as_ref(), want), "insert(key {x}) returned {got:?}, should be {want:?}");
        match want {
            None => self.0.tags[x as usize] = tag,
            // the key that is there stays
            Some(_) => self.0.again += 1,
        }
        self.len(m.len() + want.is_none() as usize)
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        let want = m.get(x);
        if want.is_some() && x % 3 == 0 {
            match self.0.d.take(m.rank(x)) {
                None => {}
                Some(Some((k, v))) => {
                    let w = self.0.want(Some(x));
                    ensure!(Some(key(&k)) == w && same(Some(&v), want), "removal gave {:?}, should be {w:?}", key(&k));
                    return self.len(m.len() - 1);
                }
                Some(None) => return Err(format!("removal of position {} gave nothing", m.rank(x))),
            }
        }
        let got = if x % 2 == 0 { self.0.d.remove(&Tag::of(x)) } else { self.0.d.remove_q(&x) };
        ensure!(same(got.as_ref(), want), "remove(key {x}) returned {got:?}, should be {want:?}");
        self.len(m.len() - want.is_some() as usize)
    }
    fn touch(&mut self, m: &Model, x: u32, vid: u64) -> R {
        let want = m.get(x);
        let got = if x % 2 == 0 { self.0.d.get_mut(&Tag::of(x)) } else { self.0.d.get_mut_q(&x) };
        ensure!(same(got.as_deref(), want), "get_mut(key {x}) gave {got:?}, should be {want:?}");
        got.unwrap().put(vid);
        Ok(())
    }
    fn clear(&mut self, _: &Model) -> R {
        self.0.d.clear();
        self.len(0)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        let mut rng = Rng::new(self.0.n ^ mode as u64);
        let items = self.repeated(m, &mut rng, D::SORTED || mode % 3 == 0);
        self.0.d = D::bulk(items, 0);
        self.len(m.len())
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        for _ in 0..rng.range(1, 3) {
            let x = Hist::interesting(m, last, rng);
            let got = if rng.bool() { self.0.d.get(&Tag::of(x)) } else { self.0.d.get_q(&x) };
            ensure!(same(got, m.get(x)), "get({x}) gave {got:?}");
            if m.get(x).is_some() {
                self.at(m, x)?;
            }
        }
        self.ends(m)
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.len(m.len())?;
        self.ends(m)?;
        let want = self.all(m);
        let mut i = 0;
        let mut bad = None;
        self.0.d.walk(&mut |k, v| {
            let w = want.get(i);
            if w != Some(&key(k)) || !same(Some(v), m.get(k.x)) {
                bad = Some(format!("entry {i} of the iteration is {:?} {v:?}, should be {w:?}", key(k)));
            }
            i += 1;
            bad.is_none()
        });
        if let Some(b) = bad {
            return Err(b);
        }
        ensure!(i == want.len(), "iteration gave {i} of {} entries", want.len());
        let mut b = self.0.d.back();
        b.reverse();
        ensure!(b == want, "iterating backwards shows other keys");
        for _ in 0..20 {
            if let Some(x) = m.select(rng.below(m.len() + 1)) {
                self.at(m, x)?;
            }
        }
        Ok(())
    }
    fn special(&mut self, h: &mut Hist, o: &Op) -> R {
        let m = &h.m;
        let want = self.all(m);
        match o.ud() % 3 {
            // the copy takes the place of the original, which is eaten
            0 => {
                let Some(c) = self.0.d.copy() else { return Ok(()) };
                let old = std::mem::replace(&mut self.0.d, c);
                let got = old.eat(o.ua() % 2 == 1).unwrap();
                ensure!(got.iter().map(|e| e.0).eq(want.iter().copied()), "consuming gave other keys");
                ensure!(got.iter().all(|e| e.1.is(m.get(e.0 .0).unwrap())), "consuming gave other values");
            }
            // made again from what was eaten
            1 => {
                let d = std::mem::replace(&mut self.0.d, D::new());
                match d.eat(o.ua() % 2 == 1) {
                    Some(got) => {
                        ensure!(got.iter().map(|e| e.0).eq(want.iter().copied()), "consuming gave other keys");
                        self.0.d = D::bulk(got.into_iter().map(|((x, t), v)| (Tag::new(x, t), v)).collect(), 0);
                    }
                    None => {
                        let all = want.into_iter().map(|(x, t)| (Tag::new(x, t), V::of(m.get(x).unwrap()))).collect();
                        self.0.d = D::bulk(all, 0);
                    }
                }
            }
            // merged with another: each key is one of the two there are
            _ => {
                let mut other = D::new();
                let mut theirs = std::collections::BTreeMap::new();
                for _ in 0..o.ub() % 300 {
                    let x = if h.rng.bool() { h.rng.below(m.dom()) as u32 } else { Hist::interesting(m, h.last, &mut h.rng) };
                    let t = self.0.tag();
                    other.insert(Tag::new(x, t), V::of(0));
                    theirs.entry(x).or_insert(t);
                }
                for flip in [false, true] {
                    let got = if flip { other.merge(&self.0.d) } else { self.0.d.merge(&other) };
                    let Some(got) = got else { return Ok(()) };
                    for (x, t) in &got {
                        let mine = m.get(*x).map(|_| self.0.tags[*x as usize]);
                        let there = theirs.get(x).copied();
                        ensure!(
                            mine == Some(*t) || there == Some(*t),
                            "the union shows key ({x}, {t}), the sets have {mine:?} and {there:?}"
                        );
                    }
                    let n = theirs.keys().filter(|x| m.get(**x).is_none()).count() + m.len();
                    ensure!(got.len() == n, "the union has {} keys, should be {n}", got.len());
                }
            }
        }
        self.len(h.m.len())
    }
}

/// is `bulk` to be given sorted input
trait Sorted {
    const SORTED: bool;
}
impl<A: Augmentation<Tag, u64>> Sorted for Tree<Tag, u64, A> {
    const SORTED: bool = true;
}
impl Sorted for BPlusTreeMap<Tag, u64, Count> {
    const SORTED: bool = false;
}
impl Sorted for BPlusTreeSet<Tag> {
    const SORTED: bool = false;
}

fn go<V: TVal, D: More<V> + Sorted>(case: &Case, cx: &mut Cx) -> R {
    let dom = case.param(0).clamp(1, 1 << 22) as usize;
    let mut s: Front<V, D> =
        Front(S { d: D::new(), tags: vec![0; dom], n: 0, again: 0 }, std::marker::PhantomData);
    let h = run_hist(case, &mut s, cx)?;
    s.check(&h.m, &mut Rng::new(3))?;
    let want = s.all(&h.m);
    let again = s.0.again;
    if let Some(got) = s.0.d.eat(case.param(1) % 2 == 0) {
        ensure!(got.into_iter().map(|e| e.0).eq(want), "consuming gave other keys");
    }
    if again > 0 {
        cx.label("equal keys offered again");
    }
    if h.max_n > 64 && again > 0 {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C25";
    const RULE: &'static str = "Histories over seven size classes (0 to 2.4M entries) on tree, map and set with keys that compare by one number and carry another one, different for every key ever made; the model keeps, per key present, the number of the key that has to be in the collection (of an insertion the first one, of a constructor the last one). Every key shown (first, last, position, cursor steps, iteration both ways, visited leaves, removal by position, consumption, clone, union) is compared. Non-trivial: more than one leaf (>64 entries) and equal keys given again.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        with_giant(tier, 4, classes(tier, 20000, 12000, 9000, 4000, 1600, 20))
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(rng, stage, &HistGen { variants: 5, specials: &[(SP0, 6)], ..HistGen::default() })
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<u64, Tree<Tag, u64>>(case, cx),
            1 | 2 => go::<u64, Tree<Tag, u64, Count>>(case, cx),
            3 => go::<u64, BPlusTreeMap<Tag, u64, Count>>(case, cx),
            _ => go::<(), BPlusTreeSet<Tag>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
