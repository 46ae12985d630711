//! C10: ownership. Tokens count what is alive, the allocator counts bytes.

use harness::alloc::{usage, Counting};
use harness::core::Core;
use harness::dict::Dict;
use harness::hist::Hist;
use harness::kinds::*;
use harness::runner::{classes, Prop, Stage, Tier};
use harness::tok::{self, Inst, KTok, VTok};
use harness::*;
use sweep_bptree::augment::group::{FromRef, GroupCount};
use sweep_bptree::augment::{Augmentation, SearchAugmentation};
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, Key};

#[global_allocator]
static ALLOC: Counting = Counting;

/// a summary that is itself a token
#[derive(Clone, Debug)]
struct SumTok {
    n: usize,
    i: Inst,
}
impl Default for SumTok {
    fn default() -> Self {
        SumTok { n: 0, i: Inst::new(tok::AUG) }
    }
}
impl<K: Key, V> Augmentation<K, V> for SumTok {
    fn from_inner(_: &[K], a: &[Self]) -> Self {
        let mut n = 0;
        for x in a {
            x.i.check().expect("summary handed to from_inner");
            n += x.n;
        }
        SumTok { n, i: Inst::new(tok::AUG) }
    }
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        assert!(keys.len() == values.len());
        SumTok { n: keys.len(), i: Inst::new(tok::AUG) }
    }
}
macro_rules! positions {
    ($t:ty, $n:expr) => {
        impl<K: Key, V> SearchAugmentation<K, V> for $t {
            /// the query is a token too
            type Query = (usize, Inst);
            fn locate_in_leaf(q: (usize, Inst), keys: &[K], _: &[V]) -> Option<usize> {
                q.1.check().expect("query handed to locate_in_leaf");
                (q.0 < keys.len()).then_some(q.0)
            }
            fn locate_in_inner(mut q: (usize, Inst), _: &[K], a: &[Self]) -> Option<(usize, (usize, Inst))> {
                q.1.check().expect("query handed to locate_in_inner");
                for (i, x) in a.iter().enumerate() {
                    x.i.check().expect("summary handed to locate_in_inner");
                    let n: usize = $n(x);
                    if q.0 < n {
                        return Some((i, (q.0, q.1.clone())));
                    }
                    q.0 -= n;
                }
                None
            }
        }
    };
}
positions!(SumTok, |x: &SumTok| x.n);

/// group of a token key, owning a token as well
#[derive(Clone, Debug)]
struct GTok(u32, Inst);
impl PartialEq for GTok {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for GTok {}
impl PartialOrd for GTok {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for GTok {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl FromRef<KTok> for GTok {
    fn from_ref(k: &KTok) -> Self {
        k.i.check().expect("key handed to from_ref");
        GTok(k.x / 50, Inst::new(tok::AUG))
    }
}

trait Own<K: TKey, V: TVal>: Dict<K, V> {
    fn copy(&self) -> Option<Self> {
        None
    }
    /// take `front` and `back` entries off a consuming iterator, keep `keep` of them alive
    fn eat(self, front: usize, back: usize, stop: &mut dyn FnMut(usize, usize) -> R) -> R;
    fn take_at(&mut self, _i: usize) -> Option<Option<(K, V)>> {
        None
    }
    /// a removal query / lookup that finds nothing and one that finds something
    fn look_at(&self, _i: usize) {}
    /// insertions of repeated keys before bulk loading
    fn bulk_dups(items: Vec<(K, V)>) -> Self;
}

fn eat<T>(
    mut it: impl DoubleEndedIterator<Item = T>,
    front: usize,
    back: usize,
    len: usize,
    stop: &mut dyn FnMut(usize, usize) -> R,
) -> R {
    let mut held: Vec<T> = vec![];
    let mut left = len;
    for i in 0..front + back {
        let x = if i < front { it.next() } else { it.next_back() };
        ensure!(x.is_some() == (left > 0), "the consuming iterator gave {} with {left} to come", x.is_some());
        if let Some(x) = x {
            left -= 1;
            held.push(x);
        }
        if i % 97 == 0 {
            stop(left, held.len())?;
        }
        if held.len() > 40 {
            held.drain(..20);
        }
    }
    stop(left, held.len())?;
    drop(it);
    stop(0, held.len())?;
    drop(held);
    stop(0, 0)
}

macro_rules! own_tree {
    ($a:ty, $($x:tt)*) => {
        impl<K: TKey + TokGroup, V: TVal> Own<K, V> for Tree<K, V, $a> {
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
            fn eat(self, f: usize, b: usize, stop: &mut dyn FnMut(usize, usize) -> R) -> R {
                let n = BPlusTree::len(&self);
                eat(BPlusTree::into_iter(self), f, b, n, stop)
            }
            fn bulk_dups(items: Vec<(K, V)>) -> Self {
                BPlusTree::bulk_load(items)
            }
            $($x)*
        }
        impl<K: TKey + TokGroup, V: TVal> Own<K, V> for BPlusTreeMap<K, V, $a> {
            fn eat(self, _: usize, _: usize, stop: &mut dyn FnMut(usize, usize) -> R) -> R {
                // the map cannot be consumed, only dropped
                drop(self);
                stop(0, 0)
            }
            fn bulk_dups(items: Vec<(K, V)>) -> Self {
                items.into_iter().collect()
            }
            $($x)*
        }
    };
}
/// keys that have token groups
trait TokGroup {}
impl TokGroup for KTok {}
impl TokGroup for String {}
impl TokGroup for Box<u32> {}

own_tree!((),);
own_tree!(SumTok,
    fn take_at(&mut self, i: usize) -> Option<Option<(K, V)>> {
        Some(self.remove_by_augmentation((i, Inst::new(tok::AUG))))
    }
    fn look_at(&self, i: usize) {
        let _ = self.get_by_augmentation((i, Inst::new(tok::AUG)));
    }
);
impl<V: TVal> Own<KTok, V> for Tree<KTok, V, GroupCount<GTok>> {
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn eat(self, f: usize, b: usize, stop: &mut dyn FnMut(usize, usize) -> R) -> R {
        let n = BPlusTree::len(&self);
        eat(BPlusTree::into_iter(self), f, b, n, stop)
    }
    fn bulk_dups(items: Vec<(KTok, V)>) -> Self {
        BPlusTree::bulk_load(items)
    }
    fn look_at(&self, i: usize) {
        let k = KTok::of(i as u32);
        let _ = BPlusTree::rank_by_augmentation(self, &k);
        let _ = BPlusTree::get_by_augmentation(self, (GTok::from_ref(&k), i % 60));
    }
}
impl<K: TKey> Own<K, ()> for BPlusTreeSet<K> {
    fn eat(self, f: usize, b: usize, stop: &mut dyn FnMut(usize, usize) -> R) -> R {
        let n = BPlusTreeSet::len(&self);
        eat(BPlusTreeSet::into_iter(self), f, b, n, stop)
    }
    fn bulk_dups(items: Vec<(K, ())>) -> Self {
        items.into_iter().map(|x| x.0).collect()
    }
}

struct S<K, V, D> {
    core: Core<K, V, D>,
    clones: Vec<(D, usize)>,
    toks: bool,
    vals: bool,
    partial: u64,
    cloned: u64,
    dups: u64,
    released: u64,
}

impl<K: TKey, V: TVal, D: Own<K, V>> S<K, V, D> {
    fn balance(&self, n: usize) -> R {
        if !self.toks {
            return Ok(());
        }
        if let Some(e) = tok::error() {
            return Err(e);
        }
        let total = n + self.clones.iter().map(|c| c.1).sum::<usize>();
        if self.vals {
            let v = tok::live(tok::VAL);
            ensure!(v == total, "{v} values are alive, the collections hold {total}");
        }
        let k = tok::live(tok::KEY);
        ensure!(k >= total, "{k} keys are alive, the collections hold {total}");
        // separators are at most one per 8 entries plus a few
        ensure!(
            k <= total + total / 8 + 8 * (self.clones.len() + 2),
            "{k} keys are alive for {total} entries: keys have leaked"
        );
        Ok(())
    }
    fn eat(&mut self, d: D, held_by_others: usize, rng: &mut Rng) -> R {
        let n = d.len();
        let (f, b) = match rng.below(5) {
            0 => (0, 0),
            1 => (n + 2, 0),
            2 => (rng.below(n + 1), 0),
            3 => (rng.below(n / 2 + 1), rng.below(n / 2 + 2)),
            _ => (0, rng.below(n + 2)),
        };
        self.partial += (f + b > 0 && f + b < n) as u64;
        let (toks, vals) = (self.toks, self.vals);
        d.eat(f, b, &mut |left, held| {
            if !toks {
                return Ok(());
            }
            if let Some(e) = tok::error() {
                return Err(e);
            }
            let want = left + held + held_by_others;
            if vals {
                let v = tok::live(tok::VAL);
                ensure!(v == want, "{v} values alive while consuming, should be {want}");
            }
            let k = tok::live(tok::KEY);
            ensure!(k >= want, "{k} keys alive while consuming, at least {want} should be");
            Ok(())
        })
    }
    fn others(&self, n: usize) -> usize {
        n + self.clones.iter().map(|c| c.1).sum::<usize>()
    }
}

impl<K: TKey, V: TVal, D: Own<K, V>> Sink for S<K, V, D> {
    fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.core.insert(m, x, vid)?;
        self.balance(m.len() + m.get(x).is_none() as usize)
    }
    fn remove(&mut self, m: &Model, x: u32) -> R {
        self.core.remove(m, x)?;
        self.released += 1;
        self.balance(m.len() - m.get(x).is_some() as usize)
    }
    fn touch(&mut self, m: &Model, x: u32, vid: u64) -> R {
        self.core.touch(m, x, vid)?;
        self.balance(m.len())
    }
    fn clear(&mut self, m: &Model) -> R {
        self.core.clear(m)?;
        self.balance(0)
    }
    fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        self.core.rebuild(m, mode)?;
        self.balance(m.len())
    }
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.core.probe(m, last, rng)?;
        self.core.d.look_at(rng.below(m.dom()));
        self.balance(m.len())
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.core.check(m, rng)?;
        self.balance(m.len())
    }
    fn special(&mut self, h: &mut Hist, op: &Op) -> R {
        let n = h.m.len();
        match op.c {
            // copies come and go
            SP0 => {
                if self.clones.len() >= 2 || (op.ua() % 2 == 0 && !self.clones.is_empty()) {
                    let i = op.ub() % self.clones.len();
                    let (c, _) = self.clones.remove(i);
                    if op.ud() % 2 == 0 {
                        let o = self.others(n);
                        self.eat(c, o, &mut h.rng)?;
                    }
                } else if let Some(c) = self.core.d.copy() {
                    self.cloned += 1;
                    self.clones.push((c, n));
                    if op.ud() % 3 == 0 {
                        // the copy takes the place of the original
                        std::mem::swap(&mut self.core.d, &mut self.clones.last_mut().unwrap().0);
                    }
                }
                self.balance(n)
            }
            // consume it, wholly or in part, and start again
            SP1 => {
                let old = std::mem::replace(&mut self.core.d, D::new());
                let o = self.others(0);
                self.eat(old, o, &mut h.rng)?;
                h.m.clear();
                self.balance(0)
            }
            // bulk load with repetitions
            SP2 => {
                let dom = h.m.dom();
                let n = op.ua() % (dom + 20);
                let mut xs: Vec<u32> = (0..n).map(|_| h.rng.below(dom) as u32).collect();
                xs.sort();
                drop(std::mem::replace(&mut self.core.d, D::new()));
                self.balance(0)?;
                let mut m = Model::new(dom);
                let mut items = vec![];
                for x in xs {
                    let vid = h.next_vid();
                    self.dups += m.set(x, vid).is_some() as u64;
                    items.push((K::of(x), V::of(vid)));
                }
                self.core.d = D::bulk_dups(items);
                h.m = m;
                h.max_n = h.max_n.max(h.m.len());
                self.balance(h.m.len())?;
                self.core.len(h.m.len())
            }
            // removals by position
            _ => {
                let k = op.ub() % (n / 2 + 10);
                for _ in 0..k {
                    let len = h.m.len();
                    let i = match op.ua() % 3 {
                        0 => 0,
                        1 => h.rng.below(len + 1),
                        _ => len.saturating_sub(1),
                    };
                    let Some(got) = self.core.d.take_at(i) else { return Ok(()) };
                    let want = h.m.select(i);
                    match (&got, want) {
                        (None, None) => {}
                        (Some((k, v)), Some(x)) if k.ix() == x && v.is(h.m.get(x).unwrap()) => {}
                        _ => return Err(format!("removing position {i} gave {got:?}, should be key {want:?}")),
                    }
                    drop(got);
                    if let Some(x) = want {
                        h.m.remove(x);
                        self.released += 1;
                    }
                    self.balance(h.m.len())?;
                }
                Ok(())
            }
        }
    }
}

fn body<K: TKey, V: TVal, D: Own<K, V>>(case: &Case, cx: &mut Cx, toks: bool, vals: bool) -> R {
    tok::reset();
    let mut s: S<K, V, D> = S {
        core: Core::new(D::new()),
        clones: vec![],
        toks,
        vals,
        partial: 0,
        cloned: 0,
        dups: 0,
        released: 0,
    };
    let h = run_hist(case, &mut s, cx)?;
    // all go, in a varying order and manner
    let mut rng = Rng::new(case.param(1) as u64);
    if rng.bool() {
        let old = std::mem::replace(&mut s.core.d, D::new());
        let o = s.others(0);
        s.eat(old, o, &mut rng)?;
    }
    let (partial, cloned, dups, released, over) = (s.partial, s.cloned, s.dups, s.released, s.core.overwrites);
    drop(s);
    if let Some(e) = tok::error() {
        return Err(e);
    }
    let (k, v, a) = (tok::live(tok::KEY), tok::live(tok::VAL), tok::live(tok::AUG));
    ensure!(
        k == 0 && v == 0 && a == 0,
        "never released: {k} keys, {v} values, {a} summaries (everything has been dropped)"
    );
    if partial > 0 {
        cx.label("owning iterator dropped half way");
    }
    if cloned > 0 {
        cx.label("clones");
    }
    if dups > 0 {
        cx.label("bulk load with repetitions");
    }
    if over {
        cx.label("overwrites");
    }
    if h.max_n > 64 && released > 0 {
        cx.nontrivial();
    }
    Ok(())
}

fn go<K: TKey, V: TVal, D: Own<K, V>>(case: &Case, cx: &mut Cx, toks: bool, vals: bool) -> R {
    // static names only go into `cx`, which is not counted
    tok::reset();
    let before = usage();
    let mut local = Cx::default();
    let r = body::<K, V, D>(case, &mut local, toks, vals);
    tok::reset();
    let (a, steps) = (local.take(), local.steps);
    drop(local);
    let mut names = [""; 32];
    let mut nt = false;
    let mut n = 0;
    for l in a.0 {
        names[n] = l;
        n += 1;
    }
    nt |= a.1;
    r?;
    let after = usage();
    if after != before {
        return Err(format!(
            "{} bytes in {} blocks were not given back although everything has been dropped",
            after.0 - before.0,
            after.1 - before.1
        ));
    }
    cx.steps += steps;
    for l in &names[..n] {
        cx.label(l);
    }
    if nt {
        cx.nontrivial();
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C10";
    const RULE: &'static str = "Histories over six size classes on tree, map and set with token keys, values and summaries (each instance registered, released once), with clones coming and going, partially consumed owning iterators, bulk loads with repetitions, removals by position and clears; after every step the number of live values is exact and that of live keys bounded, at the end nothing is alive and the allocator has every byte back. Non-trivial: more than one leaf (>64 entries) and removals.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        classes(tier, 20000, 9000, 6000, 2400, 1000, 16)
    }
    fn gen(stage: &str, _idx: u64, rng: &mut Rng) -> Case {
        gen_hist(
            rng,
            stage,
            &HistGen {
                variants: 10,
                specials: &[(SP0, 8), (SP1, 4), (SP2, 4), (SP3, 8)],
                densities: &[0, 8, 40],
                ..HistGen::default()
            },
        )
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        match case.param(3) {
            0 => go::<KTok, VTok, Tree<KTok, VTok>>(case, cx, true, true),
            1 => go::<KTok, VTok, BPlusTreeMap<KTok, VTok>>(case, cx, true, true),
            2 | 3 => go::<KTok, VTok, Tree<KTok, VTok, SumTok>>(case, cx, true, true),
            4 => go::<KTok, VTok, BPlusTreeMap<KTok, VTok, SumTok>>(case, cx, true, true),
            5 => go::<KTok, VTok, Tree<KTok, VTok, GroupCount<GTok>>>(case, cx, true, true),
            6 => go::<KTok, (), BPlusTreeSet<KTok>>(case, cx, true, false),
            7 => go::<String, String, Tree<String, String>>(case, cx, false, false),
            8 => go::<Box<u32>, Box<u64>, BPlusTreeMap<Box<u32>, Box<u64>>>(case, cx, false, false),
            _ => go::<String, (), BPlusTreeSet<String>>(case, cx, false, false),
        }
    }
}
fn main() {
    runner::main::<P>();
}
