//! C16: one collection read by several threads at a time, and handed from
//! thread to thread between changes.

use harness::core::Core;
use harness::dict::Dict;
use harness::hist::Hist;
use harness::iterx;
use harness::kinds::*;
use harness::runner::{stage, Prop, Stage, Tier};
use harness::walk::{dfs, At, Node};
use harness::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize};
use std::sync::Mutex;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, NodeStoreVec};

// ------------------------------------------------- scheduling at comparisons

const NONE: usize = usize::MAX;
/// Threads of a scheduled round run one at a time; every key comparison is a
/// point where the turn may pass to another one, as the seed says.
static TURN: AtomicUsize = AtomicUsize::new(NONE);
static ALIVE: [AtomicBool; 8] = [const { AtomicBool::new(false) }; 8];
static DICE: AtomicU64 = AtomicU64::new(0);
static ONE_IN: AtomicU64 = AtomicU64::new(1);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static NOISE: Cell<u32> = const { Cell::new(0) };
}

/// only the thread whose turn it is throws
fn dice() -> u64 {
    let x = DICE.load(Relaxed).wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    DICE.store(x, Relaxed);
    x >> 33
}

fn wait(me: usize) {
    let mut n = 0u32;
    while TURN.load(Acquire) != me {
        n += 1;
        if n < 100 && !cfg!(miri) {
            std::hint::spin_loop();
        } else {
            std::thread::yield_now();
        }
    }
}

fn pass_on(me: usize) -> bool {
    let from = dice() as usize;
    for i in 0..ALIVE.len() {
        let t = (from + i) % ALIVE.len();
        if t != me && ALIVE[t].load(Relaxed) {
            SWITCHES.fetch_add(1, Relaxed);
            TURN.store(t, Release);
            return true;
        }
    }
    false
}

fn point() {
    let me = ME.with(|m| m.get());
    if me == NONE {
        // free running: disturb the timing a little
        NOISE.with(|n| {
            let x = n.get();
            if x > 0 {
                n.set(x.wrapping_mul(0x9e37_79b1).wrapping_add(0x7f4a_7c15) | 1);
                if x % 61 < 2 {
                    std::thread::yield_now();
                } else if x % 7 == 0 {
                    for _ in 0..x >> 26 {
                        std::hint::spin_loop();
                    }
                }
            }
        });
        return;
    }
    if dice() % ONE_IN.load(Relaxed) == 0 && pass_on(me) {
        wait(me);
    }
}

/// a key whose comparisons are scheduling points
#[derive(Clone, Debug)]
struct YKey(u32);
impl PartialEq for YKey {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for YKey {}
impl PartialOrd for YKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for YKey {
    fn cmp(&self, o: &Self) -> Ordering {
        point();
        let r = self.0.cmp(&o.0);
        point();
        r
    }
}
impl TKey for YKey {
    type Q = YKey;
    fn of(x: u32) -> Self {
        YKey(x)
    }
    fn ix(&self) -> u32 {
        self.0
    }
}

// ------------------------------------------------------------------ sharing

/// Lends a collection to other threads even where the compiler would not; the
/// `traits` stage says whether it would.
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

struct Ask<T>(PhantomData<T>);
trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Not for Ask<T> {}
struct AskSend<T>(PhantomData<T>);
impl<T> Not for AskSend<T> {}
impl<T: Sync> Ask<T> {
    const SYNC: bool = true;
}
impl<T: Send> AskSend<T> {
    const SEND: bool = true;
}

macro_rules! fact {
    ($t:ty, $send:expr, $sync:expr) => {{
        let (a, b) = (AskSend::<$t>::SEND, Ask::<$t>::SYNC);
        ensure!(
            a == $send && b == $sync,
            "{} is {}sendable and {}shareable between threads, should be {}sendable and {}shareable",
            stringify!($t),
            if a { "" } else { "not " },
            if b { "" } else { "not " },
            if $send { "" } else { "not " },
            if $sync { "" } else { "not " }
        );
    }};
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct CellKey(Cell<u32>);
type RcKey = Rc<u32>;
type Guard = std::sync::MutexGuard<'static, u64>;

macro_rules! aug {
    ($name:ident, $inner:ty) => {
        #[derive(Clone, Debug, Default)]
        #[allow(dead_code)]
        struct $name(Option<$inner>);
        impl<K: Clone + Ord, V> Augmentation<K, V> for $name {
            fn from_inner(_: &[K], _: &[Self]) -> Self {
                $name(None)
            }
            fn from_leaf(_: &[K], _: &[V]) -> Self {
                $name(None)
            }
        }
    };
}
aug!(RcAug, Rc<u64>);
aug!(CellAug, Cell<u64>);

fn facts() -> R {
    fact!(Tree<u64, u64>, true, true);
    fact!(Tree<u64, u64, Count>, true, true);
    fact!(Tree<String, Vec<String>>, true, true);
    fact!(Tree<Box<u32>, Box<u64>, Count>, true, true);
    fact!(NodeStoreVec<String, String, Count>, true, true);
    fact!(BPlusTreeMap<u64, u64>, true, true);
    fact!(BPlusTreeMap<String, Box<u64>, Count>, true, true);
    fact!(BPlusTreeSet<u64>, true, true);
    fact!(BPlusTreeSet<String>, true, true);
    // may be sent, may not be shared
    fact!(Tree<u64, Cell<u64>>, true, false);
    fact!(Tree<CellKey, u64>, true, false);
    fact!(Tree<u64, u64, CellAug>, true, false);
    fact!(BPlusTreeMap<u64, Cell<u64>>, true, false);
    fact!(BPlusTreeMap<CellKey, u64>, true, false);
    fact!(BPlusTreeSet<CellKey>, true, false);
    // may be shared, may not be sent
    fact!(Tree<u64, Guard>, false, true);
    fact!(BPlusTreeMap<u64, Guard>, false, true);
    // neither
    fact!(Tree<u64, Rc<u64>>, false, false);
    fact!(Tree<RcKey, u64>, false, false);
    fact!(Tree<u64, u64, RcAug>, false, false);
    fact!(BPlusTreeMap<u64, Rc<u64>>, false, false);
    fact!(BPlusTreeMap<RcKey, u64>, false, false);
    fact!(BPlusTreeSet<RcKey>, false, false);
    fact!(NodeStoreVec<u64, Rc<u64>>, false, false);
    Ok(())
}

// ------------------------------------------------------------------ reading

fn pair<K: TKey, V: TVal>(got: Option<(&K, &V)>, m: &Model, want: Option<u32>, what: &str) -> R {
    match (got, want) {
        (None, None) => Ok(()),
        (Some((k, v)), Some(x)) if k.ix() == x && v.is(m.get(x).unwrap()) => Ok(()),
        _ => Err(format!("{what} gave {got:?}, should be key {want:?}")),
    }
}

trait Shared<K: TKey, V: TVal>: Dict<K, V> {
    /// the ways of reading beyond the dictionary's; `big` forbids whole scans
    fn more(&self, m: &Model, x: u32, rng: &mut Rng, big: bool) -> R;
}

fn order<K: TKey, V: TVal>(
    m: &Model,
    x: u32,
    rng: &mut Rng,
    at: &dyn Fn(usize) -> Option<(u32, u64)>,
    rank: &dyn Fn(&K) -> Result<usize, usize>,
) -> R {
    let i = match rng.below(4) {
        0 => m.len() + rng.below(2),
        1 => m.rank(x),
        _ => rng.below(m.len() + 1),
    };
    let want = m.select(i).map(|x| (x, m.get(x).unwrap()));
    let got = at(i);
    ensure!(got == want, "the entry at {i} is {got:?}, should be {want:?}");
    let want = if m.get(x).is_some() { Ok(m.rank(x)) } else { Err(m.rank(x)) };
    let got = rank(&K::of(x));
    ensure!(got == want, "the rank of {x} is {got:?}, should be {want:?}");
    Ok(())
}

/// which write a value is of, given the candidates
fn vid_of<V: TVal>(v: &V, m: &Model, x: u32) -> u64 {
    match m.get(x) {
        Some(w) if v.is(w) => w,
        _ => u64::MAX,
    }
}

impl<K: TKey, V: TVal> Shared<K, V> for Tree<K, V, Count> {
    fn more(&self, m: &Model, x: u32, rng: &mut Rng, big: bool) -> R {
        match rng.below(if big { 5 } else { 8 }) {
            0 => order::<K, V>(
                m,
                x,
                rng,
                &|i| self.get_by_augmentation(i).map(|(k, v)| (k.ix(), vid_of(v, m, k.ix()))),
                &|k| self.rank_by_augmentation::<usize>(k),
            ),
            1 | 2 => {
                // cursors
                let k = K::of(x);
                let Some((c, v)) = self.get_cursor(&k) else {
                    ensure!(m.is_empty(), "get_cursor({x}) gave nothing");
                    return Ok(());
                };
                ensure!(c.key().ix() == x, "get_cursor({x}) is on {:?}", c.key());
                Core::<K, V, Self>::same(v, m.get(x), "get_cursor", x)?;
                let (mut f, mut b) = (Some(c.clone()), Some(c));
                let (mut fx, mut bx) = (x, x);
                for _ in 0..rng.range(1, 40) {
                    if let Some(c) = f {
                        let n = c.next_with_value(self);
                        pair(n.as_ref().map(|(c, v)| (c.key(), *v)), m, m.succ(fx), "next")?;
                        fx = n.as_ref().map(|n| n.0.key().ix()).unwrap_or(fx);
                        f = n.map(|n| n.0);
                    }
                    if let Some(c) = b {
                        let n = c.prev_with_value(self);
                        pair(n.as_ref().map(|(c, v)| (c.key(), *v)), m, m.pred(bx), "prev")?;
                        bx = n.as_ref().map(|n| n.0.key().ix()).unwrap_or(bx);
                        b = n.map(|n| n.0);
                        if let Some(c) = &b {
                            ensure!(c.exists(self), "the key {bx} of a cursor is said to be gone");
                            Core::<K, V, Self>::same(c.value(self), m.get(bx), "cursor value", bx)?;
                        }
                    }
                }
                Ok(())
            }
            3 => {
                ensure!(self.root_augmentation().count() == m.len(), "the summary is {:?}", self.root_augmentation());
                let c = self.cursor_first();
                let c = c.map(|c| c.key().ix());
                ensure!(c == m.first(), "cursor_first is {c:?}, should be {:?}", m.first());
                Ok(())
            }
            4 => partial(self.iter(), m, rng),
            5 => full(self.iter(), m, rng),
            6 => {
                let e = m.entries();
                let mut i = 0;
                dfs::<K, V, Count>(&|p| self.descend_visit(At::new(p)), &mut |_, n| {
                    if let Node::Leaf { keys, values } = n {
                        for (k, v) in keys.iter().zip(values) {
                            ensure!(
                                i < e.len() && k.ix() == e[i].0 && v.is(e[i].1),
                                "entry {i} shown to the visitor is {k:?} {v:?}"
                            );
                            i += 1;
                        }
                    }
                    Ok(())
                })?;
                ensure!(i == e.len(), "visitors see {i} of {} entries", e.len());
                Ok(())
            }
            _ => {
                let c = self.clone();
                full(c.iter(), m, rng)?;
                Core::<K, V, Self>::same(Dict::get(&c, &K::of(x)), m.get(x), "get in a clone", x)
            }
        }
    }
}

impl<K: TKey, V: TVal> Shared<K, V> for BPlusTreeMap<K, V, Count> {
    fn more(&self, m: &Model, x: u32, rng: &mut Rng, big: bool) -> R {
        match rng.below(if big { 3 } else { 4 }) {
            0 => order::<K, V>(
                m,
                x,
                rng,
                &|i| self.get_by_augmentation(i).map(|(k, v)| (k.ix(), vid_of(v, m, k.ix()))),
                &|k| self.rank_by_augmentation::<usize>(k),
            ),
            1 => {
                ensure!(self.root_augmentation().count() == m.len(), "the summary is {:?}", self.root_augmentation());
                Ok(())
            }
            2 => partial(self.iter(), m, rng),
            _ => full(self.iter(), m, rng),
        }
    }
}

impl<K: TKey> Shared<K, ()> for BPlusTreeSet<K> {
    fn more(&self, m: &Model, _x: u32, rng: &mut Rng, big: bool) -> R {
        match rng.below(if big { 1 } else { 3 }) {
            0 => {
                let e = m.entries();
                iterx::script(self.iter(), e.len(), 200, rng, &|k, i| k.ix() == e[i].0, None)
            }
            1 => {
                let e = m.entries();
                iterx::script(self.iter(), e.len(), usize::MAX, rng, &|k, i| k.ix() == e[i].0, None)
            }
            _ => {
                // with itself
                let e = m.entries();
                let mut i = 0;
                for k in self.union(self) {
                    ensure!(i < e.len() && k.ix() == e[i].0, "entry {i} of the union is {k:?}");
                    i += 1;
                }
                ensure!(i == e.len(), "the union has {i} of {} keys", e.len());
                Ok(())
            }
        }
    }
}

fn partial<'a, K: TKey + 'a, V: TVal + 'a, I>(it: I, m: &Model, rng: &mut Rng) -> R
where
    I: DoubleEndedIterator<Item = (&'a K, &'a V)> + ExactSizeIterator,
{
    let e = m.entries();
    iterx::script(it, e.len(), 150, rng, &|(k, v), i| k.ix() == e[i].0 && v.is(e[i].1), None)
}
fn full<'a, K: TKey + 'a, V: TVal + 'a, I>(it: I, m: &Model, rng: &mut Rng) -> R
where
    I: DoubleEndedIterator<Item = (&'a K, &'a V)> + ExactSizeIterator,
{
    let e = m.entries();
    iterx::script(it, e.len(), usize::MAX, rng, &|(k, v), i| k.ix() == e[i].0 && v.is(e[i].1), None)
}

/// What one reader does in a round.
fn reader<K: TKey, V: TVal, D: Shared<K, V>>(d: &D, m: &Model, mut rng: Rng, ops: usize, style: usize) -> R {
    // a few keys of its own, in different leaves, read over and over
    let n = m.len();
    let mut pool: Vec<u32> = vec![];
    for _ in 0..rng.range(2, 6) {
        let x = if n > 0 && rng.pct(80) { m.select(rng.below(n)).unwrap() } else { rng.below(m.dom()) as u32 };
        pool.push(x);
    }
    let big = n > 3000;
    for i in 0..ops {
        let x = if style == 1 || rng.pct(80) { pool[i % pool.len()] } else { rng.below(m.dom()) as u32 };
        let what = match style {
            // nothing but lookups
            0 | 1 => rng.below(2),
            // everything
            _ => match rng.below(10) {
                0..=5 => rng.below(2),
                6 => 2,
                _ => 3,
            },
        };
        match what {
            0 => Core::<K, V, D>::same(d.get(&K::of(x)), m.get(x), "get", x)?,
            1 => Core::<K, V, D>::same(d.get_q(K::of(x).q()), m.get(x), "get borrowed", x)?,
            2 => {
                ensure!(d.len() == n && d.is_empty() == (n == 0), "len() is {}, should be {n}", d.len());
                pair(d.first(), m, m.first(), "first")?;
                pair(d.last(), m, m.last(), "last")?;
            }
            _ => d.more(m, x, &mut rng, big)?,
        }
    }
    Ok(())
}

fn caught<F: FnOnce() -> R>(f: F) -> R {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err(runner::last_panic()))
}

// ---------------------------------------------------------------- histories

struct S<K: TKey, V: TVal, D: Shared<K, V>> {
    core: Core<K, V, D>,
    rounds: u64,
    moves: u64,
    /// most entries present in a round
    most: usize,
    reads: u64,
    miri: bool,
}

impl<K: TKey + Send + Sync, V: TVal + Send + Sync, D: Shared<K, V>> S<K, V, D> {
    fn round(&mut self, m: &Model, o: &Op, sched: bool) -> R {
        let mut rng = Rng::new(o.ua() as u64);
        let n = if self.miri { rng.range(2, 3) } else { rng.pick(&[2usize, 2, 3, 4, 8]) };
        let style = o.ub() % 4;
        let ops = match (self.miri, sched, style) {
            (true, _, 0 | 1) => 12,
            (true, _, _) => 4,
            (_, true, 0 | 1) => rng.range(4, 60),
            (_, true, _) => rng.range(2, 12),
            (_, _, 0 | 1) => rng.range(100, 2500),
            _ => rng.range(20, 120),
        };
        let d = Force(std::mem::replace(&mut self.core.d, D::new()));
        ONE_IN.store(rng.pick(&[1u64, 2, 3, 7, 20]), Relaxed);
        DICE.store(rng.next(), Relaxed);
        let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
        if sched {
            for a in ALIVE.iter().take(n) {
                a.store(true, Relaxed);
            }
            TURN.store(0, Release);
        }
        let ready = AtomicUsize::new(0);
        let failed: Mutex<Option<String>> = Mutex::new(None);
        let one = |t: usize| {
            if sched {
                ME.with(|x| x.set(t));
                wait(t);
            } else {
                NOISE.with(|x| x.set((seeds[t] as u32) | 1));
                ready.fetch_add(1, Release);
                while ready.load(Acquire) < n {
                    std::thread::yield_now();
                }
            }
            let r = caught(|| reader::<K, V, D>(d.get(), m, Rng::new(seeds[t]), ops, style));
            ME.with(|x| x.set(NONE));
            NOISE.with(|x| x.set(0));
            if sched {
                ALIVE[t].store(false, Relaxed);
                if !pass_on(t) {
                    TURN.store(NONE, Release);
                }
            }
            if let Err(e) = r {
                let mut g = failed.lock().unwrap();
                if g.is_none() {
                    *g = Some(format!("reader {t} of {n}: {e}"));
                }
            }
        };
        std::thread::scope(|s| {
            for t in 1..n {
                let one = &one;
                s.spawn(move || one(t));
            }
            one(0);
        });
        let _ = one;
        self.core.d = d.take();
        self.rounds += 1;
        self.reads += (n * ops) as u64;
        self.most = self.most.max(m.len());
        match failed.into_inner().unwrap() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}

impl<K: TKey + Send + Sync, V: TVal + Send + Sync, D: Shared<K, V>> Sink for S<K, V, D> {
    steps_via!(core);
    fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        self.core.probe(m, last, rng)
    }
    fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.core.check(m, rng)
    }
    fn special(&mut self, h: &mut Hist, o: &Op) -> R {
        match o.c {
            SP0 => self.round(&h.m.clone(), o, false),
            SP1 => self.round(&h.m.clone(), o, true),
            _ => {
                // read here, change on another thread, read here again
                let m = h.m.clone();
                let x = Hist::interesting(&h.m, h.last, &mut h.rng);
                self.core.read(&m, x, o.ub() % 4)?;
                let me = Force((&mut *self, &mut *h));
                let (a, b) = (o.ua(), o.ub());
                std::thread::scope(|s| {
                    s.spawn(move || {
                        let (me, h) = me.take();
                        caught(|| {
                            let r = h.m.rank(x).saturating_sub(h.rng.below(40));
                            for i in 0..b % 100 + 1 {
                                if a % 2 == 0 || h.m.is_empty() {
                                    let y = (x as usize + i) % h.m.dom();
                                    h.insert(me, y as u32)?;
                                } else if let Some(y) = h.m.select(r.min(h.m.len() - 1)) {
                                    h.remove(me, y)?;
                                }
                            }
                            let m = h.m.clone();
                            me.core.check(&m, &mut h.rng)?;
                            if a % 8 > 5 {
                                // leaves for good, another one comes
                                let old = std::mem::replace(&mut me.core.d, D::new());
                                let items = m.entries();
                                me.core.d = D::bulk(
                                    items.into_iter().map(|(x, v)| (K::of(x), V::of(v))).collect(),
                                    b,
                                );
                                drop(old);
                            }
                            Ok(())
                        })
                    })
                    .join()
                    .unwrap()
                })
                .map_err(|e| format!("on another thread: {e}"))?;
                self.moves += 1;
                let m = h.m.clone();
                self.core.read(&m, x, 0)?;
                for _ in 0..20 {
                    self.core.probe(&m, x, &mut h.rng)?;
                }
                self.core.len(m.len())
            }
        }
    }
}

fn go<K: TKey + Send + Sync, V: TVal + Send + Sync, D: Shared<K, V>>(case: &Case, cx: &mut Cx) -> R {
    let mut s: S<K, V, D> = S {
        core: Core::new(D::new()),
        rounds: 0,
        moves: 0,
        most: 0,
        reads: 0,
        miri: cfg!(miri),
    };
    SWITCHES.store(0, Relaxed);
    run_hist(case, &mut s, cx)?;
    cx.steps += s.reads;
    if s.moves > 0 {
        cx.label("changed on several threads");
    }
    if SWITCHES.load(Relaxed) > 50 {
        cx.label("more than 50 switches inside reads");
    }
    if s.rounds > 0 && s.most > 64 {
        cx.nontrivial();
    }
    // goes on another thread
    let d = Force(s.core.d);
    std::thread::scope(|s| {
        s.spawn(move || drop(d.take()));
    });
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C16";
    const RULE: &'static str = "Histories over six size classes on trees, maps and sets, interrupted by rounds in which 2 to 8 threads read the collection at the same time (owned and borrowed lookups of a few hot keys in different leaves, or everything: iteration, cursors, rank and position, visitors, clones, ends, union), each answer compared with the model. Rounds run free behind a start barrier, or one thread at a time with the turn passed, as the seed says, at key comparisons. Changes are also made on other threads between reads. A fixed table says which instances may be sent and shared. Non-trivial: a round on more than one leaf (>64 entries).";
    fn stages(tier: Tier, profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 12 } else { 1 };
        match profile {
            "miri" => vec![stage("traits", 1), stage("mini", if tier == Tier::Thorough { 1000 } else { 32 })],
            _ => vec![
                stage("traits", 1),
                stage("huge", 3 * f),
                stage("large", 150 * f),
                stage("medium", 600 * f),
                stage("small", 1500 * f),
                stage("leaf", 1000 * f),
                stage("tiny", 500 * f),
            ],
        }
    }
    fn gen(st: &str, _idx: u64, rng: &mut Rng) -> Case {
        if st == "traits" {
            return Case { stage: st.to_string(), params: vec![], ops: vec![] };
        }
        if st == "mini" {
            let n = rng.pick(&[1usize, 20, 70, 130, 200]);
            let dom = n + rng.below(20) + 2;
            let mut ops = vec![op(INS, 0, n, rng.below(3))];
            for _ in 0..2 {
                if rng.bool() {
                    ops.push(op(DEL, rng.below(n), rng.below(30), rng.below(2)));
                }
                if rng.pct(30) {
                    ops.push(op(SP2, rng.below(1 << 30), rng.below(20), 0));
                }
                let c = if rng.below(4) == 0 { SP1 } else { SP0 };
                ops.push(op(c, rng.below(1 << 30), rng.below(4), 0));
            }
            return Case {
                stage: st.to_string(),
                params: vec![dom as i64, (rng.next() >> 1) as i64, 0, rng.below(9) as i64],
                ops,
            };
        }
        let mut c = gen_hist(
            rng,
            st,
            &HistGen {
                variants: 9,
                specials: &[(SP0, 10), (SP1, 10), (SP2, 8)],
                densities: &[0, 16],
                drain_pct: 10,
                ..HistGen::default()
            },
        );
        // rounds at the beginning, when it is full, and at the end
        let at = rng.range(1, 2).min(c.ops.len());
        for (i, at) in [at, at, c.ops.len() + 2].into_iter().enumerate() {
            let code = if (i + rng.below(2)) % 2 == 0 { SP0 } else { SP1 };
            c.ops.insert(at, op(code, rng.below(1 << 30), rng.below(1 << 30), 0));
        }
        c
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        if case.stage == "traits" {
            return facts();
        }
        match case.param(3) {
            0 | 1 => go::<YKey, u64, Tree<YKey, u64, Count>>(case, cx),
            2 => go::<YKey, u64, BPlusTreeMap<YKey, u64, Count>>(case, cx),
            3 => go::<YKey, (), BPlusTreeSet<YKey>>(case, cx),
            4 => go::<u32, u64, Tree<u32, u64, Count>>(case, cx),
            5 => go::<String, String, Tree<String, String, Count>>(case, cx),
            6 => go::<u32, u64, BPlusTreeMap<u32, u64, Count>>(case, cx),
            7 => go::<String, (), BPlusTreeSet<String>>(case, cx),
            _ => go::<Wide, [u64; 5], Tree<Wide, [u64; 5], Count>>(case, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
