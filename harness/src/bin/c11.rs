//! C11: histories of safe calls, well behaved or not, must stay memory safe.
//! What is returned does not matter here (that is C01..C09); what matters is
//! that every key, value and summary seen is alive, and that the tokens, the
//! sanitizer, the checked build and Miri have nothing to complain about.

use harness::runner::{stage, Prop, Stage, Tier};
use harness::tok::{self, Inst};
use harness::*;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount};
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, Key, NodeStoreVec};

thread_local! {
    /// how comparisons misbehave right now: 0 = they do not
    static MOOD: Cell<usize> = const { Cell::new(0) };
    static DICE: RefCell<Rng> = RefCell::new(Rng::new(1));
    /// what went wrong while user code was being called
    static COMPLAINT: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn dice(n: usize) -> usize {
    DICE.with(|d| d.borrow_mut().below(n))
}
fn complain(e: String) {
    COMPLAINT.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Some(e);
        }
    });
}
/// an order that may or may not be one
fn moody(a: u32, b: u32) -> Ordering {
    let honest = a.cmp(&b);
    match MOOD.with(|m| m.get()) {
        0 => honest,
        1 => {
            if dice(20) == 0 {
                honest.reverse()
            } else {
                honest
            }
        }
        2 => match dice(3) {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        },
        3 => Ordering::Less,
        4 => Ordering::Greater,
        5 => Ordering::Equal,
        // some keys are equal to everything, others never to themselves
        6 => {
            if a % 13 == 0 || b % 13 == 0 {
                Ordering::Equal
            } else if a % 7 == 0 {
                Ordering::Greater
            } else {
                honest
            }
        }
        // another order altogether
        7 => (a.wrapping_mul(2654435761)).cmp(&b.wrapping_mul(2654435761)),
        8 => honest.reverse(),
        _ => {
            if dice(200) == 0 {
                Ordering::Equal
            } else {
                honest
            }
        }
    }
}

trait WKey: Key + std::fmt::Debug + Borrow<Self::Q> {
    type Q: ?Sized + Ord;
    fn make(x: u32) -> Self;
    /// look at the key: is it what it claims to be
    fn look(&self);
    fn num(&self) -> u32;
}
trait WVal: Clone + std::fmt::Debug {
    fn make(x: u64) -> Self;
    fn look(&self);
    fn edit(&mut self) {}
}

/// moody token key
#[derive(Clone, Debug)]
struct MKey {
    x: u32,
    i: Inst,
}
impl MKey {
    fn seen(&self) -> u32 {
        if let Err(e) = self.i.check() {
            complain(e);
        }
        self.x
    }
}
/// the borrowed form is compared by its own, just as moody, order
#[repr(transparent)]
struct MRef(MKey);
impl PartialEq for MKey {
    fn eq(&self, o: &Self) -> bool {
        moody(self.seen(), o.seen()) == Ordering::Equal
    }
}
impl Eq for MKey {}
impl PartialOrd for MKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for MKey {
    fn cmp(&self, o: &Self) -> Ordering {
        moody(self.seen(), o.seen())
    }
}
impl PartialEq for MRef {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for MRef {}
impl PartialOrd for MRef {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for MRef {
    fn cmp(&self, o: &Self) -> Ordering {
        let r = moody(self.0.seen(), o.0.seen());
        if MOOD.with(|m| m.get()) == 9 && dice(10) == 0 {
            r.reverse()
        } else {
            r
        }
    }
}
impl Borrow<MRef> for MKey {
    fn borrow(&self) -> &MRef {
        // same layout by repr(transparent)
        unsafe { &*(self as *const MKey as *const MRef) }
    }
}
impl WKey for MKey {
    type Q = MRef;
    fn make(x: u32) -> Self {
        MKey { x, i: Inst::new(tok::KEY) }
    }
    fn look(&self) {
        self.seen();
    }
    fn num(&self) -> u32 {
        self.x
    }
}
#[derive(Clone, Debug)]
struct MVal(u64, Inst);
impl WVal for MVal {
    fn make(x: u64) -> Self {
        MVal(x, Inst::new(tok::VAL))
    }
    fn look(&self) {
        if let Err(e) = self.1.check() {
            complain(e);
        }
    }
    fn edit(&mut self) {
        self.1 = Inst::new(tok::VAL);
    }
}

macro_rules! plain {
    ($t:ty, $of:expr, $look:expr, $num:expr) => {
        impl WKey for $t {
            type Q = $t;
            fn make(x: u32) -> Self {
                $of(x)
            }
            fn look(&self) {
                $look(self)
            }
            fn num(&self) -> u32 {
                $num(self)
            }
        }
    };
}
/// zero-sized, zero-sized and over-aligned, over-aligned, heap-owning keys
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Nil;
#[repr(align(128))]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct NilWide;
#[repr(align(128))]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Broad(u32);
fn aligned<T>(p: &T, n: usize) {
    if p as *const T as usize % n != 0 {
        complain(format!("a reference to a type of alignment {n} is not aligned"));
    }
}
plain!(Nil, |_| Nil, |_: &Nil| (), |_: &Nil| 0);
plain!(NilWide, |_| NilWide, |k: &NilWide| aligned(k, 128), |_: &NilWide| 0);
plain!(Broad, |x| Broad(x), |k: &Broad| aligned(k, 128), |k: &Broad| k.0);
plain!(u8, |x: u32| x as u8, |_: &u8| (), |k: &u8| *k as u32);
impl WKey for String {
    type Q = str;
    fn make(x: u32) -> Self {
        format!("{x:06}")
    }
    fn look(&self) {
        if self.len() < 6 || self.bytes().any(|b| !b.is_ascii_digit()) {
            complain(format!("corrupt key {self:?}"));
        }
    }
    fn num(&self) -> u32 {
        self.parse().unwrap_or(0)
    }
}
impl WVal for () {
    fn make(_: u64) -> Self {}
    fn look(&self) {}
}
impl WVal for NilWide {
    fn make(_: u64) -> Self {
        NilWide
    }
    fn look(&self) {
        aligned(self, 128)
    }
}
impl WVal for Broad {
    fn make(x: u64) -> Self {
        Broad(x as u32)
    }
    fn look(&self) {
        aligned(self, 128)
    }
}
impl WVal for Vec<u64> {
    fn make(x: u64) -> Self {
        vec![x, !x]
    }
    fn look(&self) {
        if self.len() != 2 || self[0] != !self[1] {
            complain(format!("corrupt value {self:?}"));
        }
    }
    fn edit(&mut self) {
        *self = vec![5, !5];
    }
}
impl WVal for Option<Box<u8>> {
    fn make(x: u64) -> Self {
        (x % 3 != 0).then(|| Box::new(x as u8))
    }
    fn look(&self) {
        if let Some(b) = self {
            std::hint::black_box(**b);
        }
    }
}

/// Summary that owns memory and answers queries with whatever it likes.
#[derive(Clone, Debug)]
struct Wild {
    n: usize,
    i: Inst,
}
impl Default for Wild {
    fn default() -> Self {
        Wild { n: 0, i: Inst::new(tok::AUG) }
    }
}
fn see_all<K: WKey, V: WVal>(keys: &[K], values: &[V]) {
    if keys.len() != values.len() {
        complain(format!("a leaf with {} keys and {} values", keys.len(), values.len()));
    }
    keys.iter().for_each(|k| k.look());
    values.iter().for_each(|v| v.look());
}
fn see_inner<K: WKey>(keys: &[K], a: &[Wild]) {
    if keys.len() + 1 != a.len() {
        complain(format!("an inner node with {} keys and {} summaries", keys.len(), a.len()));
    }
    keys.iter().for_each(|k| k.look());
    for x in a {
        if let Err(e) = x.i.check() {
            complain(e);
        }
    }
}
impl<K: WKey, V: WVal> Augmentation<K, V> for Wild {
    fn from_inner(keys: &[K], a: &[Self]) -> Self {
        see_inner(keys, a);
        Wild { n: a.iter().map(|x| x.n).sum(), i: Inst::new(tok::AUG) }
    }
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        see_all(keys, values);
        Wild { n: keys.len(), i: Inst::new(tok::AUG) }
    }
}
#[derive(Clone, Copy)]
enum Ask {
    Nth(usize),
    /// answers in the inner nodes (from the top) and the leaf, as they are
    Raw([usize; 4], usize, usize),
}
impl<K: WKey, V: WVal> SearchAugmentation<K, V> for Wild {
    type Query = Ask;
    fn locate_in_leaf(q: Ask, keys: &[K], values: &[V]) -> Option<usize> {
        see_all(keys, values);
        match q {
            Ask::Nth(i) => (i < keys.len()).then_some(i),
            Ask::Raw(_, _, slot) => match slot {
                usize::MAX => None,
                1000.. => Some(keys.len() + slot - 1000),
                s => Some(s),
            },
        }
    }
    fn locate_in_inner(q: Ask, keys: &[K], a: &[Self]) -> Option<(usize, Ask)> {
        see_inner(keys, a);
        match q {
            Ask::Nth(mut i) => {
                for (c, x) in a.iter().enumerate() {
                    if i < x.n {
                        return Some((c, Ask::Nth(i)));
                    }
                    i -= x.n;
                }
                None
            }
            Ask::Raw(path, d, slot) => {
                let c = path[d.min(3)];
                let c = if c >= 1000 { a.len() - 1 + (c - 1000) } else { c };
                Some((c, Ask::Raw(path, d + 1, slot)))
            }
        }
    }
}
impl<K: WKey, V: WVal> RankAugmentation<K, V> for Wild {
    type Rank = Vec<usize>;
    fn initial_value() -> Vec<usize> {
        vec![]
    }
    fn fold_inner(k: &K, mut r: Vec<usize>, a: &[Self]) -> Vec<usize> {
        k.look();
        for x in a {
            if let Err(e) = x.i.check() {
                complain(e);
            }
        }
        r.push(a.len());
        r
    }
    fn fold_leaf(k: &K, r: Vec<usize>, s: Result<usize, usize>, keys: &[K]) -> Result<Vec<usize>, Vec<usize>> {
        k.look();
        keys.iter().for_each(|k| k.look());
        let n = s.unwrap_or_else(|e| e);
        if n > keys.len() {
            complain(format!("slot {n} of {} keys handed to fold_leaf", keys.len()));
        }
        if s.is_ok() {
            Ok(r)
        } else {
            Err(r)
        }
    }
}
/// Goes wherever it is told to.
struct Roam([usize; 4], usize);
impl<K: WKey, V: WVal> DescendVisit<K, V, Wild> for Roam {
    type Result = usize;
    fn visit_inner(&mut self, keys: &[K], a: &[Wild]) -> DescendVisitResult<usize> {
        see_inner(keys, a);
        let c = self.0[self.1.min(3)];
        self.1 += 1;
        match c {
            usize::MAX => DescendVisitResult::Cancel,
            1_000_000.. => DescendVisitResult::Complete(c),
            1000.. => DescendVisitResult::GoDown(a.len() - 1 + (c - 1000)),
            c => DescendVisitResult::GoDown(c),
        }
    }
    fn visit_leaf(&mut self, keys: &[K], values: &[V]) -> Option<usize> {
        see_all(keys, values);
        (!keys.is_empty()).then_some(keys.len())
    }
}

fn spot(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => usize::MAX,
        1 => usize::MAX - 1,
        2..=3 => 1000 + rng.below(3),
        4 => rng.below(70),
        5 => rng.below(1 << 17),
        _ => rng.below(5),
    }
}

type T<K, V> = BPlusTree<NodeStoreVec<K, V, Wild>>;

struct Play<K: WKey, V: WVal> {
    t: T<K, V>,
    spare: Option<T<K, V>>,
    cur: Vec<Cursor<K>>,
    rng: Rng,
    vid: u64,
    dom: usize,
    odd: bool,
}

impl<K: WKey, V: WVal> Play<K, V> {
    fn key(&mut self) -> K {
        K::make(self.rng.below(self.dom) as u32)
    }
    fn val(&mut self) -> V {
        self.vid += 1;
        V::make(self.vid)
    }
    fn read(&mut self) {
        let k = self.key();
        match self.rng.below(7) {
            0 => self.t.get::<K>(&k).into_iter().for_each(|v| v.look()),
            1 => self.t.get::<K::Q>(k.borrow()).into_iter().for_each(|v| v.look()),
            2 => {
                if let Some(v) = self.t.get_mut::<K::Q>(k.borrow()) {
                    v.look();
                    v.edit();
                }
            }
            3 => {
                for e in [self.t.first(), self.t.last()].into_iter().flatten() {
                    e.0.look();
                    e.1.look();
                }
            }
            4 => {
                let _ = self.t.rank_by_augmentation(&k);
            }
            5 => {
                let i = self.rng.below(self.dom);
                if let Some((k, v)) = self.t.get_by_augmentation(Ask::Nth(i)) {
                    k.look();
                    v.look();
                }
            }
            _ => {
                self.t.len();
                self.t.root_augmentation().i.check().unwrap_or_else(complain);
            }
        }
    }
    fn iterate(&mut self) {
        let mut it = self.t.iter();
        let share = self.rng.below(5);
        let cap = self.dom * 2 + 200;
        let stop = if self.rng.bool() { usize::MAX } else { self.rng.below(cap) };
        for n in 0.. {
            if n > cap || n > stop {
                break;
            }
            let e = if self.rng.below(4) < share { it.next() } else { it.next_back() };
            match e {
                None => break,
                Some((k, v)) => {
                    k.look();
                    v.look();
                }
            }
            if self.rng.below(50) == 0 {
                let c = it.clone();
                for (k, v) in c.take(5) {
                    k.look();
                    v.look();
                }
            }
        }
    }
    fn consume(t: T<K, V>, rng: &mut Rng, cap: usize) {
        let mut it = t.into_iter();
        let share = rng.below(5);
        let stop = if rng.bool() { usize::MAX } else { rng.below(cap) };
        let mut kept = vec![];
        for n in 0.. {
            if n > cap || n > stop {
                break;
            }
            let e = if rng.below(4) < share { it.next() } else { it.next_back() };
            match e {
                None => break,
                Some((k, v)) => {
                    k.look();
                    v.look();
                    kept.push((k, v));
                }
            }
        }
        if rng.bool() {
            drop(it);
        }
        for (k, v) in &kept {
            k.look();
            v.look();
        }
    }
    fn cursors(&mut self) {
        let k = self.key();
        let c = match self.rng.below(4) {
            0 => Cursor::first(&self.t).map(|x| x.0),
            1 => Cursor::last(&self.t).map(|x| x.0),
            _ => self.t.get_cursor(&k).map(|x| x.0),
        };
        if let Some(c) = c {
            if self.cur.len() > 6 {
                let i = self.rng.below(7);
                self.cur[i] = c;
            } else {
                self.cur.push(c);
            }
        }
        for _ in 0..self.rng.range(1, 30) {
            if self.cur.is_empty() {
                break;
            }
            let i = self.rng.below(self.cur.len());
            let t = match &self.spare {
                Some(s) if self.rng.below(6) == 0 => s,
                _ => &self.t,
            };
            let c = &self.cur[i];
            c.key().look();
            let n = match self.rng.below(4) {
                0 => c.next_with_value(t),
                1 => c.prev_with_value(t),
                2 => {
                    c.value(t).into_iter().for_each(|v| v.look());
                    c.next(t).into_iter().for_each(|n| n.key().look());
                    None
                }
                _ => {
                    c.exists(t);
                    c.prev(t).into_iter().for_each(|n| n.key().look());
                    None
                }
            };
            if let Some((n, v)) = n {
                n.key().look();
                v.look();
                self.cur[i] = n;
            }
        }
    }
    fn step(&mut self, o: &Op) {
        let n = o.ub();
        match o.c {
            INS => {
                let (at, st) = (o.ua(), o.ud() >> 1);
                for i in 0..n {
                    let x = if o.d & 1 == 0 { (at + i * st) % self.dom } else { self.rng.below(self.dom) };
                    let (k, v) = (K::make(x as u32), self.val());
                    if let Some(v) = self.t.insert(k, v) {
                        v.look();
                    }
                }
            }
            DEL => {
                let (at, st) = (o.ua(), o.ud() >> 1);
                for i in 0..n {
                    let x = if o.d & 1 == 0 { (at + i * st) % self.dom } else { self.rng.below(self.dom) };
                    let k = K::make(x as u32);
                    let v = if i % 2 == 0 { self.t.remove::<K>(&k) } else { self.t.remove::<K::Q>(k.borrow()) };
                    if let Some(v) = v {
                        v.look();
                    }
                }
            }
            // removal by position
            TOG => {
                for i in 0..n {
                    let len = self.t.len();
                    let p = match o.a % 3 {
                        0 => 0,
                        1 => len.saturating_sub(1),
                        _ => (o.ud() * i) % (len + 1),
                    };
                    if let Some((k, v)) = self.t.remove_by_augmentation(Ask::Nth(p)) {
                        k.look();
                        v.look();
                    }
                }
            }
            PRB => {
                for _ in 0..n.min(200) {
                    self.read();
                }
            }
            CHK => self.iterate(),
            SP0 => self.cursors(),
            SP1 => {
                let t = std::mem::replace(&mut self.t, BPlusTree::new(NodeStoreVec::new()));
                let cap = self.dom * 2 + 200;
                Self::consume(t, &mut self.rng, cap);
            }
            SP2 => match o.d % 4 {
                0 => self.spare = Some(self.t.clone()),
                1 => {
                    if let Some(s) = &mut self.spare {
                        std::mem::swap(s, &mut self.t);
                    }
                }
                2 => {
                    if let Some(s) = self.spare.take() {
                        let cap = self.dom * 2 + 200;
                        Self::consume(s, &mut self.rng, cap);
                    }
                }
                _ => self.spare = None,
            },
            CLR => self.t.clear(),
            // bulk load, in no particular order
            BLD => {
                let n = n % (self.dom * 2 + 1);
                let mut items: Vec<(K, V)> = vec![];
                for i in 0..n {
                    let x = match o.d % 4 {
                        0 => i % self.dom,
                        1 => self.dom - 1 - i % self.dom,
                        _ => self.rng.below(self.dom),
                    };
                    items.push((K::make(x as u32), self.val()));
                }
                self.odd |= o.d % 4 != 0;
                self.t = BPlusTree::bulk_load(items);
            }
            // positions and children that may not exist
            SP3 => {
                self.odd = true;
                for _ in 0..n % 8 + 1 {
                    let mut path = [0; 4];
                    for p in path.iter_mut() {
                        *p = spot(&mut self.rng);
                    }
                    if self.rng.bool() {
                        path[0] = self.rng.below(3);
                        path[1] = self.rng.below(3);
                    }
                    let q = Ask::Raw(path, 0, spot(&mut self.rng));
                    let how = self.rng.below(4);
                    let t = &mut self.t;
                    let r = catch_unwind(AssertUnwindSafe(|| match how {
                        0 => {
                            if let Some((k, v)) = t.get_by_augmentation(q) {
                                k.look();
                                v.look();
                            }
                        }
                        1 => {
                            if let Some(v) = t.get_mut_by_augmentation(q) {
                                v.look();
                                v.edit();
                            }
                        }
                        2 => {
                            if let Some((k, v)) = t.remove_by_augmentation(q) {
                                k.look();
                                v.look();
                            }
                        }
                        _ => {
                            t.descend_visit(Roam(path, 0));
                        }
                    }));
                    drop(r);
                }
            }
            // change how comparisons behave
            SP4 => {
                let m = o.ud() % 11;
                let m = if m == 10 { 0 } else { m };
                self.odd |= m != 0;
                MOOD.with(|c| c.set(m));
            }
            _ => {}
        }
    }
}

fn complaint() -> R {
    if let Some(e) = COMPLAINT.with(|c| c.borrow().clone()) {
        return Err(e);
    }
    match tok::error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn tree<K: WKey, V: WVal>(case: &Case, cx: &mut Cx) -> R {
    let mut p: Play<K, V> = Play {
        t: BPlusTree::new(NodeStoreVec::new()),
        spare: None,
        cur: vec![],
        rng: Rng::new(case.param(1) as u64),
        vid: 0,
        dom: case.param(0).clamp(1, 1 << 17) as usize,
        odd: false,
    };
    let mut big = 0;
    for (i, o) in case.ops.iter().enumerate() {
        p.rng = Rng::new(rng::mix(&[case.param(1) as u64, i as u64, o.a as u64, o.b as u64]));
        DICE.with(|d| *d.borrow_mut() = Rng::new(rng::mix(&[case.param(1) as u64, i as u64])));
        let was = p.odd;
        let r = catch_unwind(AssertUnwindSafe(|| p.step(o)));
        let at = |e: String| format!("{e} [at op {i}: {} {} {} {}]", o.name(), o.a, o.b, o.d);
        complaint().map_err(at)?;
        if r.is_err() {
            // with misbehaving user code a call may be refused by panicking
            if !p.odd && !was {
                return Err(at(runner::last_panic()));
            }
            cx.label("refused by panicking");
        }
        big = big.max(p.t.len());
        cx.steps += o.ub() as u64;
    }
    if p.odd {
        cx.label("misbehaving order, input or positions");
    }
    let odd = p.odd;
    let r = catch_unwind(AssertUnwindSafe(|| drop(p)));
    complaint()?;
    if r.is_err() && !odd {
        return Err(runner::last_panic());
    }
    if big > 64 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------- the other augmentations, map, set

#[derive(Clone, Debug)]
struct WG(u32, Inst);
impl PartialEq for WG {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for WG {}
impl PartialOrd for WG {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for WG {
    fn cmp(&self, o: &Self) -> Ordering {
        for x in [self, o] {
            if let Err(e) = x.1.check() {
                complain(e);
            }
        }
        moody(self.0, o.0)
    }
}
impl<K: WKey> FromRef<K> for WG {
    fn from_ref(k: &K) -> Self {
        k.look();
        // with a bad mood the groups are not ordered like the keys either
        let x = k.num();
        WG(if MOOD.with(|m| m.get()) > 5 { x % 5 } else { x / 20 }, Inst::new(tok::AUG))
    }
}

fn map<K: WKey, V: WVal>(case: &Case, cx: &mut Cx) -> R {
    let dom = case.param(0).clamp(1, 1 << 17) as usize;
    let mut t: BPlusTreeMap<K, V, GroupCount<WG>> = BPlusTreeMap::new();
    let mut c: BPlusTreeMap<K, V, Count> = BPlusTreeMap::new();
    let mut odd = false;
    let mut big = 0;
    for (i, o) in case.ops.iter().enumerate() {
        let mut rng = Rng::new(rng::mix(&[case.param(1) as u64, i as u64, o.a as u64, o.b as u64]));
        DICE.with(|d| *d.borrow_mut() = Rng::new(rng::mix(&[case.param(1) as u64, i as u64])));
        let was = odd;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let n = o.ub();
            match o.c {
                INS | DEL => {
                    for j in 0..n {
                        let x = if o.d & 1 == 0 { (o.ua() + j * (o.ud() >> 1)) % dom } else { rng.below(dom) };
                        let k = K::make(x as u32);
                        if o.c == INS {
                            t.insert(k.clone(), V::make(j as u64)).into_iter().for_each(|v| v.look());
                            c.insert(k, V::make(j as u64)).into_iter().for_each(|v| v.look());
                        } else {
                            t.remove::<K::Q>(k.borrow()).into_iter().for_each(|v| v.look());
                            c.remove::<K>(&k).into_iter().for_each(|v| v.look());
                        }
                    }
                }
                SP4 => {
                    let m = o.ud() % 11;
                    let m = if m == 10 { 0 } else { m };
                    odd |= m != 0;
                    MOOD.with(|c| c.set(m));
                }
                BLD => {
                    let items: Vec<(K, V)> =
                        (0..n % (2 * dom)).map(|j| (K::make(rng.below(dom) as u32), V::make(j as u64))).collect();
                    t = items.iter().cloned().collect();
                    c = items.into_iter().collect();
                }
                CLR => {
                    t = Default::default();
                    c = Default::default();
                }
                CHK | SP1 => {
                    let cap = dom * 2 + 200;
                    t.iter().take(cap).for_each(|(k, v)| {
                        k.look();
                        v.look();
                    });
                    c.iter().rev().take(cap).for_each(|(k, v)| {
                        k.look();
                        v.look();
                    });
                }
                _ => {
                    for _ in 0..n % 60 + 1 {
                        let g = WG(rng.below(dom / 20 + 2) as u32, Inst::new(tok::AUG));
                        let k = K::make(rng.below(dom) as u32);
                        match rng.below(9) {
                            0 => {
                                let _ = t.descend_visit(ExtractGroupSize::new(g));
                            }
                            1 => {
                                let _ = t.rank_by_augmentation(&k);
                                let _ = c.rank_by_augmentation(&k);
                            }
                            2 => {
                                if let Some((k, v)) = t.get_by_augmentation((g, rng.below(30))) {
                                    k.look();
                                    v.look();
                                }
                            }
                            3 => {
                                if let Some((k, v)) = t.remove_by_augmentation((g, rng.below(30))) {
                                    k.look();
                                    v.look();
                                }
                            }
                            4 => {
                                if let Some((k, v)) = c.get_by_augmentation(rng.below(dom + 2)) {
                                    k.look();
                                    v.look();
                                }
                            }
                            5 => {
                                if let Some((k, v)) = c.remove_by_augmentation(rng.below(dom + 2)) {
                                    k.look();
                                    v.look();
                                }
                            }
                            6 => {
                                if let Some(v) = t.get_mut::<K>(&k) {
                                    v.look();
                                    v.edit();
                                }
                            }
                            7 => {
                                t.root_augmentation().max_group().into_iter().for_each(|(g, _)| {
                                    if let Err(e) = g.1.check() {
                                        complain(e);
                                    }
                                });
                            }
                            _ => t.get::<K::Q>(k.borrow()).into_iter().for_each(|v| v.look()),
                        }
                    }
                }
            }
        }));
        let at = |e: String| format!("{e} [at op {i}: {} {} {} {}]", o.name(), o.a, o.b, o.d);
        complaint().map_err(at)?;
        if r.is_err() {
            if !odd && !was {
                return Err(at(runner::last_panic()));
            }
            cx.label("refused by panicking");
        }
        big = big.max(c.len());
        cx.steps += o.ub() as u64;
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        drop(t);
        drop(c);
    }));
    complaint()?;
    if r.is_err() && !odd {
        return Err(runner::last_panic());
    }
    if odd {
        cx.label("misbehaving order, input or positions");
    }
    if big > 64 {
        cx.nontrivial();
    }
    Ok(())
}

fn set<K: WKey>(case: &Case, cx: &mut Cx) -> R {
    let dom = case.param(0).clamp(1, 1 << 17) as usize;
    let mut s: [BPlusTreeSet<K>; 2] = [BPlusTreeSet::new(), BPlusTreeSet::default()];
    let mut which = 0;
    let mut odd = false;
    let mut big = 0;
    for (i, o) in case.ops.iter().enumerate() {
        let mut rng = Rng::new(rng::mix(&[case.param(1) as u64, i as u64, o.a as u64, o.b as u64]));
        DICE.with(|d| *d.borrow_mut() = Rng::new(rng::mix(&[case.param(1) as u64, i as u64])));
        let was = odd;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let n = o.ub();
            let cap = dom * 2 + 200;
            match o.c {
                INS | DEL | TOG => {
                    for j in 0..n {
                        let x = if o.d & 1 == 0 { (o.ua() + j * (o.ud() >> 1)) % dom } else { rng.below(dom) };
                        let k = K::make(x as u32);
                        if o.c == INS {
                            s[which].insert(k);
                        } else {
                            s[which].remove::<K::Q>(k.borrow());
                        }
                    }
                }
                SP4 => {
                    let m = o.ud() % 11;
                    let m = if m == 10 { 0 } else { m };
                    odd |= m != 0;
                    MOOD.with(|c| c.set(m));
                }
                BLD => s[which] = (0..n % (2 * dom)).map(|_| K::make(rng.below(dom) as u32)).collect(),
                CLR => s[which].clear(),
                SP2 => which = 1 - which,
                SP1 => {
                    let old = std::mem::take(&mut s[which]);
                    let stop = rng.below(cap);
                    let mut it = old.into_iter();
                    for _ in 0..stop {
                        let e = if rng.bool() { it.next() } else { it.next_back() };
                        match e {
                            Some(k) => k.look(),
                            None => break,
                        }
                    }
                }
                CHK => s[which].iter().rev().take(cap).for_each(|k| k.look()),
                SP0 => {
                    let mut u = s[0].union(&s[1]);
                    for _ in 0..rng.below(2 * cap) {
                        match u.next() {
                            Some(k) => k.look(),
                            None => break,
                        }
                        if rng.below(40) == 0 {
                            u.clone().take(10).for_each(|k| k.look());
                        }
                    }
                }
                _ => {
                    for _ in 0..n % 60 + 1 {
                        let k = K::make(rng.below(dom) as u32);
                        s[which].contains::<K::Q>(k.borrow());
                        s[which].first().into_iter().for_each(|k| k.look());
                        s[which].last().into_iter().for_each(|k| k.look());
                    }
                }
            }
        }));
        let at = |e: String| format!("{e} [at op {i}: {} {} {} {}]", o.name(), o.a, o.b, o.d);
        complaint().map_err(at)?;
        if r.is_err() {
            if !odd && !was {
                return Err(at(runner::last_panic()));
            }
            cx.label("refused by panicking");
        }
        big = big.max(s[which].len());
        cx.steps += o.ub() as u64;
    }
    let r = catch_unwind(AssertUnwindSafe(|| drop(s)));
    complaint()?;
    if r.is_err() && !odd {
        return Err(runner::last_panic());
    }
    if odd {
        cx.label("misbehaving order, input or positions");
    }
    if big > 64 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------- memory that is refused

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: harness::alloc::Counting = harness::alloc::Counting;

mod sys {
    extern "C" {
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        pub fn _exit(code: i32) -> !;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn open(path: *const u8, flags: i32, ...) -> i32;
        pub fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
    }
}

/// In a child process: one allocation inside `f` is refused. True: `f` makes
/// no more allocations than that, so nothing was refused.
#[cfg(not(miri))]
fn short_of_memory(what: &str, n: usize, f: &mut dyn FnMut() -> bool) -> Result<bool, String> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let pid = sys::fork();
        if pid < 0 {
            return Ok(true); // no process to be had, nothing explored
        }
        if pid == 0 {
            // the message about the refused allocation is not needed, nor a core file
            let null = sys::open(b"/dev/null\0".as_ptr(), 1);
            sys::dup2(null, 1);
            sys::dup2(null, 2);
            sys::setrlimit(4, &[0, 0]);
            harness::alloc::refuse_after(n);
            let r = catch_unwind(AssertUnwindSafe(&mut *f));
            let fired = harness::alloc::refused();
            sys::_exit(match (fired, r) {
                (false, Ok(true)) => 40,
                (true, Ok(true)) => 41,
                (true, Err(_)) => 41,
                (_, Ok(false)) => 42,
                (false, Err(_)) => 43,
            });
        }
        let mut status = 0;
        if sys::waitpid(pid, &mut status, 0) != pid {
            return Ok(true);
        }
        match (status & 0x7f, status >> 8 & 0xff) {
            (0, 40) => Ok(true),
            // stopped with the message of a failed allocation, or survived it
            (6, _) | (0, 41) => Ok(false),
            (0, 42) => Err(format!("{what} went wrong when allocation {n} inside was refused")),
            (0, code) => Err(format!("{what} ended with exit code {code} when allocation {n} inside was refused")),
            (sig, _) => Err(format!("{what} was ended by signal {sig} when allocation {n} inside was refused")),
        }
    }
}
#[cfg(miri)]
fn short_of_memory(_: &str, _: usize, _: &mut dyn FnMut() -> bool) -> Result<bool, String> {
    Ok(true)
}

fn oom<V: Clone + 'static>(case: &Case, cx: &mut Cx, make: fn(u32) -> V) -> R {
    use sweep_bptree::augment::count::Count;
    type T<V> = BPlusTree<NodeStoreVec<u32, V, Count>>;
    let mut t: T<V> = BPlusTree::new(NodeStoreVec::new());
    let mut m = std::collections::BTreeSet::new();
    for o in &case.ops {
        let mut next = 0;
        let mut key = |j: usize| -> u32 {
            next = match o.d & 3 {
                0 => o.ua() + j,
                1 => (o.ua() + 1_000_000).saturating_sub(j),
                _ => (rng::mix(&[o.a as u64, j as u64]) % 3000) as usize,
            };
            next as u32
        };
        let data: Vec<(u32, V)> = match o.c {
            BLD => (0..o.ub()).map(|j| (key(j), make(j as u32))).collect(),
            _ => vec![],
        };
        let mut sorted = data.clone();
        sorted.sort_by_key(|e| e.0);
        sorted.dedup_by_key(|e| e.0);
        let before = m.len();
        let ok = |t: &T<V>, n: usize| t.len() == n && t.iter().count() == n && t.root_augmentation().count() == n;
        let mut n = 0;
        loop {
            let full = match o.c {
                INS => {
                    let k = key(o.ub());
                    let new = !m.contains(&k);
                    short_of_memory("an insertion", n, &mut || {
                        t.insert(k, make(0));
                        ok(&t, before + new as usize)
                    })?
                }
                DEL => {
                    let i = if before == 0 { 0 } else { key(o.ub()) as usize % before };
                    short_of_memory("a removal by position", n, &mut || {
                        t.remove_by_augmentation(i);
                        ok(&t, before.saturating_sub(1))
                    })?
                }
                CLR => short_of_memory("clear", n, &mut || {
                    t.clear();
                    ok(&t, 0)
                })?,
                BLD if o.d & 4 == 0 => {
                    let mut d = Some(sorted.clone());
                    short_of_memory("bulk_load", n, &mut || {
                        let d = d.take().unwrap();
                        let n = d.len();
                        ok(&T::bulk_load(d), n)
                    })?
                }
                BLD => {
                    let mut d = Some(data.clone());
                    short_of_memory("collecting", n, &mut || {
                        let c: sweep_bptree::BPlusTreeMap<u32, V, Count> = d.take().unwrap().into_iter().collect();
                        c.len() == sorted.len() && c.iter().count() == sorted.len()
                    })?
                }
                _ => short_of_memory("a clone", n, &mut || ok(&t.clone(), before))?,
            };
            cx.steps += 1;
            if full || n > 250 {
                break;
            }
            cx.label("an allocation was refused");
            n += 1 + n / 6;
        }
        match o.c {
            INS => {
                for j in 0..=o.ub() {
                    let k = key(j);
                    t.insert(k, make(0));
                    m.insert(k);
                }
            }
            DEL => {
                for j in 0..o.ub() {
                    let k = key(j);
                    t.remove(&k);
                    m.remove(&k);
                }
            }
            CLR => {
                t.clear();
                m.clear();
            }
            _ => {}
        }
        ensure!(ok(&t, m.len()), "{} entries in a tree that should have {}", t.len(), m.len());
        if m.len() > 64 {
            cx.nontrivial();
        }
    }
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C11";
    const RULE: &'static str = "Random programs of safe calls on tree, map and set: inserts, removals by key and position, lookups, iterators, owning iterators dropped anywhere, cursors used on changed and on other trees, clones, clears, bulk loads in any order, queries and visits naming positions that do not exist, under ten orders (the real one, occasionally or always wrong ones), for token, zero-sized, over-aligned and heap-owning types. Every key, value, summary seen must be alive and intact; sanitizer, checked and (for a share) Miri builds must not object. A panic is accepted only after the program misbehaved. One stage refuses the n-th allocation inside an operation, in a child process: the process may stop with the message of a failed allocation or finish with a sound tree, nothing else. Non-trivial: more than one leaf (>64 entries).";
    fn stages(tier: Tier, profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 12 } else { 1 };
        match profile {
            "miri" => vec![stage("mini", if tier == Tier::Thorough { 2000 } else { 48 })],
            "asan" => vec![stage("big", 60 * f), stage("mid", 2000 * f), stage("low", 8000 * f)],
            _ => vec![stage("oom", 4 * f), stage("big", 200 * f), stage("mid", 8000 * f), stage("low", 26000 * f)],
        }
    }
    fn gen(st: &str, _idx: u64, rng: &mut Rng) -> Case {
        if st == "oom" {
            let ops = (0..rng.range(1, 6))
                .map(|_| {
                    let n = match rng.below(4) {
                        0 => rng.below(70),
                        1 => 63 + rng.below(3) + 32 * rng.below(70),
                        _ => rng.below(5000),
                    };
                    let c = rng.pick(&[INS, INS, INS, DEL, BLD, SP1, CLR]);
                    op(c, rng.below(5000), if c == DEL { n / 2 } else { n }, rng.below(8))
                })
                .collect();
            return Case { stage: st.into(), params: vec![0, 0, 0, rng.below(3) as i64], ops };
        }
        let (top, nops) = match st {
            "mini" => (150, rng.range(3, 10)),
            "low" => (200, rng.range(3, 40)),
            "mid" => (1500, rng.range(3, 30)),
            _ => (9000, rng.range(3, 16)),
        };
        let size = rng.skew(1, top);
        let dom = rng.pick(&[1usize, size, size, size * 2, size * 5]).clamp(1, 1 << 16);
        let moods = rng.bool();
        let kind = rng.below(12);
        let mut ops = vec![];
        if st != "low" || rng.bool() {
            ops.push(op(INS, 0, size, 2 | rng.below(2)));
        }
        for _ in 0..nops {
            let n = match rng.below(3) {
                0 => rng.skew(1, size),
                1 => rng.range(1, size),
                _ => size,
            };
            let st = rng.pick(&[1usize, 1, 2, 3, 7]) << 1 | rng.below(2);
            ops.push(match rng.weighted(&[10, 14, 6, 4, 3, 6, 3, 4, 1, 3, 5, if moods { 6 } else { 0 }]) {
                0 => op(INS, rng.below(dom), n, st),
                1 => op(DEL, rng.below(dom), n, st),
                2 => op(TOG, rng.below(3), n, rng.below(40)),
                3 => op(PRB, 0, rng.range(1, 60), rng.below(1 << 20)),
                4 => op(CHK, 0, 0, rng.below(1 << 20)),
                5 => op(SP0, 0, 0, rng.below(1 << 20)),
                6 => op(SP1, 0, 0, rng.below(1 << 20)),
                7 => op(SP2, 0, 0, rng.below(4)),
                8 => op(CLR, 0, 0, 0),
                9 => op(BLD, 0, rng.range(0, size * 2), rng.below(4)),
                10 => op(SP3, rng.below(1 << 20), rng.below(8), 0),
                _ => op(SP4, 0, 0, rng.below(11)),
            });
        }
        Case { stage: st.into(), params: vec![dom as i64, (rng.next() >> 1) as i64, 0, kind as i64], ops }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        tok::reset();
        MOOD.with(|m| m.set(0));
        COMPLAINT.with(|c| *c.borrow_mut() = None);
        if case.stage == "oom" {
            return match case.param(3) {
                0 => oom::<u32>(case, cx, |x| x),
                1 => oom::<[u64; 40]>(case, cx, |x| [x as u64; 40]),
                _ => oom::<()>(case, cx, |_| ()),
            };
        }
        let r = match case.param(3) {
            0..=3 => tree::<MKey, MVal>(case, cx),
            4 => tree::<Nil, ()>(case, cx),
            5 => tree::<NilWide, MVal>(case, cx),
            6 => tree::<Broad, NilWide>(case, cx),
            7 => tree::<String, Vec<u64>>(case, cx),
            8 => tree::<u8, Option<Box<u8>>>(case, cx),
            9 => map::<MKey, MVal>(case, cx),
            10 => map::<String, Broad>(case, cx),
            _ => set::<MKey>(case, cx),
        };
        MOOD.with(|m| m.set(0));
        r
    }
}
fn main() {
    runner::main::<P>();
}
