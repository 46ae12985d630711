//! C24: what an insertion or removal changes in the shape of the tree, and what
//! the tree's own count of rebalancing steps says about it.

use harness::kinds::*;
use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Statistic;

/// sizes of the leaves, then of the nodes above them by number of children,
/// level by level up to the root
#[derive(Clone, Debug, PartialEq, Default)]
struct Shape {
    levels: Vec<Vec<usize>>,
    /// first and last key of every leaf
    ends: Vec<Option<(u32, u32)>>,
}

/// goes down a path, leftmost where it ends, noting the number of children
struct Widths<'a> {
    path: &'a [usize],
    /// or towards this key
    to: Option<u32>,
    seen: &'a mut Vec<(usize, usize)>,
    leaf: &'a mut (usize, Option<(u32, u32)>),
}
impl<K: TKey, V, A> DescendVisit<K, V, A> for Widths<'_> {
    type Result = ();
    fn visit_inner(&mut self, keys: &[K], a: &[A]) -> DescendVisitResult<()> {
        let at = match self.to {
            Some(x) => keys.partition_point(|k| k.ix() <= x),
            None => self.path.get(self.seen.len()).copied().unwrap_or(0),
        };
        self.seen.push((at, a.len()));
        match self.seen.len() {
            1..=24 if at < a.len() => DescendVisitResult::GoDown(at),
            _ => DescendVisitResult::Cancel,
        }
    }
    fn visit_leaf(&mut self, keys: &[K], _: &[V]) -> Option<()> {
        *self.leaf = (keys.len(), keys.first().zip(keys.last()).map(|(a, b)| (a.ix(), b.ix())));
        Some(())
    }
}

fn shape<K: TKey, V, A: Augmentation<K, V>>(t: &Tree<K, V, A>) -> Result<Shape, String> {
    let mut s = Shape::default();
    let mut path: Vec<usize> = vec![];
    // nodes on the way to the leaf before
    let mut before: Vec<(usize, usize)> = vec![];
    loop {
        let (mut seen, mut leaf) = (vec![], (0, None));
        let end = t.descend_visit(Widths { path: &path, to: None, seen: &mut seen, leaf: &mut leaf });
        ensure!(end.is_some(), "a visit along {path:?} ended at {seen:?} without a leaf");
        let depth = seen.len();
        if s.levels.is_empty() {
            s.levels = vec![vec![]; depth + 1];
        }
        ensure!(s.levels.len() == depth + 1, "a leaf at depth {depth}, others at {}", s.levels.len() - 1);
        s.levels[0].push(leaf.0);
        s.ends.push(leaf.1);
        // from where on is the way a new one
        let same = seen.iter().zip(&before).take_while(|(a, b)| a.0 == b.0).count();
        let fresh = if before.is_empty() { 0 } else { same + 1 };
        for d in fresh..depth {
            s.levels[depth - d].push(seen[d].1);
        }
        before = seen;
        match (0..depth).rev().find(|d| before[*d].0 + 1 < before[*d].1) {
            None => return Ok(s),
            Some(d) => {
                path = before[..=d].iter().map(|x| x.0).collect();
                path[d] += 1;
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Step {
    None,
    /// one moved in from the left sibling
    Right,
    /// one moved in from the right sibling
    Left,
    MergeLeft,
    MergeRight,
}

/// the parent of the i-th node, and its siblings' range
fn parent(above: &[usize], i: usize) -> (usize, std::ops::Range<usize>) {
    let mut from = 0;
    for (p, n) in above.iter().enumerate() {
        if i < from + n {
            return (p, from..from + n);
        }
        from += n;
    }
    (above.len(), from..from)
}

/// how `was` became `is` by losing one at `at`, within the siblings
fn step(was: &[usize], is: &[usize], at: usize, sib: &std::ops::Range<usize>) -> Option<Step> {
    let mut w = was.to_vec();
    w[at] -= 1;
    if w == is {
        return Some(Step::None);
    }
    let left = at > sib.start;
    let right = at + 1 < sib.end;
    let tries = [(left, Step::Right), (right, Step::Left), (left, Step::MergeLeft), (right, Step::MergeRight)];
    tries.into_iter().find(|(ok, s)| {
        let mut v = w.clone();
        match s {
            _ if !ok => return false,
            Step::None => {}
            Step::Right => {
                v[at - 1] -= 1;
                v[at] += 1;
            }
            Step::Left => {
                v[at + 1] -= 1;
                v[at] += 1;
            }
            Step::MergeLeft => v[at - 1] += v.remove(at),
            Step::MergeRight => v[at] += v.remove(at + 1),
        }
        v == is
    })
    .map(|x| x.1)
}

#[derive(Clone, Debug, PartialEq)]
struct St([u64; 8]);
impl From<&Statistic> for St {
    fn from(s: &Statistic) -> St {
        St([
            s.rotate_right_leaf,
            s.rotate_left_leaf,
            s.merge_with_left_leaf,
            s.merge_with_right_leaf,
            s.rotate_right_inner,
            s.rotate_left_inner,
            s.merge_with_left_inner,
            s.merge_with_right_inner,
        ])
    }
}
const WHAT: [&str; 8] = [
    "rotate_right_leaf",
    "rotate_left_leaf",
    "merge_with_left_leaf",
    "merge_with_right_leaf",
    "rotate_right_inner",
    "rotate_left_inner",
    "merge_with_left_inner",
    "merge_with_right_inner",
];
impl St {
    fn count(&mut self, s: &Step, inner: bool, cx: &mut Cx, level: usize) {
        let i = match s {
            Step::None => return,
            Step::Right => 0,
            Step::Left => 1,
            Step::MergeLeft => 2,
            Step::MergeRight => 3,
        } + 4 * inner as usize;
        self.0[i] += 1;
        cx.label(WHAT[i]);
        if level > 1 {
            cx.label("a step above the lowest inner nodes");
        }
    }
    fn same(&self, is: &St, what: &str) -> R {
        for (i, (a, b)) in self.0.iter().zip(is.0).enumerate() {
            ensure!(*a == b, "after {what} the statistic counts {b} {}, should be {a}", WHAT[i]);
        }
        Ok(())
    }
}

/// what a removal of `x` did to the shape
fn removed(was: &Shape, is: &Shape, x: u32, st: &mut St, cx: &mut Cx) -> R {
    let mut at = was.ends.partition_point(|e| e.is_some_and(|e| e.1 < x));
    for l in 0..was.levels.len() {
        let w = &was.levels[l];
        let top = l + 1 == was.levels.len();
        if top {
            // the root: no siblings, disappears when one child is left
            if l > 0 && w[0] == 2 {
                cx.label("the root was given up");
                ensure!(is.levels.len() == l, "a root of two children stays after they were merged: {:?}", is.levels);
            } else {
                ensure!(is.levels.len() == l + 1, "removing {x} made {} levels of {}", is.levels.len(), l + 1);
                ensure!(is.levels[l] == [w[0] - 1], "removing {x} made the root {:?} of {}", is.levels[l], w[0]);
            }
            return Ok(());
        }
        let (p, sib) = parent(&was.levels[l + 1], at);
        let i = is.levels.get(l).map_or(&[][..], |v| &v[..]);
        let Some(s) = step(w, i, at, &sib) else {
            return Err(format!("removing {x} from node {at} of level {l} (siblings {sib:?}) turned its sizes {w:?} into {i:?}"));
        };
        st.count(&s, l > 0, cx, l);
        if !matches!(s, Step::MergeLeft | Step::MergeRight) {
            ensure!(
                is.levels[l + 1..] == was.levels[l + 1..],
                "removing {x} ended with {s:?} at level {l} and yet changed the levels above from {:?} to {:?}",
                &was.levels[l + 1..],
                &is.levels[l + 1..]
            );
            return Ok(());
        }
        at = p;
    }
    Ok(())
}

/// what an insertion of the new `x` did to the shape
fn inserted(was: &Shape, is: &Shape, x: u32, cx: &mut Cx) -> R {
    let mut at = None;
    for l in 0..was.levels.len() {
        let (w, i) = (&was.levels[l], is.levels.get(l).ok_or("an insertion took a level away")?);
        let first = w.iter().zip(i).position(|(a, b)| a != b).unwrap_or(w.len());
        let j = at.unwrap_or(first);
        ensure!(j < w.len(), "inserting {x} did not make a leaf larger: {w:?} {i:?}");
        if l == 0 {
            let left = j == 0 || was.ends[j - 1].is_none_or(|e| e.1 < x);
            let right = was.ends.get(j + 1).is_none_or(|e| e.is_none_or(|e| x < e.0));
            ensure!(left && right, "inserting {x} changed leaf {j}, where it does not belong");
        }
        let mut v = w.clone();
        v[j] += 1;
        if v == *i {
            ensure!(
                is.levels[l + 1..] == was.levels[l + 1..],
                "inserting {x} did not split a node of level {l} and yet changed the levels above"
            );
            return Ok(());
        }
        // a split of that node into two
        let split = i.len() == w.len() + 1
            && i[..j] == w[..j]
            && i[j] > 0
            && i[j + 1] > 0
            && i[j] + i[j + 1] == w[j] + 1
            && i[j + 2..] == w[j + 1..];
        ensure!(split, "inserting {x} at node {j} of level {l} turned its sizes {w:?} into {i:?}");
        cx.label(["a leaf was split", "an inner node was split", "a higher node was split"][l.min(2)]);
        if l + 1 == was.levels.len() {
            cx.label("a new root");
            ensure!(is.levels.len() == l + 2 && is.levels[l + 1] == [2], "a split root makes {:?}", is.levels);
            return Ok(());
        }
        at = Some(parent(&was.levels[l + 1], j).0);
    }
    Ok(())
}

struct World<'a, K: TKey, V: TVal, A: Augmentation<K, V>> {
    t: Tree<K, V, A>,
    /// the keys present
    keys: Vec<u32>,
    was: Shape,
    st: St,
    by_rank: fn(&mut Tree<K, V, A>, usize) -> Option<(K, V)>,
    /// look at the shape only when something is about to happen above the lowest inner nodes
    sparing: bool,
    cx: &'a mut Cx,
    r: Rng,
    /// the number of levels that have to be short for that
    levels: usize,
    /// walks of the whole tree left
    walks: usize,
}
impl<K: TKey, V: TVal, A: Augmentation<K, V>> World<'_, K, V, A> {
    fn look(&mut self) -> R {
        self.was = shape(&self.t)?;
        self.st = St::from(self.t.statistic());
        Ok(())
    }
    /// is it worth walking the tree around a change at x
    fn armed(&mut self, x: u32, insert: bool) -> bool {
        if !self.sparing {
            return true;
        }
        if self.walks == 0 {
            return false;
        }
        let (mut seen, mut leaf) = (vec![], (0, None));
        self.t.descend_visit(Widths { path: &[], to: Some(x), seen: &mut seen, leaf: &mut leaf });
        // the limits only say when to look, not what to expect
        let depth = seen.len();
        let near = if insert {
            depth > 1 && leaf.0 >= 64 && seen[1..].iter().all(|n| n.1 >= 65)
        } else {
            // neither the leaf nor the inner node above it will find a sibling that lends
            depth > 1 && leaf.0 <= 16 && seen[depth - 1].1 <= 17 && {
                let way: Vec<usize> = seen.iter().map(|n| n.0).collect();
                (1..=depth).rev().take(self.levels).all(|d| {
                    let n = seen[d - 1];
                    [n.0.wrapping_sub(1), n.0 + 1].into_iter().filter(|i| *i < n.1).all(|i| {
                        let mut path = way[..d].to_vec();
                        path[d - 1] = i;
                        let (mut seen, mut leaf) = (vec![], (0, None));
                        self.t.descend_visit(Widths { path: &path, to: None, seen: &mut seen, leaf: &mut leaf });
                        if d == depth { leaf.0 <= 16 } else { seen.get(d).is_some_and(|n| n.1 <= 17) }
                    })
                })
            }
        };
        let go = near || self.r.below(if self.levels > 2 { 60_000 } else { 3000 }) == 0;
        self.walks -= go as usize;
        go
    }
    fn insert(&mut self, x: u32) -> R {
        let at = match self.keys.binary_search(&x) {
            Ok(_) => return self.overwrite(x),
            Err(at) => at,
        };
        let go = self.armed(x, true);
        if go && self.sparing {
            self.look()?;
        }
        ensure!(self.t.insert(K::of(x), V::of(x as u64)).is_none(), "inserting the new {x} gives an old value");
        self.keys.insert(at, x);
        self.cx.steps += 1;
        if go {
            let is = shape(&self.t)?;
            inserted(&self.was, &is, x, self.cx)?;
            self.was = is;
        }
        self.count("an insertion")
    }
    /// only the step checked
    fn count(&mut self, what: &str) -> R {
        self.st.same(&St::from(self.t.statistic()), what)
    }
    fn overwrite(&mut self, x: u32) -> R {
        ensure!(self.t.insert(K::of(x), V::of(x as u64)).is_some(), "overwriting {x} gives no old value");
        self.quiet("an overwrite")
    }
    /// neither the shape nor the statistic changed
    fn quiet(&mut self, what: &str) -> R {
        self.cx.steps += 1;
        if !self.sparing {
            let is = shape(&self.t)?;
            ensure!(is == self.was, "{what} changed the shape from {:?} to {:?}", self.was.levels, is.levels);
        }
        self.count(what)
    }
    /// remove the i-th key
    fn remove(&mut self, i: usize, by_rank: bool) -> R {
        let x = self.keys[i];
        let go = self.armed(x, false);
        if go && self.sparing {
            self.look()?;
        }
        let gone = match by_rank {
            true => (self.by_rank)(&mut self.t, i).is_some_and(|e| e.0.ix() == x),
            false => self.t.remove(K::of(x).q()).is_some(),
        };
        ensure!(gone, "removing {x}, which is there, gives nothing");
        self.keys.remove(i);
        self.cx.steps += 1;
        if go {
            let is = shape(&self.t)?;
            let mut st = self.st.clone();
            removed(&self.was, &is, x, &mut st, self.cx)?;
            self.was = is;
            self.st = st;
            return self.count(&format!("removing {x}"));
        }
        // at most one step for a level, and the ones above only after merges
        let now = St::from(self.t.statistic());
        let d: Vec<u64> = now.0.iter().zip(&self.st.0).map(|(a, b)| a.wrapping_sub(*b)).collect();
        let (leaf, inner): (u64, u64) = (d[..4].iter().sum(), d[4..].iter().sum());
        ensure!(
            d.iter().all(|x| *x < 15) && leaf <= 1 && inner < 15 && (inner == 0 || d[2] + d[3] == 1),
            "removing {x} counted {d:?} of {WHAT:?}"
        );
        self.st = now;
        Ok(())
    }
}

fn build<K: TKey, V: TVal, A: Augmentation<K, V>>(how: i64, keys: &[u32], r: &mut Rng) -> Tree<K, V, A> {
    let mut t = Tree::<K, V, A>::new(Default::default());
    let pair = |x: &u32| (K::of(*x), V::of(*x as u64));
    let mut keys = keys.to_vec();
    match how {
        0 => return Tree::bulk_load(keys.iter().map(pair).collect()),
        1 => {}
        2 => keys.reverse(),
        _ => {
            for i in 1..keys.len() {
                keys.swap(i, r.below(i + 1));
            }
        }
    }
    for x in &keys {
        let (k, v) = pair(x);
        t.insert(k, v);
    }
    t
}

fn go<K: TKey, V: TVal, A: Augmentation<K, V>>(
    case: &Case,
    cx: &mut Cx,
    by_rank: fn(&mut Tree<K, V, A>, usize) -> Option<(K, V)>,
) -> R {
    let mut r = Rng::new(case.param(1) as u64);
    let (n, gap) = (case.param(0).max(0) as usize, case.param(2).max(1) as u32);
    let giant = case.stage == "giant";
    let deep = matches!(case.stage.as_str(), "deep" | "giant");
    // room below for insertions downwards
    let base = 10_000;
    let keys: Vec<u32> = (0..n as u32).map(|i| base as u32 + (i + 1) * gap).collect();
    let dom = (n + 40) * gap as usize;
    let t = build::<K, V, A>(case.param(3), &keys, &mut r);
    St([0; 8]).same(&St::from(t.statistic()), "building a tree")?;
    let mut w = World {
        was: shape(&t)?,
        st: St([0; 8]),
        t,
        keys,
        by_rank,
        sparing: deep,
        cx,
        r,
        levels: 2 + giant as usize,
        walks: if giant { 40 } else { 150 },
    };
    for o in &case.ops {
        let m = o.ud();
        match o.c {
            // a run of insertions, upwards or downwards
            SP0 | SP1 => {
                let (from, by) = (o.ua() % dom, 1 + o.ub() % 3);
                for i in 0..m {
                    let x = if o.c == SP0 { base + from + i * by } else { (base + from).saturating_sub(i * by) };
                    w.insert(x as u32)?;
                }
            }
            // insertions anywhere in a window
            SP2 => {
                let (from, wide) = (base + o.ua() % dom, 1 + o.ub() % (2 * m + 2));
                for _ in 0..m {
                    let x = from + w.r.below(wide);
                    w.insert(x as u32)?;
                }
            }
            // runs of removals: upwards, downwards, to both sides, anywhere in a window, every few
            SP3 | SP4 | SP5 | SP6 | SP7 => {
                let mut at = if giant { o.ua().min(w.keys.len()) } else { o.ua() % (w.keys.len() + 1) };
                let by_rank = o.b % 4 == 0;
                for i in 0..m {
                    let n = w.keys.len();
                    if n == 0 {
                        break;
                    }
                    let j = match o.c {
                        SP3 => at,
                        SP4 => {
                            at = at.saturating_sub(1);
                            at
                        }
                        SP5 => (at + i % 2).saturating_sub(i / 2 % 2),
                        SP6 => at + w.r.below(1 + o.ub() % (2 * m + 2)),
                        _ => {
                            at += 1 + o.ub() % 40;
                            at % n
                        }
                    };
                    w.remove(j.min(n - 1), by_rank)?;
                }
            }
            // reading, failing removals, changes in place
            SP8 => {
                for _ in 0..1 + m % 5 {
                    let x = base + (o.ua() + w.r.below(50)) % dom;
                    let k = K::of(x as u32);
                    let there = w.keys.binary_search(&(x as u32)).is_ok();
                    match w.r.below(6) {
                        0 => ensure!(w.t.get(k.q()).is_some() == there, "get of {x} is not {there}"),
                        1 => ensure!(w.t.get_mut(k.q()).is_some() == there, "get_mut of {x} is not {there}"),
                        2 => ensure!(w.t.iter().take(200).count() == w.keys.len().min(200), "iter is wrong"),
                        3 => ensure!(w.t.get_cursor(&k).is_some() || w.keys.is_empty(), "no cursor"),
                        4 if !there => ensure!(w.t.remove(k.q()).is_none(), "removed the absent {x}"),
                        _ if there => w.overwrite(x as u32)?,
                        _ => ensure!(w.t.last().map(|e| e.0.ix()) == w.keys.last().copied(), "last is wrong"),
                    }
                    w.quiet("reading")?;
                }
            }
            _ => {
                // go on with a clone
                if o.b % 3 == 0 || w.sparing {
                    continue;
                }
                let t = w.t.clone();
                w.st.same(&St::from(t.statistic()), "cloning")?;
                ensure!(shape(&t)? == w.was, "a clone has another shape");
                let old = std::mem::replace(&mut w.t, t);
                if o.b % 3 == 1 {
                    w.st.same(&St::from(old.statistic()), "being cloned")?;
                }
                w.cx.label("cloned");
            }
        }
    }
    if w.cx.steps > 0 && n > 64 {
        w.cx.nontrivial();
    }
    ensure!(w.t.len() == w.keys.len(), "len is {}, should be {}", w.t.len(), w.keys.len());
    Ok(())
}

struct P;
impl Prop for P {
    const ID: &'static str = "C24";
    const RULE: &'static str = "Runs of insertions and removals (upwards, downwards, to both sides of a spot, anywhere in a window, every few entries, by key and by position) on trees built in different ways, with the sizes of all nodes read through visitors before and after every change: a change must be explained by one step for each level on its path (one more, a split; one less, one moved over from a sibling, a merge with a sibling), going up only after a split or merge, and the statistic must have counted exactly these steps. Deep and giant: trees of three and four levels of inner nodes, read when a change above the lowest inner nodes is near. Non-trivial: a tree that had more than one leaf and at least one step.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 12 } else { 1 };
        vec![stage("giant", 8 * f), stage("deep", 10 * f), stage("two", 150 * f), stage("one", 300 * f)]
    }
    fn gen(stage: &str, _idx: u64, r: &mut Rng) -> Case {
        let mut ops = vec![];
        if stage == "giant" {
            // four levels of inner nodes from 2265120 entries inserted in order
            let (grow, gap) = (r.bool(), 1 + r.below(2));
            let n = if grow { r.range(2_264_000, 2_265_000) } else { r.range(2_266_000, 2_300_000) };
            if grow {
                ops.push(op(SP0, (n + 1) * gap, 0, 2000));
            }
            // the last keys go, the vector of keys is slow to change elsewhere
            for _ in 0..r.range(1, 5) {
                ops.push(op(SP4, n, r.below(1 << 16), r.range(50_000, 300_000)));
                if r.bool() {
                    ops.push(op(SP2, (n + 1) * gap - r.below(1000), r.below(1 << 16), r.range(10, 500)));
                }
            }
            let how = if r.pct(80) { 1 } else { 2 };
            return Case { stage: stage.into(), params: vec![n as i64, r.below(1 << 30) as i64, gap as i64, how, r.pick(&[1, 4])], ops };
        }
        let gap = r.pick(&[1, 2, 5]);
        let how = r.weighted(if stage == "deep" { &[0, 3, 2] } else { &[3, 3, 1, 3] });
        // the root of three levels splits at about 68600 entries inserted in order
        let grow = r.pct(40);
        let n = match stage {
            "deep" if grow => r.range(62_000, 68_000),
            "deep" => r.range(70_000, 80_000),
            "two" => r.range(1100, 4500),
            _ => r.skew(0, 1100),
        };
        let dom = (n + 40) * gap;
        if stage == "deep" {
            // down to nothing or nearly, in large runs with a few insertions
            let c = r.pick(&[SP3, SP4, SP7, SP6]);
            let at = if c == SP4 { n } else { r.pick(&[0, 0, n / 2, n / 3]) };
            for _ in 0..r.range(4, 8) {
                ops.push(op(c, at, r.below(1 << 16), r.range(5000, 15_000)));
                if r.pct(40) {
                    ops.push(op(SP2, r.below(dom), r.below(1 << 16), r.range(10, 500)));
                }
            }
            if grow {
                let o = if how == 1 { op(SP0, dom - 1, 0, 8000) } else { op(SP1, gap, 0, 8000) };
                ops.insert(0, o);
            }
        } else {
            let len = r.range(3, 14);
            let shrink = r.pct(60);
            for _ in 0..len {
                let w: &[usize] = if shrink { &[1, 1, 1, 4, 4, 4, 4, 4, 2, 1] } else { &[3, 3, 3, 3, 3, 3, 3, 3, 2, 1] };
                let c = SP0 + r.weighted(w) as u8;
                let m = match stage {
                    "two" if shrink && r.bool() => r.range(300, 1500),
                    "two" => r.skew(1, 900),
                    _ => r.skew(1, 300),
                };
                let a = r.below(if c <= SP2 { dom } else { n + 1 });
                ops.push(op(c, a, r.below(1 << 16), m));
            }
        }
        Case { stage: stage.into(), params: vec![n as i64, r.below(1 << 30) as i64, gap as i64, how as i64, r.below(6) as i64], ops }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        fn ranked<K: TKey, V: TVal>(t: &mut Tree<K, V, Count>, i: usize) -> Option<(K, V)> {
            t.remove_by_augmentation(i)
        }
        fn plain<K: TKey, V: TVal>(t: &mut Tree<K, V>, i: usize) -> Option<(K, V)> {
            let k = t.iter().nth(i)?.0.clone();
            let v = t.remove(k.q())?;
            Some((k, v))
        }
        match case.param(4) {
            0 => go::<u32, u64, ()>(case, cx, plain),
            1 => go::<u32, (), Count>(case, cx, ranked),
            2 if case.stage != "deep" => go::<String, String, Count>(case, cx, ranked),
            3 if case.stage != "deep" => go::<Wide, [u64; 5], ()>(case, cx, plain),
            _ => go::<u64, u64, Count>(case, cx, ranked),
        }
    }
}
fn main() {
    runner::main::<P>();
}
