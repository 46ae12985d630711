//! C30: the built-in summaries by themselves and as parts of the user's own.

use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;
use std::fmt::Debug;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount, Tuple2};
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::{BPlusTree, Key, NodeStoreVec};

trait Mk: Key + Debug {
    fn mk(g: u32, i: u32) -> Self;
}
impl Mk for (u32, u32) {
    fn mk(g: u32, i: u32) -> Self {
        (g, i)
    }
}
impl Mk for String {
    fn mk(g: u32, i: u32) -> Self {
        format!("{g:010}-{i:010}")
    }
}
trait Grp<K>: FromRef<K> + Clone + Ord + Debug {
    fn of(g: u32) -> Self;
}
impl Grp<(u32, u32)> for Tuple2<u32> {
    fn of(g: u32) -> Self {
        Tuple2::from_ref(&(g, 0u32))
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Named(String);
impl FromRef<String> for Named {
    fn from_ref(k: &String) -> Self {
        Named(k[..10].to_string())
    }
}
impl Grp<String> for Named {
    fn of(g: u32) -> Self {
        Named(format!("{g:010}"))
    }
}

/// What a summary can tell: the number of entries, the groups.
type Told<'a, G> = (Option<usize>, Option<&'a GroupCount<G>>);
/// Position among all, position in the group.
type Ranks<G> = (Option<usize>, Option<Option<(G, usize)>>);

trait Sum<K: Key, G>: SearchAugmentation<K, u64> + RankAugmentation<K, u64> {
    fn pos(p: usize) -> Option<<Self as SearchAugmentation<K, u64>>::Query>;
    fn inside(g: G, p: usize) -> Option<<Self as SearchAugmentation<K, u64>>::Query>;
    fn told(&self) -> Told<'_, G>;
    fn ranks(r: <Self as RankAugmentation<K, u64>>::Rank) -> Ranks<G>;
}
impl<K: Mk, G: Grp<K>> Sum<K, G> for Count {
    fn pos(p: usize) -> Option<usize> {
        Some(p)
    }
    fn inside(_: G, _: usize) -> Option<usize> {
        None
    }
    fn told(&self) -> Told<'_, G> {
        (Some(self.count()), None)
    }
    fn ranks(r: usize) -> Ranks<G> {
        (Some(r), None)
    }
}
impl<K: Mk, G: Grp<K>> Sum<K, G> for GroupCount<G> {
    fn pos(_: usize) -> Option<(G, usize)> {
        None
    }
    fn inside(g: G, p: usize) -> Option<(G, usize)> {
        Some((g, p))
    }
    fn told(&self) -> Told<'_, G> {
        (None, Some(self))
    }
    fn ranks(r: Option<(G, usize)>) -> Ranks<G> {
        (None, Some(r))
    }
}

/// A user's summary made of both, and of something of its own.
#[derive(Clone)]
struct Both<G> {
    count: Count,
    groups: GroupCount<G>,
    values: u64,
}
impl<G: Clone + Ord> Default for Both<G> {
    fn default() -> Self {
        Both { count: Count::default(), groups: GroupCount::default(), values: 0 }
    }
}
enum Ask<G> {
    At(usize),
    In(G, usize),
}
impl<K: Mk, G: Grp<K>> Augmentation<K, u64> for Both<G> {
    fn from_leaf(keys: &[K], values: &[u64]) -> Self {
        Both {
            count: Augmentation::<K, u64>::from_leaf(keys, values),
            groups: Augmentation::<K, u64>::from_leaf(keys, values),
            values: values.iter().fold(0, |a, v| a.wrapping_add(*v)),
        }
    }
    fn from_inner(keys: &[K], a: &[Self]) -> Self {
        let counts: Vec<Count> = a.iter().map(|a| a.count).collect();
        let groups: Vec<GroupCount<G>> = a.iter().map(|a| a.groups.clone()).collect();
        Both {
            count: <Count as Augmentation<K, u64>>::from_inner(keys, &counts),
            groups: <GroupCount<G> as Augmentation<K, u64>>::from_inner(keys, &groups),
            values: a.iter().fold(0, |s, a| s.wrapping_add(a.values)),
        }
    }
}
impl<K: Mk, G: Grp<K>> SearchAugmentation<K, u64> for Both<G> {
    type Query = Ask<G>;
    fn locate_in_leaf(q: Ask<G>, keys: &[K], values: &[u64]) -> Option<usize> {
        match q {
            Ask::At(p) => <Count as SearchAugmentation<K, u64>>::locate_in_leaf(p, keys, values),
            Ask::In(g, p) => <GroupCount<G> as SearchAugmentation<K, u64>>::locate_in_leaf((g, p), keys, values),
        }
    }
    fn locate_in_inner(q: Ask<G>, keys: &[K], a: &[Self]) -> Option<(usize, Ask<G>)> {
        match q {
            Ask::At(p) => {
                let a: Vec<Count> = a.iter().map(|a| a.count).collect();
                <Count as SearchAugmentation<K, u64>>::locate_in_inner(p, keys, &a).map(|(i, p)| (i, Ask::At(p)))
            }
            Ask::In(g, p) => {
                let a: Vec<GroupCount<G>> = a.iter().map(|a| a.groups.clone()).collect();
                <GroupCount<G> as SearchAugmentation<K, u64>>::locate_in_inner((g, p), keys, &a)
                    .map(|(i, (g, p))| (i, Ask::In(g, p)))
            }
        }
    }
}
impl<K: Mk, G: Grp<K>> RankAugmentation<K, u64> for Both<G> {
    type Rank = (usize, Option<(G, usize)>);
    fn initial_value() -> Self::Rank {
        (
            <Count as RankAugmentation<K, u64>>::initial_value(),
            <GroupCount<G> as RankAugmentation<K, u64>>::initial_value(),
        )
    }
    fn fold_inner(k: &K, r: Self::Rank, a: &[Self]) -> Self::Rank {
        let counts: Vec<Count> = a.iter().map(|a| a.count).collect();
        let groups: Vec<GroupCount<G>> = a.iter().map(|a| a.groups.clone()).collect();
        (
            <Count as RankAugmentation<K, u64>>::fold_inner(k, r.0, &counts),
            <GroupCount<G> as RankAugmentation<K, u64>>::fold_inner(k, r.1, &groups),
        )
    }
    fn fold_leaf(k: &K, r: Self::Rank, slot: Result<usize, usize>, keys: &[K]) -> Result<Self::Rank, Self::Rank> {
        let a = <Count as RankAugmentation<K, u64>>::fold_leaf(k, r.0, slot, keys);
        let b = <GroupCount<G> as RankAugmentation<K, u64>>::fold_leaf(k, r.1, slot, keys);
        match (a, b) {
            (Ok(a), Ok(b)) => Ok((a, b)),
            (Err(a), Err(b)) => Err((a, b)),
            // never equal to what is expected
            _ => Err((usize::MAX, None)),
        }
    }
}
impl<K: Mk, G: Grp<K>> Sum<K, G> for Both<G> {
    fn pos(p: usize) -> Option<Ask<G>> {
        Some(Ask::At(p))
    }
    fn inside(g: G, p: usize) -> Option<Ask<G>> {
        Some(Ask::In(g, p))
    }
    fn told(&self) -> Told<'_, G> {
        (Some(self.count.count()), Some(&self.groups))
    }
    fn ranks(r: (usize, Option<(G, usize)>)) -> Ranks<G> {
        (Some(r.0), Some(r.1))
    }
}

/// Something that holds entries in a hierarchy of summaries.
trait Holds<K: Mk, G: Grp<K>> {
    fn told(&self) -> Told<'_, G>;
    fn at(&self, p: usize) -> Option<Result<Option<K>, String>>;
    fn inside(&self, g: G, p: usize) -> Option<Result<Option<K>, String>>;
    fn rank(&self, k: &K) -> (bool, Ranks<G>);
    fn size(&self, g: G) -> Option<Result<Option<usize>, String>>;
}

// ------------------------------------------------ a hierarchy of any shape

enum Node<K, A> {
    Leaf(Vec<K>, Vec<u64>),
    Inner(Vec<K>, Vec<usize>, Vec<A>),
}
struct Shape<K, A> {
    nodes: Vec<Node<K, A>>,
    root: usize,
    sum: A,
    height: usize,
}

/// a size for the next part of what is left
fn part(style: usize, level: usize, rng: &mut Rng) -> usize {
    let least = if level == 0 { 1 } else { 2 };
    match style % 10 {
        0 => least,
        1 => least + 1,
        2 => 16,
        3 => 64,
        4 => rng.range(least, 4),
        5 => rng.range(least, 64),
        6 => rng.range(16, 64),
        7 => rng.skew(least, 300),
        8 => rng.pick(&[least, 2, 130]),
        _ => 1000,
    }
}

impl<K: Mk, A: Augmentation<K, u64>> Shape<K, A> {
    fn new(entries: &[((u32, u32), u64)], styles: (usize, usize), empties: bool, rng: &mut Rng) -> Self {
        let mut nodes = vec![];
        // node, first key, last key, summary
        let mut row: Vec<(usize, (u32, u32), (u32, u32), A)> = vec![];
        let mut rest = entries;
        while !rest.is_empty() || row.is_empty() {
            let hole = empties && rng.pct(20);
            let n = if hole { 0 } else { part(styles.0, 0, rng).min(rest.len()) };
            let (here, more) = rest.split_at(n);
            rest = more;
            let keys: Vec<K> = here.iter().map(|e| K::mk(e.0 .0, e.0 .1)).collect();
            let values: Vec<u64> = here.iter().map(|e| e.1).collect();
            let sum = A::from_leaf(&keys, &values);
            let next = here.first().or(more.first()).or(entries.last()).map_or((0, 0), |e| e.0);
            row.push((nodes.len(), next, here.last().map_or(next, |e| e.0), sum));
            nodes.push(Node::Leaf(keys, values));
        }
        let mut height = 1;
        while row.len() > 1 {
            let mut up = vec![];
            let mut rest = row.as_slice();
            while !rest.is_empty() {
                let mut n = part(styles.1, 1, rng).min(rest.len());
                if rest.len() - n == 1 {
                    n = if n > 2 { n - 1 } else { n + 1 };
                }
                let (here, more) = rest.split_at(n);
                rest = more;
                // anything that separates will do
                let keys: Vec<K> = here
                    .windows(2)
                    .map(|w| {
                        let ((g0, i0), (g, i)) = (w[0].2, w[1].1);
                        match rng.below(3) {
                            0 if g0 == g && i0 < i => K::mk(g, i0 + 1),
                            1 if g0 < g && i > 0 => K::mk(g, rng.below(i as usize + 1) as u32),
                            2 if g0 < g => K::mk(g0, i0 + 1),
                            _ => K::mk(g, i),
                        }
                    })
                    .collect();
                let augs: Vec<A> = here.iter().map(|c| c.3.clone()).collect();
                let sum = A::from_inner(&keys, &augs);
                up.push((nodes.len(), here[0].1, here[n - 1].2, sum));
                nodes.push(Node::Inner(keys, here.iter().map(|c| c.0).collect(), augs));
            }
            row = up;
            height += 1;
        }
        let (root, _, _, sum) = row.pop().unwrap();
        Shape { nodes, root, sum, height }
    }
}
impl<K: Mk, A: SearchAugmentation<K, u64>> Shape<K, A> {
    fn find(&self, mut q: A::Query) -> Result<Option<K>, String> {
        let mut at = self.root;
        loop {
            match &self.nodes[at] {
                Node::Leaf(k, v) => {
                    let Some(i) = A::locate_in_leaf(q, k, v) else { return Ok(None) };
                    ensure!(i < k.len(), "slot {i} of a leaf of {}", k.len());
                    return Ok(Some(k[i].clone()));
                }
                Node::Inner(k, c, a) => {
                    let Some((i, r)) = A::locate_in_inner(q, k, a) else { return Ok(None) };
                    ensure!(i < c.len(), "child {i} of {}", c.len());
                    q = r;
                    at = c[i];
                }
            }
        }
    }
}
impl<K: Mk, A> Shape<K, A> {
    fn visit<V: DescendVisit<K, u64, A>>(&self, mut v: V) -> Result<Option<V::Result>, String> {
        let mut at = self.root;
        loop {
            match &self.nodes[at] {
                Node::Leaf(k, x) => return Ok(v.visit_leaf(k, x)),
                Node::Inner(k, c, a) => match v.visit_inner(k, a) {
                    DescendVisitResult::Cancel => return Ok(None),
                    DescendVisitResult::Complete(r) => return Ok(Some(r)),
                    DescendVisitResult::GoDown(i) => {
                        ensure!(i < c.len(), "child {i} of {}", c.len());
                        at = c[i];
                    }
                },
            }
        }
    }
}
impl<K: Mk, G: Grp<K>, A: Sum<K, G> + Sizes<K, G>> Holds<K, G> for Shape<K, A> {
    fn told(&self) -> Told<'_, G> {
        self.sum.told()
    }
    fn at(&self, p: usize) -> Option<Result<Option<K>, String>> {
        A::pos(p).map(|q| self.find(q))
    }
    fn inside(&self, g: G, p: usize) -> Option<Result<Option<K>, String>> {
        A::inside(g, p).map(|q| self.find(q))
    }
    fn rank(&self, k: &K) -> (bool, Ranks<G>) {
        let mut at = self.root;
        let mut r = A::initial_value();
        loop {
            match &self.nodes[at] {
                Node::Inner(s, c, a) => {
                    let i = s.partition_point(|s| s <= k);
                    r = A::fold_inner(k, r, &a[..i]);
                    at = c[i];
                }
                Node::Leaf(ks, _) => {
                    return match A::fold_leaf(k, r, ks.binary_search(k), ks) {
                        Ok(r) => (true, A::ranks(r)),
                        Err(r) => (false, A::ranks(r)),
                    }
                }
            }
        }
    }
    fn size(&self, g: G) -> Option<Result<Option<usize>, String>> {
        A::size(self, g)
    }
}

/// what can be asked for the size of a group
trait Sizes<K: Mk, G>: Sized {
    fn size(s: &Shape<K, Self>, g: G) -> Option<Result<Option<usize>, String>>;
    fn size_of(t: &BPlusTree<NodeStoreVec<K, u64, Self>>, g: G) -> Option<usize>
    where
        Self: Augmentation<K, u64>;
}
impl<K: Mk, G: Grp<K>> Sizes<K, G> for Count {
    fn size(_: &Shape<K, Self>, _: G) -> Option<Result<Option<usize>, String>> {
        None
    }
    fn size_of(_: &BPlusTree<NodeStoreVec<K, u64, Self>>, _: G) -> Option<usize> {
        None
    }
}
impl<K: Mk, G: Grp<K>> Sizes<K, G> for GroupCount<G> {
    fn size(s: &Shape<K, Self>, g: G) -> Option<Result<Option<usize>, String>> {
        Some(s.visit(ExtractGroupSize::new(g)))
    }
    fn size_of(t: &BPlusTree<NodeStoreVec<K, u64, Self>>, g: G) -> Option<usize> {
        t.descend_visit(ExtractGroupSize::new(g))
    }
}
/// the library's visitor, on a part of the user's summary
struct OnGroups<K, G>(ExtractGroupSize<G, K>);
impl<K: Mk, G: Grp<K>> DescendVisit<K, u64, Both<G>> for OnGroups<K, G> {
    type Result = usize;
    fn visit_inner(&mut self, keys: &[K], a: &[Both<G>]) -> DescendVisitResult<usize> {
        let a: Vec<GroupCount<G>> = a.iter().map(|a| a.groups.clone()).collect();
        DescendVisit::<K, u64, GroupCount<G>>::visit_inner(&mut self.0, keys, &a)
    }
    fn visit_leaf(&mut self, keys: &[K], values: &[u64]) -> Option<usize> {
        DescendVisit::<K, u64, GroupCount<G>>::visit_leaf(&mut self.0, keys, values)
    }
}
impl<K: Mk, G: Grp<K>> Sizes<K, G> for Both<G> {
    fn size(s: &Shape<K, Self>, g: G) -> Option<Result<Option<usize>, String>> {
        Some(s.visit(OnGroups(ExtractGroupSize::new(g))))
    }
    fn size_of(t: &BPlusTree<NodeStoreVec<K, u64, Self>>, g: G) -> Option<usize> {
        t.descend_visit(OnGroups(ExtractGroupSize::new(g)))
    }
}

// ------------------------------------------------------------------ a tree

type T<K, A> = BPlusTree<NodeStoreVec<K, u64, A>>;
struct InTree<'a, K: Mk, A: Augmentation<K, u64>>(&'a T<K, A>);
impl<K: Mk, G: Grp<K>, A: Sum<K, G> + Sizes<K, G>> Holds<K, G> for InTree<'_, K, A> {
    fn told(&self) -> Told<'_, G> {
        self.0.root_augmentation().told()
    }
    fn at(&self, p: usize) -> Option<Result<Option<K>, String>> {
        A::pos(p).map(|q| Ok(self.0.get_by_augmentation(q).map(|e| e.0.clone())))
    }
    fn inside(&self, g: G, p: usize) -> Option<Result<Option<K>, String>> {
        A::inside(g, p).map(|q| Ok(self.0.get_by_augmentation(q).map(|e| e.0.clone())))
    }
    fn rank(&self, k: &K) -> (bool, Ranks<G>) {
        match self.0.rank_by_augmentation(k) {
            Ok(r) => (true, A::ranks(r)),
            Err(r) => (false, A::ranks(r)),
        }
    }
    fn size(&self, g: G) -> Option<Result<Option<usize>, String>> {
        Some(Ok(A::size_of(self.0, g.clone()))).filter(|_| A::inside(g, 0).is_some())
    }
}

// ------------------------------------------------------------------- check

/// the groups there are: id, position of the first entry, number of entries
fn groups(e: &[((u32, u32), u64)]) -> Vec<(u32, usize, usize)> {
    let mut out: Vec<(u32, usize, usize)> = vec![];
    for (i, ((g, _), _)) in e.iter().enumerate() {
        match out.last_mut() {
            Some(l) if l.0 == *g => l.2 += 1,
            _ => out.push((*g, i, 1)),
        }
    }
    out
}

fn check<K: Mk, G: Grp<K>>(h: &dyn Holds<K, G>, e: &[((u32, u32), u64)], all: bool, rng: &mut Rng, cx: &mut Cx) -> R {
    let gs = groups(e);
    let n = e.len();
    let key = |i: usize| e.get(i).map(|e| K::mk(e.0 .0, e.0 .1));
    let (count, grouped) = h.told();
    ensure!(count.is_none() || count == Some(n), "{count:?} entries counted, there are {n}");
    if let Some(c) = grouped {
        ensure!(c.group_count() == gs.len(), "{} groups counted, there are {}", c.group_count(), gs.len());
        ensure!(c.is_zero() == (n == 0), "is_zero() is {} with {n} entries", c.is_zero());
        let want = gs.last().map(|g| (G::of(g.0), g.2));
        let got = c.max_group().map(|(g, c)| (g.clone(), c));
        ensure!(got == want, "the last group is {got:?}, should be {want:?}");
        // the parts can be seen
        match c {
            GroupCount::Zero => {}
            GroupCount::One(g, c) => ensure!(gs.len() == 1 && *g == G::of(gs[0].0) && *c == n, "One({g:?}, {c})"),
            GroupCount::Multiple { min_group, max_group, group_count } => {
                ensure!(gs.len() > 1 && *group_count == gs.len(), "Multiple with {group_count} groups of {}", gs.len());
                let want = (G::of(gs[0].0), gs[0].2);
                ensure!(*min_group == want, "the first group is {min_group:?}, should be {want:?}");
                ensure!(Some(max_group) == gs.last().map(|g| (G::of(g.0), g.2)).as_ref(), "the last group is {max_group:?}");
            }
        }
    }
    let top = gs.last().map_or(0, |g| g.0);
    for _ in 0..if n > 500 { 60 } else { 30 } {
        cx.steps += 1;
        // by position
        let p = match rng.below(8) {
            0 => 0,
            1 => n,
            2 => n.wrapping_sub(1),
            3 if rng.pct(10) => usize::MAX - rng.below(3),
            3 => n + rng.below(200),
            _ => rng.below(n.max(1)),
        };
        if let Some(r) = h.at(p) {
            let r = r?;
            ensure!(r == key(p), "at position {p} of {n} there is {r:?}, should be {:?}", key(p));
        }
        // by group and position
        let (g, a, c) = match rng.below(6) {
            0 => (rng.below(top as usize + 4) as u32, 0, 0),
            1 if !gs.is_empty() => {
                let g = gs[rng.below(gs.len())].0;
                ((g + rng.below(3) as u32).saturating_sub(1), 0, 0)
            }
            2 => gs.first().copied().unwrap_or((5, 0, 0)),
            3 => gs.last().copied().unwrap_or((5, 0, 0)),
            _ if gs.is_empty() => (3, 0, 0),
            _ => gs[rng.below(gs.len())],
        };
        let (a, c) = if c > 0 { (a, c) } else { gs.iter().find(|x| x.0 == g).map_or((0, 0), |x| (x.1, x.2)) };
        let p = match rng.below(6) {
            0 => 0,
            1 => c,
            2 => c.wrapping_sub(1),
            3 if rng.pct(10) => usize::MAX - rng.below(3),
            3 => c + rng.below(200),
            _ => rng.below(c.max(1)),
        };
        if let Some(r) = h.inside(G::of(g), p) {
            let r = r?;
            let want = if p < c { key(a + p) } else { None };
            ensure!(r == want, "entry {p} of group {g} with {c} entries is {r:?}, should be {want:?}");
        }
        if !all {
            continue;
        }
        if n > 0 {
            if let Some(r) = h.size(G::of(g)) {
                let r = r?;
                ensure!(r == Some(c), "the size of group {g} is {r:?}, should be {c}");
            }
        }
        // back
        let (kg, ki) = match rng.below(4) {
            0 => (g, rng.below(2000) as u32),
            1 if n > 0 => {
                let k = e[rng.below(n)].0;
                (k.0, (k.1 + rng.below(3) as u32).saturating_sub(1))
            }
            _ if n > 0 => e[rng.below(n)].0,
            _ => (g, 1),
        };
        let at = e.binary_search_by(|e| e.0.cmp(&(kg, ki)));
        let p = at.unwrap_or_else(|p| p);
        let before = e[..p].iter().rev().take_while(|e| e.0 .0 == kg).count();
        let (there, (r, rg)) = h.rank(&K::mk(kg, ki));
        ensure!(there == at.is_ok(), "the rank of ({kg}, {ki}) says it is there: {there}");
        ensure!(r.is_none() || r == Some(p), "the rank of ({kg}, {ki}) is {r:?}, should be {p}");
        let want = Some((G::of(kg), before));
        ensure!(rg.is_none() || rg.as_ref() == Some(&want), "the rank of ({kg}, {ki}) is {rg:?}, should be {want:?}");
    }
    Ok(())
}

fn shape<K: Mk, G: Grp<K>, A: Sum<K, G> + Sizes<K, G>>(
    e: &[((u32, u32), u64)],
    styles: (usize, usize),
    empties: bool,
    rng: &mut Rng,
    cx: &mut Cx,
) -> R {
    let s: Shape<K, A> = Shape::new(e, styles, empties, rng);
    if s.height > 3 {
        cx.label("more than three levels");
    }
    if s.nodes.len() > 2 && e.len() > 20 && groups(e).len() > 2 {
        cx.nontrivial();
    }
    check::<K, G>(&s, e, !empties, rng, cx).map_err(|m| format!("{m} ({} levels, {} nodes)", s.height, s.nodes.len()))
}

/// a tree that got the entries and lost them in some way
fn tree<K: Mk, G: Grp<K>, A: Sum<K, G> + Sizes<K, G>>(mut e: Vec<((u32, u32), u64)>, rng: &mut Rng, cx: &mut Cx) -> R {
    let later: Vec<bool> = {
        let p = rng.pick(&[0usize, 0, 10, 50, 100]);
        e.iter().map(|_| rng.pct(p)).collect()
    };
    let mut t: T<K, A> =
        BPlusTree::bulk_load(e.iter().zip(&later).filter(|x| !x.1).map(|(e, _)| (K::mk(e.0 .0, e.0 .1), e.1)).collect());
    let mut rest: Vec<_> = e.iter().zip(&later).filter(|x| *x.1).map(|x| *x.0).collect();
    for i in (1..rest.len()).rev() {
        rest.swap(i, rng.below(i + 1));
    }
    for ((g, i), v) in rest {
        ensure!(t.insert(K::mk(g, i), v).is_none(), "insert found ({g}, {i})");
    }
    check::<K, G>(&InTree(&t), &e, true, rng, cx)?;
    let out = rng.below(e.len() + 1);
    let style = rng.below(5);
    for _ in 0..out {
        let p = match style {
            0 => 0,
            1 => e.len() - 1,
            2 => e.len() / 2,
            3 => (e.len() / 3).min(rng.below(70)),
            _ => rng.below(e.len()),
        };
        let ((g, i), v) = e[p];
        let c = e[..p].iter().rev().take_while(|e| e.0 .0 == g).count();
        let r = match (rng.below(3), A::pos(p), A::inside(G::of(g), c)) {
            (0, Some(q), _) | (_, Some(q), None) => t.remove_by_augmentation(q),
            (1, _, Some(q)) | (_, None, Some(q)) => t.remove_by_augmentation(q),
            _ => t.remove(&K::mk(g, i)).map(|v| (K::mk(g, i), v)),
        };
        ensure!(r == Some((K::mk(g, i), v)), "removing position {p}, ({g}, {i}), gave {r:?}");
        e.remove(p);
        cx.steps += 1;
        if rng.below(100) == 0 {
            check::<K, G>(&InTree(&t), &e, true, rng, cx)?;
        }
    }
    check::<K, G>(&InTree(&t), &e, true, rng, cx)
}

struct P;
impl Prop for P {
    const ID: &'static str = "C30";
    const RULE: &'static str = "0 to 20000 grouped keys, as runs of drawn lengths with gaps; divided into leaves and those into levels in drawn ways (parts of 1 to 1000, parts without keys among them, any separators), with Count, GroupCount and a user's summary made of both computed by the library's functions directly; what they tell (number, groups, first and last group), searches by position and by group, ranks and the visitor for group sizes, level by level as a tree would do it, compared with the sorted sequence; the same in real trees with such summaries, with removals by either query. Non-trivial: more than 20 keys, three groups or more, more than one node.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 12 } else { 1 };
        vec![stage("large", 100 * f), stage("trees", 1500 * f), stage("medium", 2500 * f), stage("small", 20_000 * f)]
    }
    fn gen(st: &str, _idx: u64, rng: &mut Rng) -> Case {
        let n = match st {
            "small" => rng.below(120),
            "medium" => rng.range(100, 2000),
            "trees" => rng.skew(1, 4000),
            _ => rng.range(2000, 20_000),
        };
        let style = rng.below(8);
        let mut ops = vec![];
        let mut left = n;
        while left > 0 && ops.len() < 4000 {
            let len = match style {
                0 => 1,
                1 => rng.range(1, 3),
                2 => rng.range(1, 70),
                3 => rng.range(1, n),
                4 => n,
                5 => rng.pick(&[1usize, 1, 1, 1, 200]),
                6 => rng.pick(&[16usize, 32, 64, 65]),
                _ => rng.skew(1, 500),
            }
            .min(left);
            left -= len;
            ops.push(op(SP0, rng.pick(&[1usize, 1, 2, 5]), len, rng.pick(&[1usize, 1, 3])));
        }
        let params = vec![
            (rng.next() >> 1) as i64,
            rng.below(10) as i64,
            rng.below(10) as i64,
            if st == "trees" { 0 } else { (rng.below(4) == 0) as i64 },
            rng.below(6) as i64,
            (st == "trees") as i64,
        ];
        Case { stage: st.into(), params, ops }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        let mut rng = Rng::new(case.param(0) as u64);
        let mut e = vec![];
        let (mut g, mut i) = (0u32, 0u32);
        for o in &case.ops {
            if o.ua() > 0 {
                g = g.saturating_add(o.ua().min(1000) as u32);
                i = rng.below(3) as u32;
            }
            for _ in 0..o.ub().min(100_000) {
                e.push(((g, i), rng.next()));
                i = i.saturating_add(1 + rng.below(o.ud().min(1000) + 1) as u32);
            }
        }
        let styles = (case.param(1).max(0) as usize, case.param(2).max(0) as usize);
        let empties = case.param(3) != 0;
        if empties {
            cx.label("parts without keys");
        }
        if case.param(5) != 0 {
            cx.label("in trees");
            if e.len() > 70 {
                cx.nontrivial();
            }
            return match case.param(4) % 6 {
                0 => tree::<(u32, u32), Tuple2<u32>, Count>(e, &mut rng, cx),
                1 => tree::<(u32, u32), Tuple2<u32>, GroupCount<Tuple2<u32>>>(e, &mut rng, cx),
                2 | 3 => tree::<String, Named, Both<Named>>(e, &mut rng, cx),
                _ => tree::<(u32, u32), Tuple2<u32>, Both<Tuple2<u32>>>(e, &mut rng, cx),
            };
        }
        match case.param(4) % 6 {
            0 => shape::<(u32, u32), Tuple2<u32>, Count>(&e, styles, empties, &mut rng, cx),
            1 => shape::<(u32, u32), Tuple2<u32>, GroupCount<Tuple2<u32>>>(&e, styles, empties, &mut rng, cx),
            2 => shape::<String, Named, GroupCount<Named>>(&e, styles, empties, &mut rng, cx),
            3 => shape::<String, Named, Both<Named>>(&e, styles, empties, &mut rng, cx),
            _ => shape::<(u32, u32), Tuple2<u32>, Both<Tuple2<u32>>>(&e, styles, empties, &mut rng, cx),
        }
    }
}
fn main() {
    runner::main::<P>();
}
