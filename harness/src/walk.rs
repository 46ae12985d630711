//! Visitors used by several checks: follow a given path of child indices and
//! report the nodes on it.

use crate::{ensure, R};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};

pub enum Node<K, V, A> {
    Inner { keys: Vec<K>, augs: Vec<A> },
    Leaf { keys: Vec<K>, values: Vec<V> },
}

/// Goes down `path`, returns the node at its end.
pub struct At<'a> {
    pub path: &'a [usize],
    pub depth: usize,
}
impl<'a> At<'a> {
    pub fn new(path: &'a [usize]) -> Self {
        At { path, depth: 0 }
    }
}
impl<'a, K: Clone, V: Clone, A: Clone> DescendVisit<K, V, A> for At<'a> {
    type Result = Node<K, V, A>;
    fn visit_inner(&mut self, keys: &[K], augs: &[A]) -> DescendVisitResult<Node<K, V, A>> {
        if self.depth == self.path.len() {
            return DescendVisitResult::Complete(Node::Inner { keys: keys.to_vec(), augs: augs.to_vec() });
        }
        self.depth += 1;
        DescendVisitResult::GoDown(self.path[self.depth - 1])
    }
    fn visit_leaf(&mut self, keys: &[K], values: &[V]) -> Option<Node<K, V, A>> {
        Some(Node::Leaf { keys: keys.to_vec(), values: values.to_vec() })
    }
}

/// Visits every node in order through `get(path)`.
pub fn dfs<K, V, A>(
    get: &dyn Fn(&[usize]) -> Option<Node<K, V, A>>,
    f: &mut dyn FnMut(&[usize], &Node<K, V, A>) -> R,
) -> R {
    let mut path = vec![];
    down(get, f, &mut path)
}

fn down<K, V, A>(
    get: &dyn Fn(&[usize]) -> Option<Node<K, V, A>>,
    f: &mut dyn FnMut(&[usize], &Node<K, V, A>) -> R,
    path: &mut Vec<usize>,
) -> R {
    let n = get(path).ok_or_else(|| format!("the visit of path {path:?} gave nothing"))?;
    f(path, &n)?;
    if let Node::Inner { keys, augs } = &n {
        ensure!(
            augs.len() == keys.len() + 1,
            "an inner node shows {} keys and {} summaries (path {path:?})",
            keys.len(),
            augs.len()
        );
        ensure!(path.len() < 24, "the tree is deeper than 24 levels");
        for i in 0..augs.len() {
            path.push(i);
            down(get, f, path)?;
            path.pop();
        }
    }
    Ok(())
}
