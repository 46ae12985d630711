//! Group layouts for the grouped keys of C08.

use crate::kinds::TKey;
use crate::rng::Rng;
use std::cell::RefCell;
use std::rc::Rc;

/// Which group every key of the domain belongs to. Ids are odd, so that every
/// even id is an absent group.
pub struct Layout {
    pub gid: Vec<u32>,
    pub lo: Vec<u32>,
}
impl Layout {
    pub fn groups(&self) -> usize {
        self.lo.len()
    }
    /// key range of a group id (empty for absent ones)
    pub fn range(&self, gid: u32) -> (u32, u32) {
        let i = (gid / 2) as usize;
        if gid % 2 == 0 || i >= self.lo.len() {
            return (0, 0);
        }
        let hi = self.lo.get(i + 1).copied().unwrap_or(self.gid.len() as u32);
        (self.lo[i], hi)
    }
    pub fn make(dom: usize, kind: usize, seed: u64) -> Layout {
        let mut rng = Rng::new(seed ^ 0x51);
        let mut l = Layout { gid: vec![], lo: vec![] };
        let fixed = [1usize, 2, 3, 5, 13, 32, 63, 64, 65, 200, 1000, 4200];
        while l.gid.len() < dom {
            let left = dom - l.gid.len();
            let n = match kind % 24 {
                k if k < 12 => fixed[k],
                12 => rng.range(1, 4),
                13 => rng.range(1, 100),
                14 => rng.range(1, 600),
                15 => rng.skew(1, left),
                // singletons between giants
                16 => {
                    if rng.below(8) == 0 {
                        rng.range(60, 700)
                    } else {
                        1
                    }
                }
                17 => dom / 2 + rng.below(3),
                18 => dom,
                19 => dom / 3 + rng.below(64),
                20 => rng.pick(&[1usize, 2, 64, 128, 4160]),
                21 => rng.pick(&[1usize, 31, 32, 33]),
                22 => rng.range(10, 25),
                _ => rng.skew(1, 80),
            }
            .clamp(1, left);
            let g = (l.lo.len() * 2 + 1) as u32;
            l.lo.push(l.gid.len() as u32);
            l.gid.extend(std::iter::repeat(g).take(n));
        }
        l
    }
}

thread_local! {
    pub static LAYOUT: RefCell<Rc<Layout>> = RefCell::new(Rc::new(Layout { gid: vec![], lo: vec![] }));
}
pub fn gid(x: u32) -> u32 {
    LAYOUT.with(|l| l.borrow().gid[x as usize])
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Grp(pub u32);
/// key in the form the library's own `Tuple2` grouping needs
pub type TupK = (Grp, u32);
impl TKey for TupK {
    type Q = TupK;
    fn of(x: u32) -> Self {
        (Grp(gid(x)), x)
    }
    fn ix(&self) -> u32 {
        self.1
    }
}

