//! The checked front end every history property builds on: performs each
//! elementary step on the real collection and compares with the model.

use crate::dict::Dict;
use crate::hist::Hist;
use crate::kinds::*;
use crate::model::Model;
use crate::rng::Rng;
use crate::{ensure, R};
use std::marker::PhantomData;

pub struct Core<K, V, D> {
    pub d: D,
    pub overwrites: bool,
    pub removals: bool,
    pub _p: PhantomData<(K, V)>,
}

fn show<V: std::fmt::Debug>(v: &Option<V>) -> String {
    format!("{v:?}")
}

impl<K: TKey, V: TVal, D: Dict<K, V>> Core<K, V, D> {
    pub fn new(d: D) -> Self {
        Core { d, overwrites: false, removals: false, _p: PhantomData }
    }
    pub fn len(&self, want: usize) -> R {
        let (l, e) = (self.d.len(), self.d.is_empty());
        ensure!(l == want, "len() is {l}, should be {want}");
        ensure!(e == (want == 0), "is_empty() is {e} with {want} entries");
        Ok(())
    }
    pub fn same(got: Option<&V>, want: Option<u64>, what: &str, x: u32) -> R {
        match (got, want) {
            (None, None) => Ok(()),
            (Some(v), Some(w)) if v.is(w) => Ok(()),
            _ => Err(format!("{what}(key {x}) gave {got:?}, should be value of write {want:?}")),
        }
    }
    pub fn read(&mut self, m: &Model, x: u32, how: usize) -> R {
        let k = K::of(x);
        let want = m.get(x);
        match how {
            0 => Self::same(self.d.get(&k), want, "get", x),
            1 => Self::same(self.d.get_q(k.q()), want, "get borrowed", x),
            2 => Self::same(self.d.get_mut(&k).map(|v| &*v), want, "get_mut", x),
            _ => Self::same(self.d.get_mut_q(k.q()).map(|v| &*v), want, "get_mut borrowed", x),
        }
    }
    pub fn ends(&self, m: &Model) -> R {
        for (got, want, what) in [(self.d.first(), m.first(), "first"), (self.d.last(), m.last(), "last")] {
            match (got, want) {
                (None, None) => {}
                (Some((k, v)), Some(x)) if k.ix() == x && v.is(m.get(x).unwrap()) => {}
                _ => return Err(format!("{what}() gave {got:?}, should be key {want:?}")),
            }
        }
        Ok(())
    }


    pub fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
        let want = m.get(x);
        let got = self.d.insert(K::of(x), V::of(vid));
        let ok = match (&got, want) {
            (None, None) => true,
            (Some(v), Some(w)) => v.is(w),
            _ => false,
        };
        self.overwrites |= want.is_some();
        ensure!(ok, "insert(key {x}) returned {}, should be value of write {want:?}", show(&got));
        self.len(m.len() + want.is_none() as usize)
    }
    pub fn remove(&mut self, m: &Model, x: u32) -> R {
        let want = m.get(x);
        let k = K::of(x);
        let got = if x % 2 == 0 { self.d.remove(&k) } else { self.d.remove_q(k.q()) };
        let ok = match (&got, want) {
            (None, None) => true,
            (Some(v), Some(w)) => v.is(w),
            _ => false,
        };
        self.removals |= want.is_some();
        ensure!(ok, "remove(key {x}) returned {}, should be value of write {want:?}", show(&got));
        self.len(m.len() - want.is_some() as usize)
    }
    pub fn touch(&mut self, m: &Model, x: u32, vid: u64) -> R {
        let k = K::of(x);
        let want = m.get(x).unwrap();
        let got = if x % 2 == 0 { self.d.get_mut(&k) } else { self.d.get_mut_q(k.q()) };
        match got {
            Some(v) if v.is(want) => v.put(vid),
            _ => return Err(format!("get_mut(key {x}) gave {got:?}, should be value of write {want}")),
        }
        self.len(m.len())
    }
    pub fn clear(&mut self, _m: &Model) -> R {
        self.d.clear();
        self.len(0)
    }
    pub fn rebuild(&mut self, m: &Model, mode: usize) -> R {
        let items: Vec<(K, V)> = m.entries().into_iter().map(|(x, v)| (K::of(x), V::of(v))).collect();
        self.d = D::bulk(items, mode);
        self.len(m.len())
    }
    pub fn probe(&mut self, m: &Model, last: u32, rng: &mut Rng) -> R {
        for _ in 0..rng.range(1, 3) {
            let x = Hist::interesting(m, last, rng);
            let how = rng.below(4);
            self.read(m, x, how)?;
        }
        if rng.below(4) == 0 {
            self.ends(m)?;
        }
        Ok(())
    }
    pub fn check(&mut self, m: &Model, rng: &mut Rng) -> R {
        self.len(m.len())?;
        self.ends(m)?;
        let step = if m.dom() > 20_000 { 7 } else { 1 };
        let back = rng.bool();
        let mut i = 0;
        while i < m.dom() {
            let x = if back { m.dom() - 1 - i } else { i } as u32;
            self.read(m, x, (i + back as usize) % 4)?;
            i += step;
        }
        let want = m.entries();
        let mut i = 0;
        let mut bad = None;
        self.d.walk(&mut |k, v| {
            let ok = i < want.len() && want[i].0 == k.ix() && v.is(want[i].1);
            if !ok {
                bad = Some(format!("entry {i} of the iteration is {k:?} {v:?}, should be {:?}", want.get(i)));
            }
            i += 1;
            ok
        });
        if let Some(b) = bad {
            return Err(b);
        }
        ensure!(i == want.len(), "iteration gave {i} entries of {}", want.len());
        Ok(())
    }
}

/// Forward the elementary steps of a `Sink` to a `Core` field.
#[macro_export]
macro_rules! steps_via {
    ($f:ident) => {
        fn insert(&mut self, m: &Model, x: u32, vid: u64) -> R {
            self.$f.insert(m, x, vid)
        }
        fn remove(&mut self, m: &Model, x: u32) -> R {
            self.$f.remove(m, x)
        }
        fn touch(&mut self, m: &Model, x: u32, vid: u64) -> R {
            self.$f.touch(m, x, vid)
        }
        fn clear(&mut self, m: &Model) -> R {
            self.$f.clear(m)
        }
        fn rebuild(&mut self, m: &Model, mode: usize) -> R {
            self.$f.rebuild(m, mode)
        }
    };
}
