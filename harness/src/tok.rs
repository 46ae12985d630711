//! Ownership tokens: every instance (also every clone) has an identity that
//! must be released exactly once. The registry is per thread.

use crate::kinds::{TKey, TVal};
use std::cell::RefCell;
use std::cmp::Ordering;

#[derive(Default)]
pub struct Registry {
    /// 1 = alive, 2 = released
    state: Vec<u8>,
    live: [usize; 3],
    made: usize,
    error: Option<String>,
}

thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
}

pub const KEY: usize = 0;
pub const VAL: usize = 1;
pub const AUG: usize = 2;
const WHAT: [&str; 3] = ["key", "value", "summary"];

pub fn reset() {
    REG.with(|r| *r.borrow_mut() = Registry::default());
}
pub fn live(kind: usize) -> usize {
    REG.with(|r| r.borrow().live[kind])
}
pub fn made() -> usize {
    REG.with(|r| r.borrow().made)
}
/// a double release seen so far
pub fn error() -> Option<String> {
    REG.with(|r| r.borrow().error.clone())
}

/// One owned instance. Owns heap memory too, so that allocators and
/// sanitizers see what happens to it.
#[derive(Debug)]
pub struct Inst {
    id: u32,
    kind: u8,
    heap: Box<u32>,
}

impl Inst {
    pub fn new(kind: usize) -> Self {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.state.push(1);
            r.live[kind] += 1;
            r.made += 1;
            (r.state.len() - 1) as u32
        });
        Inst { id, kind: kind as u8, heap: Box::new(id) }
    }
    pub fn check(&self) -> Result<(), String> {
        let st = REG.with(|r| r.borrow().state.get(self.id as usize).copied());
        if st != Some(1) || *self.heap != self.id {
            return Err(format!(
                "a {} in use is not alive (instance {}, state {:?})",
                WHAT[self.kind as usize % 3],
                self.id,
                st
            ));
        }
        Ok(())
    }
}
impl Clone for Inst {
    fn clone(&self) -> Self {
        Inst::new(self.kind as usize)
    }
}
impl Drop for Inst {
    fn drop(&mut self) {
        let (id, kind) = (self.id as usize, self.kind as usize);
        let bad = REG.with(|r| {
            let mut r = r.borrow_mut();
            match r.state.get(id).copied() {
                Some(1) if kind < 3 => {
                    r.state[id] = 2;
                    r.live[kind] -= 1;
                    false
                }
                s => {
                    if r.error.is_none() {
                        r.error = Some(format!(
                            "a {} was released twice or never existed (instance {id}, state {s:?})",
                            WHAT[kind % 3]
                        ));
                    }
                    true
                }
            }
        });
        if bad {
            // the heap part is not ours to free a second time
            let b = std::mem::replace(&mut self.heap, Box::new(0));
            std::mem::forget(b);
        }
    }
}

#[derive(Clone, Debug)]
pub struct KTok {
    pub x: u32,
    pub i: Inst,
}
impl PartialEq for KTok {
    fn eq(&self, o: &Self) -> bool {
        self.x == o.x
    }
}
impl Eq for KTok {}
impl PartialOrd for KTok {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for KTok {
    fn cmp(&self, o: &Self) -> Ordering {
        self.x.cmp(&o.x)
    }
}
impl TKey for KTok {
    type Q = KTok;
    fn of(x: u32) -> Self {
        KTok { x, i: Inst::new(KEY) }
    }
    fn ix(&self) -> u32 {
        self.x
    }
}
#[derive(Clone, Debug)]
pub struct VTok {
    pub v: u64,
    pub i: Inst,
}
impl TVal for VTok {
    fn of(vid: u64) -> Self {
        VTok { v: vid, i: Inst::new(VAL) }
    }
    fn is(&self, vid: u64) -> bool {
        self.v == vid && self.i.check().is_ok()
    }
}
