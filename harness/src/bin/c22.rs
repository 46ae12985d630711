//! C22: programs. Generated functions that keep something borrowed from a
//! collection over a change must be rejected by the compiler; the same
//! function with the use before the change, and functions that only read,
//! must be accepted. The compiler run on the real signatures is the system
//! under test, the verdict is known from how the program was made.

use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const PRELUDE: &str = r#"#![allow(warnings)]
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::{Cursor, LeafNodeId};
use sweep_bptree::{NodeStore, BPlusTree, BPlusTreeMap, BPlusTreeSet, NodeStoreVec};
pub type T = BPlusTree<NodeStoreVec<String, String, Count>>;
pub type M = BPlusTreeMap<String, String, Count>;
pub type S = BPlusTreeSet<String>;
pub fn t() -> T { BPlusTree::new(NodeStoreVec::new()) }
pub fn m() -> M { BPlusTreeMap::new() }
pub fn s() -> S { BPlusTreeSet::new() }
pub fn k() -> String { String::new() }
pub fn v() -> String { String::new() }
pub fn l() -> LeafNodeId { LeafNodeId::from_usize(0) }
pub fn yes() -> bool { true }
pub fn touch<X: ?Sized>(_: &X) {}
pub fn own<X>(_: X) {}
pub fn pass<X>(x: X) -> X { x }
pub fn stat<X: 'static>(_: &X) {}
pub struct Hold<X>(X);
"#;

/// what can be borrowed from the collection `c` (and `o`, another one)
struct Source {
    kind: u8,
    exclusive: bool,
    text: &'static str,
}
const fn sh(kind: u8, text: &'static str) -> Source {
    Source { kind, exclusive: false, text }
}
const fn ex(kind: u8, text: &'static str) -> Source {
    Source { kind, exclusive: true, text }
}
const SOURCES: &[Source] = &[
    sh(0, "c.get(&k()).unwrap()"),
    sh(0, "c.get(\"a\")"),
    sh(0, "c.first().unwrap()"),
    sh(0, "c.first().unwrap().1"),
    sh(0, "c.last().unwrap().0"),
    sh(0, "c.last()"),
    sh(0, "c.iter()"),
    sh(0, "c.iter().next().unwrap()"),
    sh(0, "c.iter().next_back()"),
    sh(0, "c.iter().rev()"),
    sh(0, "c.iter().map(|e| e.1)"),
    sh(0, "c.iter().collect::<Vec<_>>()"),
    sh(0, "c.iter().max()"),
    sh(0, "c.iter().zip(o.iter()).next()"),
    sh(0, "o.iter().zip(c.iter()).last()"),
    sh(0, "{ let mut it = c.iter(); it.next(); it.next().unwrap().0 }"),
    sh(0, "c.root_augmentation()"),
    sh(0, "c.node_store()"),
    sh(0, "c.statistic()"),
    sh(0, "c.get_cursor(&k()).unwrap().1"),
    sh(0, "Cursor::first(&c).unwrap().1"),
    sh(0, "Cursor::last(&c).map(|e| e.1)"),
    sh(0, "c.cursor_first().unwrap().value(&c)"),
    sh(0, "o.cursor_first().unwrap().value(&c)"),
    sh(0, "c.cursor_first().unwrap().next_with_value(&c).map(|e| e.1)"),
    sh(0, "c.cursor_first().unwrap().prev_with_value(&c)"),
    sh(0, "c.get_by_augmentation(0).unwrap()"),
    sh(0, "c.get_by_augmentation(0).map(|e| e.1.as_str())"),
    sh(0, "c.node_store().try_get_leaf(l()).unwrap()"),
    sh(0, "c.node_store().get_leaf(l()).keys()"),
    sh(0, "c.node_store().get_leaf(l()).data_at(0).1"),
    sh(0, "c.node_store().get_leaf(l()).try_data_at(0)"),
    sh(0, "c.node_store().get_leaf(l()).locate_slot_with_value(\"a\").1"),
    sh(0, "c.node_store().get_leaf(l()).values().first()"),
    ex(0, "c.get_mut(&k()).unwrap()"),
    ex(0, "c.get_mut(\"a\")"),
    ex(0, "c.get_mut_by_augmentation(0).unwrap()"),
    ex(0, "c.get_mut_by_augmentation(0)"),
    sh(1, "c.get(&k()).unwrap()"),
    sh(1, "c.get(\"a\").map(|x| x.as_str())"),
    sh(1, "c.iter()"),
    sh(1, "c.iter().next().unwrap()"),
    sh(1, "c.iter().next_back().unwrap().0"),
    sh(1, "c.iter().rev().take(2)"),
    sh(1, "c.iter().collect::<Vec<_>>()"),
    sh(1, "c.iter().min()"),
    sh(1, "c.iter().zip(o.iter()).next()"),
    sh(1, "o.iter().zip(c.iter()).next()"),
    sh(1, "{ let mut it = c.iter(); it.next_back(); it.next().unwrap().1 }"),
    sh(1, "c.root_augmentation()"),
    sh(1, "c.get_by_augmentation(0).unwrap().0"),
    sh(1, "c.get_by_augmentation(0)"),
    ex(1, "c.get_mut(&k()).unwrap()"),
    ex(1, "c.get_mut(\"a\")"),
    ex(1, "c.get_mut_by_augmentation(0)"),
    sh(2, "c.first().unwrap()"),
    sh(2, "c.last()"),
    sh(2, "c.iter()"),
    sh(2, "c.iter().next().unwrap()"),
    sh(2, "c.iter().next_back()"),
    sh(2, "c.iter().rev()"),
    sh(2, "c.iter().collect::<Vec<_>>()"),
    sh(2, "c.iter().max()"),
    sh(2, "c.union(&o)"),
    sh(2, "o.union(&c)"),
    sh(2, "c.union(&o).next()"),
    sh(2, "o.union(&c).next().unwrap()"),
    sh(2, "o.union(&c).collect::<Vec<_>>()"),
    sh(2, "c.union(&o).clone()"),
    sh(2, "{ let u = o.union(&c); let mut w = u.clone(); w.next() }"),
];

/// what no borrow may outlast: text, and whether it is a move of `c`
const CHANGES: &[(u8, bool, &str)] = &[
    (0, false, "c.insert(k(), v());"),
    (0, false, "c.remove(&k());"),
    (0, false, "c.remove(\"a\");"),
    (0, false, "c.clear();"),
    (0, false, "own(c.get_mut(&k()));"),
    (0, false, "own(c.remove_by_augmentation(0));"),
    (0, false, "own(c.get_mut_by_augmentation(0));"),
    (0, true, "drop(c);"),
    (0, true, "let moved = c; touch(&moved);"),
    (0, true, "c = t();"),
    (0, true, "own(c.into_iter());"),
    (0, true, "for e in c { own(e); }"),
    (0, false, "own(std::mem::replace(&mut c, t()));"),
    (0, false, "std::mem::swap(&mut c, &mut t());"),
    (0, false, "own(&mut c);"),
    (0, false, "let mut f = || c.clear(); f();"),
    (0, false, "std::thread::scope(|s| { s.spawn(|| { c.insert(k(), v()); }); });"),
    (0, true, "std::thread::spawn(move || { touch(&c); });"),
    (1, false, "c.insert(k(), v());"),
    (1, false, "c.remove(&k());"),
    (1, false, "c.remove(\"a\");"),
    (1, false, "own(c.get_mut(&k()));"),
    (1, false, "own(c.remove_by_augmentation(0));"),
    (1, false, "own(c.get_mut_by_augmentation(0));"),
    (1, true, "drop(c);"),
    (1, true, "let moved = c; touch(&moved);"),
    (1, true, "c = m();"),
    (1, false, "own(std::mem::take(&mut c));"),
    (1, false, "std::mem::swap(&mut c, &mut m());"),
    (1, false, "own(&mut c);"),
    (1, false, "let mut f = || { c.insert(k(), v()); }; f();"),
    (1, false, "std::thread::scope(|s| { s.spawn(|| { c.remove(&k()); }); });"),
    (2, false, "c.insert(k());"),
    (2, false, "c.remove(&k());"),
    (2, false, "c.remove(\"a\");"),
    (2, false, "c.clear();"),
    (2, true, "drop(c);"),
    (2, true, "let moved = c; touch(&moved);"),
    (2, true, "c = s();"),
    (2, true, "own(c.into_iter());"),
    (2, true, "for e in c { own(e); }"),
    (2, false, "own(std::mem::take(&mut c));"),
    (2, false, "own(&mut c);"),
    (2, false, "let mut f = || { c.insert(k()); }; f();"),
    (2, false, "std::thread::scope(|s| { s.spawn(|| { c.clear(); }); });"),
];
/// no conflict with a shared borrow, one with an exclusive borrow
const READS: &[(u8, &str)] = &[
    (0, "own(c.get(&k()));"),
    (0, "own(c.len());"),
    (0, "own(c.first());"),
    (0, "for e in c.iter() { touch(e.0); }"),
    (0, "touch(&c);"),
    (0, "own(c.clone());"),
    (0, "own(c.cursor_first());"),
    (0, "own(c.get_by_augmentation(1));"),
    (0, "own(c.rank_by_augmentation(&k()));"),
    (0, "std::thread::scope(|s| { s.spawn(|| { c.get(&k()); }); });"),
    (1, "own(c.get(&k()));"),
    (1, "own(c.is_empty());"),
    (1, "for e in c.iter() { touch(e.1); }"),
    (1, "touch(&c);"),
    (1, "own(c.get_by_augmentation(1));"),
    (1, "own(c.rank_by_augmentation(&k()));"),
    (1, "std::thread::scope(|s| { s.spawn(|| { c.len(); }); });"),
    (2, "own(c.contains(&k()));"),
    (2, "own(c.len());"),
    (2, "own(c.last());"),
    (2, "for e in c.iter() { touch(e); }"),
    (2, "own(c.union(&o).count());"),
    (2, "std::thread::scope(|s| { s.spawn(|| { c.contains(\"b\"); }); });"),
];
const MAKE: [&str; 3] = ["t()", "m()", "s()"];
const TYPE: [&str; 3] = ["T", "M", "S"];

/// things user code is shown for the time of a call only: must not be kept.
/// (rejected version, accepted version) differ in @
const KEEPERS: &[(&str, &str, &str)] = &[
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTreeMap<u32, @> = BPlusTreeMap::new(); std::thread::spawn(move || touch(&c)); }",
        "Rc<u32>", "Arc<u32>",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTreeSet<@> = BPlusTreeSet::new(); std::thread::spawn(move || touch(&c)); }",
        "Rc<str>", "Arc<str>",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTree<NodeStoreVec<u32, @>> = BPlusTree::new(NodeStoreVec::new()); std::thread::spawn(move || touch(&c)); }",
        "Rc<str>", "Arc<str>",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTree<NodeStoreVec<u32, @>> = BPlusTree::new(NodeStoreVec::new()); std::thread::scope(|s| { s.spawn(|| touch(&c)); }); }",
        "Cell<u32>", "AtomicU32",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTreeMap<u32, @> = BPlusTreeMap::new(); std::thread::scope(|s| { s.spawn(|| touch(&c)); }); }",
        "Cell<u32>", "AtomicU32",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTreeSet<@> = BPlusTreeSet::new(); std::thread::scope(|s| { s.spawn(|| touch(&c)); }); }",
        "Cell<u32>", "Arc<u32>",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTree<NodeStoreVec<u32, @>> = BPlusTree::new(NodeStoreVec::new()); let it = c.iter(); std::thread::scope(|s| { s.spawn(move || touch(&it)); }); }",
        "Cell<u32>", "AtomicU32",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTreeSet<@> = BPlusTreeSet::new(); let it = c.union(&c); std::thread::scope(|s| { s.spawn(move || touch(&it)); }); }",
        "Rc<u32>", "Arc<u32>",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTreeSet<@> = BPlusTreeSet::new(); let it = c.into_iter(); std::thread::spawn(move || touch(&it)); }",
        "Rc<u32>", "Arc<u32>",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTree<NodeStoreVec<@, u32>> = BPlusTree::new(NodeStoreVec::new()); let it = c.into_iter(); std::thread::spawn(move || touch(&it)); }",
        "Rc<u32>", "Arc<u32>",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
fn f() { let mut c: BPlusTree<NodeStoreVec<@, u32>> = BPlusTree::new(NodeStoreVec::new()); let u = c.cursor_first(); std::thread::spawn(move || touch(&u)); }",
        "Rc<u32>", "Arc<u32>",
    ),
    (
        "use std::{cell::Cell, rc::Rc, sync::{Arc, atomic::AtomicU32}};
#[derive(Clone, Default)] struct A(@);
impl Augmentation<u32, u32> for A {
    fn from_inner(_: &[u32], a: &[Self]) -> Self { a[0].clone() }
    fn from_leaf(_: &[u32], _: &[u32]) -> Self { Self::default() }
}
fn f() { let mut c: BPlusTreeMap<u32, u32, A> = BPlusTreeMap::new(); std::thread::spawn(move || touch(&c)); }",
        "Rc<u32>", "Arc<u32>",
    ),
    (
        "struct G<'a>(Option<&'a [String]>);
impl<'a> DescendVisit<String, String, Count> for G<'a> {
    type Result = ();
    fn visit_inner(&mut self, keys: &[String], _: &[Count]) -> DescendVisitResult<()> { DescendVisitResult::GoDown(0) }
    fn visit_leaf(&mut self, keys: &[String], values: &[String]) -> Option<()> { @; None }
}",
        "self.0 = Some(keys)",
        "touch(keys)",
    ),
    (
        "struct G<'a>(Option<&'a String>);
impl<'a> DescendVisit<String, String, Count> for G<'a> {
    type Result = ();
    fn visit_inner(&mut self, keys: &[String], _: &[Count]) -> DescendVisitResult<()> { DescendVisitResult::GoDown(0) }
    fn visit_leaf(&mut self, keys: &[String], values: &[String]) -> Option<()> { @; None }
}",
        "self.0 = values.first()",
        "touch(&values.first())",
    ),
    (
        "struct G<'a>(Option<&'a Count>);
impl<'a> DescendVisit<String, String, Count> for G<'a> {
    type Result = ();
    fn visit_inner(&mut self, keys: &[String], a: &[Count]) -> DescendVisitResult<()> { @; DescendVisitResult::GoDown(0) }
    fn visit_leaf(&mut self, keys: &[String], values: &[String]) -> Option<()> { None }
}",
        "self.0 = a.first()",
        "touch(&a.first())",
    ),
    (
        "struct G;
impl DescendVisit<String, String, Count> for G {
    type Result = &'static str;
    fn visit_inner(&mut self, keys: &[String], a: &[Count]) -> DescendVisitResult<&'static str> { DescendVisitResult::GoDown(0) }
    fn visit_leaf(&mut self, keys: &[String], values: &[String]) -> Option<&'static str> { Some(@) }
}",
        "keys[0].as_str()",
        "\"\"",
    ),
    (
        "#[derive(Clone, Default)] struct A(&'static [String]);
impl Augmentation<String, String> for A {
    fn from_inner(_: &[String], _: &[Self]) -> Self { A(&[]) }
    fn from_leaf(keys: &[String], _: &[String]) -> Self { A(@) }
}",
        "keys",
        "&[]",
    ),
    (
        "#[derive(Clone, Default)] struct A(&'static [String]);
impl Augmentation<String, String> for A {
    fn from_inner(keys: &[String], _: &[Self]) -> Self { A(@) }
    fn from_leaf(_: &[String], _: &[String]) -> Self { A(&[]) }
}",
        "keys",
        "&[]",
    ),
    (
        "#[derive(Clone, Default)] struct A;
impl Augmentation<String, String> for A {
    fn from_inner(_: &[String], _: &[Self]) -> Self { A }
    fn from_leaf(_: &[String], _: &[String]) -> Self { A }
}
impl SearchAugmentation<String, String> for A {
    type Query = std::rc::Rc<std::cell::Cell<&'static [String]>>;
    fn locate_in_leaf(q: Self::Query, keys: &[String], values: &[String]) -> Option<usize> { q.set(@); None }
    fn locate_in_inner(q: Self::Query, _: &[String], _: &[Self]) -> Option<(usize, Self::Query)> { None }
}",
        "values",
        "&[]",
    ),
    (
        "#[derive(Clone, Default)] struct A;
impl Augmentation<String, String> for A {
    fn from_inner(_: &[String], _: &[Self]) -> Self { A }
    fn from_leaf(_: &[String], _: &[String]) -> Self { A }
}
impl RankAugmentation<String, String> for A {
    type Rank = &'static str;
    fn initial_value() -> Self::Rank { \"\" }
    fn fold_inner(k: &String, r: Self::Rank, _: &[Self]) -> Self::Rank { @ }
    fn fold_leaf(_: &String, r: Self::Rank, s: Result<usize, usize>, keys: &[String]) -> Result<Self::Rank, Self::Rank> { Ok(r) }
}",
        "k.as_str()",
        "r",
    ),
    (
        "fn f() { @ }",
        "let mut c: BPlusTreeMap<&str, u32> = BPlusTreeMap::new(); { let x = k(); c.insert(&x, 1); } touch(&c);",
        "let x = k(); let mut c: BPlusTreeMap<&str, u32> = BPlusTreeMap::new(); { c.insert(&x, 1); } touch(&c);",
    ),
    (
        "fn f() { @ }",
        "let mut c: BPlusTree<NodeStoreVec<u32, &str>> = BPlusTree::new(NodeStoreVec::new()); { let x = k(); c.insert(1, &x); } own(c.get(&1));",
        "let x = k(); let mut c: BPlusTree<NodeStoreVec<u32, &str>> = BPlusTree::new(NodeStoreVec::new()); { c.insert(1, &x); } own(c.get(&1));",
    ),
    (
        "fn f() { @ }",
        "let mut c: BPlusTreeSet<&str> = BPlusTreeSet::new(); { let o = BPlusTreeSet::from_iter([k()]); for x in o.iter() { c.insert(x); } } own(c.len());",
        "let o = BPlusTreeSet::from_iter([k()]); let mut c: BPlusTreeSet<&str> = BPlusTreeSet::new(); { for x in o.iter() { c.insert(x); } } own(c.len());",
    ),
    (
        "fn f() { @ }",
        "let c = { let x = k(); BPlusTreeSet::from_iter([&x[..]]) }; touch(&c);",
        "let x = k(); let c = { BPlusTreeSet::from_iter([&x[..]]) }; touch(&c);",
    ),
    (
        "fn put<'a>(c: &mut BPlusTreeSet<&'a str>, x: &'a str) { c.insert(x); }
fn f() { let mut c: BPlusTreeSet<&'static str> = BPlusTreeSet::new(); let x = k(); put(&mut c, @); touch(&c); }",
        "&x",
        "\"\"",
    ),
    (
        "fn put<'a>(c: &mut BPlusTreeMap<u32, &'a str>, x: &'a str) { c.insert(1, x); }
fn f() { let mut c: BPlusTreeMap<u32, &'static str> = BPlusTreeMap::new(); let x = k(); put(&mut c, @); touch(&c); }",
        "&x",
        "\"\"",
    ),
    (
        "fn f<'a>(c: &'a T, k: &String) -> Option<&'a String> { @ }",
        "Some(k)",
        "c.get(k)",
    ),
    (
        "fn f(c: &mut M) -> Option<&'static mut String> { @ }",
        "c.get_mut(\"a\")",
        "None",
    ),
    (
        "fn f(c: M) -> Vec<(&'static String, &'static String)> { @ }",
        "c.iter().collect()",
        "vec![]",
    ),
    (
        "fn f(c: &S) -> Option<&'static String> { @ }",
        "c.union(c).next()",
        "None",
    ),
];

/// programs that must be accepted: cursors do not borrow, keys and queries
/// looked up are not kept, copies and consumed collections are independent
const FREE: &[(u8, &str)] = &[
    (0, "let mut c = t(); let u = c.cursor_first().unwrap(); $ touch(u.key()); own(u.value(&c)); let n = u.next(&c); $ own(n.map(|n| n.exists(&c)));"),
    (0, "let mut c = t(); let u = c.get_cursor(&k()).unwrap().0; $ own(u.prev(&c)); $ touch(&u);"),
    (0, "let c = t(); let u = Cursor::last(&c).unwrap().0; drop(c); touch(u.key()); own(u.next(&t()));"),
    (0, "let mut c = t(); let r = { let x = k(); c.get(&x) }; touch(&r); $"),
    (0, "let mut c = t(); let r = { let x = k(); c.get_mut(&x) }; touch(&r); $"),
    (0, "let mut c = t(); let d = c.clone(); $ own(c); touch(&d.first());"),
    (0, "let mut c = t(); let r = { let x = k(); c.remove(&x) }; $ touch(&r);"),
    (0, "let mut c = t(); let r = { let mut it = c.iter(); it.next(); it.next() }; touch(&r); $"),
    (0, "let mut c = t(); $ let mut it = c.into_iter(); let a = it.next(); let b = it.next_back(); drop(it); touch(&a); touch(&b);"),
    (0, "let mut c = t(); let r = { let x = k(); c.rank_by_augmentation(&x) }; $ touch(&r);"),
    (1, "let mut c = m(); let r = { let x = k(); c.get(&x) }; touch(&r); $"),
    (1, "let mut c = m(); let r = { let x = k(); c.get_mut(&x) }; touch(&r); $"),
    (1, "let mut c = m(); let r = { let x = k(); c.rank_by_augmentation(&x) }; $ touch(&r);"),
    (0, "let mut c = t(); let (u, r) = { let x = k(); c.get_cursor(&x).unwrap() }; touch(&r); $ touch(&u);"),
    (0, "let mut c = t(); let r = { let u = c.cursor_first().unwrap(); u.value(&c) }; touch(&r); $"),
    (0, "let mut c = t(); let r = { let u = c.cursor_first().unwrap(); u.next_with_value(&c) }; touch(&r); let n = r.map(|r| r.0); $ own(n);"),
    (0, "let mut c = t(); let r = { let u = c.cursor_first().unwrap(); u.prev_with_value(&c) }; touch(&r); $"),
    (1, "let mut c = m(); if let Some(x) = c.get_mut(\"a\") { x.push('a'); } $"),
    (1, "let mut c = m(); let n = c.root_augmentation().count(); $ own(n);"),
    (1, "let mut c = m(); let r = { let x = k(); c.remove(&x) }; $ touch(&r);"),
    (1, "let mut c = m(); let e = c.remove_by_augmentation(0); $ touch(&e);"),
    (2, "let mut c = s(); let o = s(); let n = c.union(&o).count(); $ own(n);"),
    (2, "let mut c = s(); let o = s(); let v: Vec<String> = c.union(&o).cloned().collect(); $ touch(&v); touch(&o);"),
    (2, "let mut c = s(); let o = s(); { let mut u = c.union(&o); let w = u.clone(); u.next(); touch(&w.count()); } $"),
    (2, "let mut c = s(); let r = { let x = k(); c.contains(&x) }; $ touch(&r);"),
    (2, "let mut c = s(); $ let mut it = c.into_iter(); let a = it.next(); drop(it); touch(&a);"),
];

struct Unit {
    text: String,
    /// must be rejected, or must be accepted
    bad: bool,
    what: String,
}

fn some<'a, X>(all: &'a [X], r: &mut Rng, ok: impl Fn(&X) -> bool) -> &'a X {
    loop {
        let x = &all[r.below(all.len())];
        if ok(x) {
            return x;
        }
    }
}

fn noise(kind: u8, r: &mut Rng) -> String {
    (0..r.below(3)).map(|_| format!(" {}", some(READS, r, |x| x.0 == kind).1)).collect()
}

/// the rejected and the accepted version of one program, or an accepted one alone
fn program(o: &Op) -> (Vec<Unit>, bool) {
    let mut r = Rng::new(rng::mix(&[o.a as u64, o.b as u64, o.d as u64, 77]));
    let r = &mut r;
    match o.c {
        // borrow, change, use
        SP0 => {
            let src = &SOURCES[o.ua() % SOURCES.len()];
            let kind = src.kind;
            let form = o.ud() % 6;
            let all: Vec<(bool, &str)> = CHANGES
                .iter()
                .filter(|c| c.0 == kind && (form < 2 || !c.1))
                .map(|c| (c.1, c.2))
                .chain(READS.iter().filter(|c| c.0 == kind && src.exclusive).map(|c| (false, c.1)))
                .collect();
            let change = all[o.ub() % all.len()].1;
            let ex = src.text;
            let wrap = match o.ud() / 6 % 10 {
                0 | 1 => ex.to_string(),
                2 => format!("Some({ex})"),
                3 => format!("({ex}, 1)"),
                4 => format!("vec![{ex}]"),
                5 => format!("Hold({ex})"),
                6 => format!("Box::new(pass({ex}))"),
                7 => format!("if yes() {{ Some({ex}) }} else {{ None }}"),
                8 => format!("{{ let x = {ex}; move || touch(&x) }}"),
                _ => format!("match yes() {{ true => pass({ex}), false => loop {{}} }}"),
            };
            let usage = ["touch(&h);", "own(h);", "let z = h; touch(&z);"][o.ud() / 60 % 3];
            let quiet = |r: &mut Rng| if src.exclusive { String::new() } else { noise(kind, r) };
            let before = noise(kind, r);
            let between = quiet(r);
            let make = format!("let mut c = {}; let o = {};", MAKE[kind as usize], MAKE[kind as usize]);
            let (bad, good) = match form {
                0 | 3 => (
                    format!("fn f() {{ {make}{before} let h = {wrap};{between} {change} {usage} }}"),
                    format!("fn f() {{ {make}{before} let h = {wrap};{between} own(h); {change} }}"),
                ),
                1 => (
                    format!("fn f() {{ {make}{before} let h = {wrap};{between} if yes() {{ {change} }} {usage} }}"),
                    format!("fn f() {{ {make}{before} let h = {wrap};{between} if yes() {{ own(h); {change} }} else {{ {usage} }} }}"),
                ),
                2 => (
                    format!("fn f() {{ {make}{before} let mut h = Vec::new(); for _ in 0..2 {{ h.push({wrap}); {change} }} {usage} }}"),
                    format!("fn f() {{ {make}{before} for _ in 0..2 {{ let mut h = Vec::new(); h.push({wrap});{between} own(h); {change} }} }}"),
                ),
                4 => (
                    format!("fn f() {{ {make}{before} let h; loop {{ h = {wrap}; break; }} {change} {usage} }}"),
                    format!("fn f() {{ {make}{before} let h; loop {{ h = {wrap}; break; }} own(h); {change} }}"),
                ),
                _ => (
                    format!("fn f(mut c: {0}, o: {0}) {{ let h = {wrap};{between} loop {{ {change} if yes() {{ break; }} }} {usage} }}", TYPE[kind as usize]),
                    format!("fn f(mut c: {0}, o: {0}) {{ let h = {wrap};{between} own(h); loop {{ {change} if yes() {{ break; }} }} }}", TYPE[kind as usize]),
                ),
            };
            let what = format!("{ex} used after {change}");
            (pair(bad, good, what), true)
        }
        // borrow that leaves the place where the collection lives
        SP1 => {
            let src = &SOURCES[o.ua() % SOURCES.len()];
            let (kind, ex) = (src.kind as usize, src.text);
            let make = format!("let mut c = {}; let o = {};", MAKE[kind], MAKE[kind]);
            let before = noise(src.kind, r);
            // what `o` provides must not be what keeps the program from compiling
            let far = format!("let o = {};", MAKE[kind]);
            let (bad, good) = match o.ub() % 5 {
                0 => (
                    format!("fn f() {{ {far} let h; {{ let mut c = {}; h = {ex}; }} touch(&h); }}", MAKE[kind]),
                    format!("fn f() {{ {far} {{ let mut c = {}; let h; h = {ex}; touch(&h); own(h); }} }}", MAKE[kind]),
                ),
                1 => (
                    format!("fn f() {{ {make}{before} let h = {ex}; stat(&h); }}"),
                    format!("fn f() {{ {make}{before} let h = {ex}; touch(&h); own(h); }}"),
                ),
                2 => (
                    format!("fn f() {{ {far} let g = || {{ let mut c = {};{before} let h = {ex}; h }}; touch(&g()); }}", MAKE[kind]),
                    format!("fn f() {{ {far} let g = || {{ let mut c = {};{before} let h = {ex}; own(h); }}; touch(&g()); }}", MAKE[kind]),
                ),
                3 => (
                    format!("fn f() {{ {make}{before} let h = {ex}; std::thread::spawn(move || touch(&h)); }}"),
                    format!("fn f() {{ {make}{before} let h = {ex}; std::thread::scope(|s| {{ s.spawn(move || touch(&h)); }}); }}"),
                ),
                _ => (
                    format!("fn f() {{ {far} let mut h = Vec::new(); for _ in 0..2 {{ let mut c = {};{before} h.push({ex}); }} touch(&h); }}", MAKE[kind]),
                    format!("fn f() {{ {far} for _ in 0..2 {{ let mut c = {};{before} let mut h = Vec::new(); h.push({ex}); own(h); }} }}", MAKE[kind]),
                ),
            };
            (pair(bad, good, format!("{ex} outliving its collection")), true)
        }
        SP2 => {
            let (text, bad, good) = KEEPERS[o.ua() % KEEPERS.len()];
            (pair(text.replace('@', bad), text.replace('@', good), format!("with {bad}")), true)
        }
        // several shared borrows and reads at once
        SP3 => {
            let kind = (o.ua() % 3) as u8;
            let mut text = format!("fn f() {{ let c = {}; let o = {};", MAKE[kind as usize], MAKE[kind as usize]);
            let n = 1 + o.ub() % 6;
            for i in 0..n {
                let s = some(SOURCES, r, |s| s.kind == kind && !s.exclusive);
                let _ = write!(text, " let h{i} = {};{}", s.text, noise(kind, r));
            }
            for i in 0..n {
                let _ = write!(text, " touch(&h{i});");
            }
            text.push_str(" }");
            (vec![Unit { text, bad: false, what: "reads only".into() }], false)
        }
        _ => {
            let (kind, text) = FREE[o.ua() % FREE.len()];
            let mut out = String::new();
            for (i, part) in text.split('$').enumerate() {
                if i > 0 {
                    out.push_str(some(CHANGES, r, |c| c.0 == kind && !c.1).2);
                }
                out.push_str(part);
            }
            (vec![Unit { text: format!("fn f() {{ {out} }}"), bad: false, what: "nothing borrowed any more".into() }], false)
        }
    }
}

fn pair(bad: String, good: String, what: String) -> Vec<Unit> {
    vec![
        Unit { text: good, bad: false, what: what.clone() },
        Unit { text: bad, bad: true, what },
    ]
}

/// the errors the borrow checker itself reports
fn borrowck(code: &str) -> bool {
    [
        "", "E0373", "E0381", "E0382", "E0384", "E0499", "E0501", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515",
        "E0521", "E0277", "E0594", "E0596", "E0597", "E0621", "E0700", "E0712", "E0713", "E0716", "E0310", "E0311", "E0309",
    ]
    .contains(&code)
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn repo() -> PathBuf {
    let toml = concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.toml");
    let text = std::fs::read_to_string(toml).unwrap_or_default();
    let line = text.lines().find(|l| l.starts_with("sweep-bptree"));
    let path = line.and_then(|l| l.split('"').nth(1)).unwrap_or("/repo");
    Path::new(env!("CARGO_MANIFEST_DIR")).join(path)
}

fn rustc(dir: &Path, args: &[&str]) -> Option<(bool, String)> {
    let out = Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=short", "-Awarnings"])
        .args(args)
        .current_dir(dir)
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::null())
        .output()
        .ok()?;
    Some((out.status.success(), String::from_utf8_lossy(&out.stderr).into_owned()))
}

/// None: not decided. Otherwise for each unit the codes of its errors.
fn compile(units: &[Unit]) -> Option<Vec<Vec<String>>> {
    let (errors, reached) = attempt(units, &vec![true; units.len()])?;
    if reached {
        return Some(errors);
    }
    // some do not fit the interface, without them the rest can be judged
    let fit: Vec<bool> = errors.iter().map(|e| e.is_empty()).collect();
    let (mut again, reached) = attempt(units, &fit)?;
    for (a, e) in again.iter_mut().zip(errors) {
        a.extend(e);
    }
    reached.then_some(again)
}

fn attempt(units: &[Unit], take: &[bool]) -> Option<(Vec<Vec<String>>, bool)> {
    thread_local! {
        static LIB: std::cell::RefCell<Option<Vec<u8>>> = const { std::cell::RefCell::new(None) };
    }
    use std::sync::atomic::{AtomicU32, Ordering};
    static N: AtomicU32 = AtomicU32::new(0);
    let dir = std::env::temp_dir().join(format!(
        "sweep-c22-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::Relaxed)
    ));
    std::fs::create_dir_all(&dir).ok()?;
    let dir = Dir(dir);
    let rmeta = dir.0.join("libsweep_bptree.rmeta");
    if LIB.with(|l| l.borrow().is_none()) {
        let src = repo().join("src/lib.rs");
        let (ok, _) = rustc(&dir.0, &["--crate-name", "sweep_bptree", "-o", "libsweep_bptree.rmeta", src.to_str()?])?;
        if !ok {
            return None;
        }
        let bytes = std::fs::read(&rmeta).ok()?;
        LIB.with(|l| *l.borrow_mut() = Some(bytes));
    } else {
        LIB.with(|l| std::fs::write(&rmeta, l.borrow().as_ref().unwrap())).ok()?;
    }
    let mut file = PRELUDE.to_string();
    let mut lines = vec![];
    let canary = Unit {
        text: "fn f() { let mut c = vec![1]; let h = c.first(); c.clear(); touch(&h); }".into(),
        bad: true,
        what: String::new(),
    };
    for (i, u) in units.iter().chain([&canary]).enumerate() {
        let from = file.lines().count() + 1;
        let text = if take.get(i).is_none_or(|t| *t) { &u.text[..] } else { "" };
        let _ = write!(file, "mod p{i} {{ use super::*;\n{text}\n}}\n");
        lines.push((from, file.lines().count()));
    }
    std::fs::write(dir.0.join("p.rs"), file).ok()?;
    let (_, said) = rustc(&dir.0, &["--crate-name", "p", "--extern", "sweep_bptree=libsweep_bptree.rmeta", "-o", "libp.rmeta", "p.rs"])?;
    let mut errors = vec![vec![]; lines.len()];
    for l in said.lines() {
        // p.rs:12:5: error[E0502]: ...
        let mut p = l.splitn(4, ':');
        let (Some("p.rs"), Some(n), Some(_), Some(rest)) = (p.next(), p.next(), p.next(), p.next()) else { continue };
        let Some(rest) = rest.trim_start().strip_prefix("error") else { continue };
        let Ok(n) = n.parse::<usize>() else { continue };
        let code = rest.strip_prefix('[').and_then(|r| r.split(']').next()).unwrap_or("").to_string();
        if let Some(i) = lines.iter().position(|(a, b)| *a <= n && n <= *b) {
            errors[i].push(code);
        }
    }
    let canary = errors.pop().unwrap();
    // without it the compiler did not come as far as the borrow checker
    Some((errors, !canary.is_empty()))
}

struct P;
impl Prop for P {
    const ID: &'static str = "C22";
    const RULE: &'static str = "Generated programs, compiled against the library as it is: something borrowed from a tree, map or set (70 ways: values, entries, iterators and their items, unions, summaries, stores, leaves, cursor values, exclusive borrows), wrapped in one of nine ways, then one of 45 changes, moves or drops (for exclusive borrows also 23 reads), in six control-flow forms, then a use; borrows leaving scope, closure, loop or thread; visitors, summaries and queries that keep what they are shown; contents that must not cross threads. Each must be rejected while its twin, which differs in the use only, is accepted. Programs with any number of shared borrows and reads at once, or that hold cursors, keys, copies and removed entries over changes, must be accepted. Non-trivial: a pair whose twin was accepted.";
    fn stages(tier: Tier, _profile: &str) -> Vec<Stage> {
        vec![stage("programs", if tier == Tier::Thorough { 1500 } else { 120 })]
    }
    fn gen(_: &str, idx: u64, rng: &mut Rng) -> Case {
        let mut ops = vec![];
        for i in 0..160 {
            // every source and every template is sure to come up
            let n = idx as usize * 160 + i;
            let (a, b, d) = (rng.below(1 << 16), rng.below(1 << 16), rng.below(1 << 16));
            ops.push(match rng.below(16) {
                0..=8 => op(SP0, n, b, d),
                9..=11 => op(SP1, n, b, d),
                12 => op(SP2, n / 3, b, d),
                13 | 14 => op(SP3, a, b, d),
                _ => op(SP4, n / 3, b, d),
            });
        }
        Case { stage: "programs".into(), params: vec![0, 0, 0, 0], ops }
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        let mut units = vec![];
        let mut pairs = vec![];
        for o in &case.ops {
            let (u, pair) = program(o);
            pairs.push((units.len(), pair));
            units.extend(u);
        }
        let Some(errors) = compile(&units) else {
            cx.label("not decided: the compiler gave no verdict");
            return Ok(());
        };
        for (i, pair) in pairs {
            let other = errors[i].iter().any(|c| !borrowck(c) || c == "E0277");
            if other {
                cx.label("not decided: the program does not fit the interface");
                continue;
            }
            if !pair {
                ensure!(errors[i].is_empty(), "rejected ({:?}), should be accepted: {}", errors[i], units[i].text);
                cx.steps += 1;
                continue;
            }
            if !errors[i].is_empty() {
                cx.label("not decided: the twin does not compile either");
                continue;
            }
            cx.steps += 1;
            cx.nontrivial();
            ensure!(!errors[i + 1].is_empty(), "accepted, should be rejected ({}): {}", units[i].what, units[i + 1].text);
        }
        Ok(())
    }
}
fn main() {
    if let Some(s) = std::env::args().nth(1).filter(|s| s == "show") {
        let _ = s;
        // for people: what becomes of the first cases
        for idx in 0..std::env::args().nth(2).and_then(|n| n.parse().ok()).unwrap_or(1) {
            let c = P::gen("programs", idx, &mut Rng::new(idx));
            let mut units = vec![];
            for o in &c.ops {
                units.extend(program(o).0);
            }
            let e = compile(&units);
            for (i, u) in units.iter().enumerate() {
                println!("{} {:?} {}", if u.bad { "bad " } else { "good" }, e.as_ref().map(|e| e[i].clone()), u.text);
            }
        }
        return;
    }
    runner::main::<P>();
}
