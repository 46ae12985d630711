//! C26: how much stack the calls use. The stack below the caller is painted
//! before a call and looked at afterwards.

use harness::calls::{self, Meter};
use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;
use std::hint::black_box;

const PAINT: u64 = 0x5ca1_ab1e_0dd5_7ac3;
const DEEP: usize = 384 << 10;
/// room for the frames of `used` itself
const SKIP: usize = 1 << 10;

/// bytes of stack `f` used, up to DEEP
#[inline(never)]
fn used(f: &mut dyn FnMut()) -> usize {
    let here = 0u64;
    let top = (black_box(&here) as *const u64 as usize - SKIP) & !7;
    let bottom = top - DEEP;
    // the thread was given four times as much, and nothing else runs on it
    let mut p = bottom;
    while p < top {
        unsafe { (p as *mut u64).write_volatile(PAINT) };
        p += 8;
    }
    f();
    let mut p = bottom;
    while p < top && unsafe { (p as *const u64).read_volatile() } == PAINT {
        p += 8;
    }
    top - p
}

/// what a call may use: some nodes, and some room for the rest
fn bound(key: usize, value: usize, summary: usize) -> usize {
    (24 << 10) + 6 * (64 * (key + value) + 65 * (key + summary + 8))
}

struct P;
impl Prop for P {
    const ID: &'static str = "C26";
    const RULE: &'static str = "Trees, maps and sets of 0 to 2.4 million entries, bulk-loaded, grown or thinned out, of five combinations of key and value size; for each call of a generated list (insertions, removals, lookups, iterations, cursors, positions, visitors, clones, consumption, clear, drop, construction, union) the stack below the caller is painted before it and the depth it reached read off afterwards; it has to be below a bound that depends on the size of nodes alone. Non-trivial: at least 1000 entries and more than 20 calls measured.";
    fn stages(tier: Tier, profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 12 } else { 1 };
        let g = if profile == "checked" { 3 } else { 1 };
        vec![stage("giant", 6 * f / g), stage("large", 60 * f / g), stage("medium", 500 * f / g), stage("small", 900 * f / g)]
    }
    fn gen(st: &str, _idx: u64, rng: &mut Rng) -> Case {
        calls::gen(st, rng)
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        let mut me = Meter { measure: used, per_byte: 0, bound: 0, most: 0, what: "", unit: "bytes of stack", n: 0, calls: 0 };
        let r = std::thread::scope(|s| {
            let me = &mut me;
            std::thread::Builder::new()
                .stack_size(4 * DEEP)
                .spawn_scoped(s, move || {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| calls::run(case, me, bound)))
                        .unwrap_or_else(|_| Err(runner::last_panic()))
                })
                .unwrap()
                .join()
                .unwrap()
        });
        if std::env::var("STACK").is_ok() {
            eprintln!("{} of {} in {} ({})", me.most, me.bound, me.what, case.param(2));
        }
        r?;
        cx.steps += me.calls;
        if me.most * 2 > me.bound {
            cx.label("more than half of what is allowed");
        }
        if case.param(2) >= 3000 {
            cx.label("a recursion for each leaf would be seen");
        }
        if case.param(2) >= 1000 && me.calls > 20 {
            cx.nontrivial();
        }
        Ok(())
    }
}
fn main() {
    runner::main::<P>();
}
