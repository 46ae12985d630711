//! C27: how much memory the calls use besides what the collection holds.

use harness::alloc::{scratch, Counting};
use harness::calls::{self, Meter};
use harness::runner::{stage, Prop, Stage, Tier};
use harness::*;

#[global_allocator]
static ALLOC: Counting = Counting;

/// what a call may use: some nodes, and some room for the rest
fn bound(key: usize, value: usize, summary: usize) -> usize {
    (4 << 10) + 4 * (64 * (key + value) + 65 * (key + summary + 8))
}

struct P;
impl Prop for P {
    const ID: &'static str = "C27";
    const RULE: &'static str = "Trees, maps and sets of 0 to 2.4 million entries, bulk-loaded, grown or thinned out, of five combinations of key and value size; for each call of a generated list (insertions, removals, lookups, iterations, cursors, positions, visitors, clones, consumption, clear, drop, construction, union) a counting allocator says how many bytes were allocated at the worst moment above what was before the call and above what is after it; it has to be below a bound that depends on the size of nodes alone, and for a call that is given a sequence or makes one below that and four times the bytes of the sequence. Non-trivial: at least 1000 entries and more than 20 calls measured.";
    fn stages(tier: Tier, profile: &str) -> Vec<Stage> {
        let f = if tier == Tier::Thorough { 12 } else { 1 };
        let g = if profile == "checked" { 3 } else { 1 };
        vec![stage("giant", 6 * f / g), stage("large", 200 * f / g), stage("medium", 3000 * f / g), stage("small", 3000 * f / g)]
    }
    fn gen(st: &str, _idx: u64, rng: &mut Rng) -> Case {
        calls::gen(st, rng)
    }
    fn run(case: &Case, cx: &mut Cx) -> R {
        let mut me = Meter { measure: scratch, per_byte: 4, bound: 0, most: 0, what: "", unit: "bytes of memory", n: 0, calls: 0 };
        let r = calls::run(case, &mut me, bound);
        if std::env::var("STACK").is_ok() {
            eprintln!("{} of {} in {} ({})", me.most, me.bound, me.what, case.param(2));
        }
        r?;
        cx.steps += me.calls;
        if me.most > 0 {
            cx.label("a call used some");
        }
        if case.param(2) >= 3000 {
            cx.label("a copy of the entries would be seen");
        }
        if case.param(2) >= 1000 && me.calls > 20 {
            cx.nontrivial();
        }
        Ok(())
    }
}
fn main() {
    runner::main::<P>();
}
