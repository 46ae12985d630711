//! Drives a double-ended exact-size iterator with a random script and checks
//! every step against the expected sequence `0..n`.

use crate::rng::Rng;
use crate::{ensure, R};

/// `ok(item, i)` decides whether `item` is the i-th expected entry.
/// At most `cap` entries are taken. `dup` copies the iterator where that is possible.
pub fn script<I>(
    it: I,
    n: usize,
    cap: usize,
    rng: &mut Rng,
    ok: &dyn Fn(&I::Item, usize) -> bool,
    dup: Option<&dyn Fn(&I) -> I>,
) -> R
where
    I: DoubleEndedIterator + ExactSizeIterator,
{
    go(it, 0, n, cap, rng, ok, dup, 0)
}

fn go<I>(
    mut it: I,
    mut lo: usize,
    mut hi: usize,
    cap: usize,
    rng: &mut Rng,
    ok: &dyn Fn(&I::Item, usize) -> bool,
    dup: Option<&dyn Fn(&I) -> I>,
    depth: usize,
) -> R
where
    I: DoubleEndedIterator + ExactSizeIterator,
{
    // share of front steps, and how long runs from one end are
    let share = rng.pick(&[0usize, 100, 50, 50, 10, 90, 70]);
    let run = rng.pick(&[1usize, 1, 3, 20, 64, 65, 200]);
    let stop = match rng.below(6) {
        0 => rng.below(hi - lo + 1),
        1 => rng.below(8),
        _ => usize::MAX,
    }
    .min(cap);
    let jumps = rng.pct(30);
    let mut taken = 0;
    let mut dups = if depth == 0 { rng.below(3) } else { 0 };
    let mut left = 0;
    let mut front = true;
    let len_ok = |it: &I, lo: usize, hi: usize| -> R {
        let h = it.size_hint();
        ensure!(
            h == (hi - lo, Some(hi - lo)),
            "size_hint is {h:?} with {} entries to come ({lo} taken from the front)",
            hi - lo
        );
        ensure!(it.len() == hi - lo, "len() is {} with {} entries to come", it.len(), hi - lo);
        Ok(())
    };
    len_ok(&it, lo, hi)?;
    while taken < stop {
        if left == 0 {
            front = rng.below(100) < share;
            left = rng.range(1, run);
        }
        left -= 1;
        let jump = if jumps && rng.below(8) == 0 { rng.pick(&[0usize, 1, 2, 5, 63, 64, 70]) } else { 0 };
        let item = match (front, jump) {
            (true, 0) => it.next(),
            (false, 0) => it.next_back(),
            (true, j) => it.nth(j),
            (false, j) => it.nth_back(j),
        };
        let end = if front { "front" } else { "back" };
        if lo + jump >= hi {
            ensure!(item.is_none(), "an entry from the {end} although only {} were to come", hi - lo);
            lo = hi;
            len_ok(&it, lo, hi)?;
            break;
        }
        let want = if front { lo + jump } else { hi - 1 - jump };
        match &item {
            None => return Err(format!("nothing from the {end} although {} entries are to come", hi - lo)),
            Some(x) => {
                ensure!(ok(x, want), "wrong entry from the {end}: should be number {want} (range {lo}..{hi})")
            }
        }
        if front {
            lo += jump + 1;
        } else {
            hi -= jump + 1;
        }
        taken += jump + 1;
        len_ok(&it, lo, hi)?;
        if dups > 0 && rng.below(if hi - lo < 40 { 4 } else { 60 }) == 0 {
            dups -= 1;
            if let Some(d) = dup {
                go(d(&it), lo, hi, cap, rng, ok, dup, depth + 1)?;
                len_ok(&it, lo, hi)?;
            }
        }
    }
    if lo == hi {
        for _ in 0..3 {
            ensure!(it.next().is_none(), "an entry after the iterator was exhausted (front)");
            ensure!(it.next_back().is_none(), "an entry after the iterator was exhausted (back)");
            len_ok(&it, lo, hi)?;
        }
        return Ok(());
    }
    if cap != usize::MAX {
        return Ok(());
    }
    // partially consumed: let other methods go on with the rest
    let n = hi - lo;
    let at = if n == 0 { 0 } else { rng.below(n) };
    match rng.below(17) {
        0 => {
            let c = it.count();
            ensure!(c == n, "count() gave {c} of {n}");
        }
        1 => match it.last() {
            Some(x) => ensure!(ok(&x, hi - 1), "last() gave a wrong entry"),
            None => return Err("last() gave nothing".into()),
        },
        2 => {
            let mut i = lo;
            for x in it {
                ensure!(i < hi && ok(&x, i), "rest from the front: wrong entry at {i} of {hi}");
                i += 1;
            }
            ensure!(i == hi, "rest from the front ended at {i} of {hi}");
        }
        3 => {
            let mut i = hi;
            for x in it.rev() {
                ensure!(i > lo && ok(&x, i - 1), "rest from the back: wrong entry at {i}, down to {lo}");
                i -= 1;
            }
            ensure!(i == lo, "rest from the back ended at {i}, not {lo}");
        }
        4 => {
            let (i, good) = it.fold((lo, true), |(i, g), x| (i + 1, g && i < hi && ok(&x, i)));
            ensure!(good && i == hi, "fold() went wrong ({lo}..{hi}, ended at {i})");
        }
        5 => {
            let (i, good) = it.rfold((hi, true), |(i, g), x| (i - 1, g && i > lo && ok(&x, i - 1)));
            ensure!(good && i == lo, "rfold() went wrong ({lo}..{hi}, ended at {i})");
        }
        6 => {
            let mut i = lo;
            let mut good = true;
            it.for_each(|x| {
                good &= i < hi && ok(&x, i);
                i += 1;
            });
            ensure!(good && i == hi, "for_each() went wrong ({lo}..{hi}, ended at {i})");
        }
        7 => {
            let v: Vec<I::Item> = it.collect();
            ensure!(v.len() == n, "collect() gave {} of {n}", v.len());
            for (i, x) in v.iter().enumerate() {
                ensure!(ok(x, lo + i), "collect() gave a wrong entry at {}", lo + i);
            }
        }
        8 => {
            let step = rng.pick(&[1usize, 2, 3, 63, 64, 65]);
            let mut i = lo;
            for x in it.step_by(step) {
                ensure!(i < hi && ok(&x, i), "step_by({step}): wrong entry at {i} of {hi}");
                i += step;
            }
            ensure!(i >= hi, "step_by({step}) ended at {i} of {hi}");
        }
        9 if n > 0 => {
            let f = it.find(|x| ok(x, lo + at));
            ensure!(f.is_some_and(|x| ok(&x, lo + at)), "find() missed entry {}", lo + at);
            return go(it, lo + at + 1, hi, cap, rng, ok, dup, depth + 1);
        }
        10 if n > 0 => {
            let f = it.rfind(|x| ok(x, lo + at));
            ensure!(f.is_some_and(|x| ok(&x, lo + at)), "rfind() missed entry {}", lo + at);
            return go(it, lo, lo + at, cap, rng, ok, dup, depth + 1);
        }
        11 if n > 0 => {
            let p = it.position(|x| ok(&x, lo + at));
            ensure!(p == Some(at), "position() gave {p:?} for {at}");
            return go(it, lo + at + 1, hi, cap, rng, ok, dup, depth + 1);
        }
        12 if n > 0 => {
            let p = it.rposition(|x| ok(&x, lo + at));
            ensure!(p == Some(at), "rposition() gave {p:?} for {at} of {n}");
            return go(it, lo, lo + at, cap, rng, ok, dup, depth + 1);
        }
        13 => {
            let k = rng.below(n + 2);
            let mut i = lo;
            for x in it.by_ref().take(k) {
                ensure!(i < hi && ok(&x, i), "take({k}): wrong entry at {i} of {hi}");
                i += 1;
            }
            ensure!(i == lo + k.min(n), "take({k}) ended at {i} of {hi}");
            return go(it, i, hi, cap, rng, ok, dup, depth + 1);
        }
        14 => {
            let k = rng.below(n + 2);
            let mut i = lo + k;
            for x in it.skip(k) {
                ensure!(i < hi && ok(&x, i), "skip({k}): wrong entry at {i} of {hi}");
                i += 1;
            }
            ensure!(i == hi.max(lo + k), "skip({k}) ended at {i} of {hi}");
        }
        15 => {
            // both short-circuit: the rest must still be there
            let mut i = lo;
            let stop = lo + at;
            let front = rng.below(2) == 0;
            if front {
                let all = it.all(|x| {
                    i += 1;
                    ok(&x, i - 1) && i <= stop
                });
                ensure!(all == (i < stop + 1 || n == 0) && i == (stop + 1).min(hi), "all() stopped at {i}, not {stop}");
                return go(it, i, hi, cap, rng, ok, dup, depth + 1);
            }
            let r = it.try_rfold(hi, |i, x| if ok(&x, i - 1) && i - 1 > stop { Ok(i - 1) } else { Err(i - 1) });
            match r {
                Err(i) => {
                    ensure!(i == stop, "try_rfold() stopped at {i}, not {stop}");
                    return go(it, lo, i, cap, rng, ok, dup, depth + 1);
                }
                Ok(i) => ensure!(n == 0 && i == hi, "try_rfold() ended at {i} ({lo}..{hi})"),
            }
        }
        _ => drop(it),
    }
    Ok(())
}
