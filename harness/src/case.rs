//! A generated case: the stage it belongs to, integer parameters and a list of
//! operations. Cases are plain text on disk, that is what a replay file is.

use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub c: u8,
    pub a: i64,
    pub b: i64,
    pub d: i64,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Case {
    pub stage: String,
    pub params: Vec<i64>,
    pub ops: Vec<Op>,
}

macro_rules! ops {
    ($($name:ident = $n:expr),* $(,)?) => {
        $(pub const $name: u8 = $n;)*
        const NAMES: &[(&str, u8)] = &[$((stringify!($name), $n)),*];
    };
}
ops! {
    INS = 0, DEL = 1, UPD = 2, MUT = 3, MIX = 4, TOG = 5, CLR = 6, BLD = 7, CHK = 8, PRB = 9,
    SP0 = 20, SP1 = 21, SP2 = 22, SP3 = 23, SP4 = 24, SP5 = 25, SP6 = 26, SP7 = 27, SP8 = 28, SP9 = 29,
}

pub fn op(c: u8, a: usize, b: usize, d: usize) -> Op {
    Op { c, a: a as i64, b: b as i64, d: d as i64 }
}

impl Op {
    pub fn name(&self) -> &'static str {
        NAMES.iter().find(|(_, n)| *n == self.c).map(|(s, _)| *s).unwrap_or("NOP")
    }
    pub fn ua(&self) -> usize {
        self.a.max(0) as usize
    }
    pub fn ub(&self) -> usize {
        self.b.max(0) as usize
    }
    pub fn ud(&self) -> usize {
        self.d.max(0) as usize
    }
}

impl Case {
    pub fn param(&self, i: usize) -> i64 {
        self.params.get(i).copied().unwrap_or(0)
    }
    pub fn to_text(&self, prop: &str) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "property {prop}");
        let _ = writeln!(s, "stage {}", self.stage);
        let _ = write!(s, "params");
        for p in &self.params {
            let _ = write!(s, " {p}");
        }
        s.push('\n');
        for o in &self.ops {
            let _ = writeln!(s, "op {} {} {} {}", o.name(), o.a, o.b, o.d);
        }
        s
    }
    pub fn parse(text: &str) -> Result<(String, Case), String> {
        let mut prop = String::new();
        let mut c = Case { stage: String::new(), params: vec![], ops: vec![] };
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let mut w = line.split_whitespace();
            match w.next() {
                Some("property") => prop = w.next().unwrap_or("").to_string(),
                Some("stage") => c.stage = w.next().unwrap_or("").to_string(),
                Some("params") => {
                    for p in w {
                        c.params.push(p.parse().map_err(|e| format!("{line}: {e}"))?);
                    }
                }
                Some("op") => {
                    let n = w.next().unwrap_or("");
                    let code = NAMES
                        .iter()
                        .find(|(s, _)| *s == n)
                        .map(|x| x.1)
                        .ok_or_else(|| format!("unknown op {n}"))?;
                    let mut v = [0i64; 3];
                    for x in v.iter_mut() {
                        *x = w.next().unwrap_or("0").parse().map_err(|e| format!("{line}: {e}"))?;
                    }
                    c.ops.push(Op { c: code, a: v[0], b: v[1], d: v[2] });
                }
                _ => return Err(format!("cannot parse: {line}")),
            }
        }
        Ok((prop, c))
    }
    pub fn fingerprint(&self) -> u64 {
        let mut h = crate::rng::hash_str(&self.stage);
        for p in &self.params {
            h = crate::rng::splitmix(h ^ *p as u64).rotate_left(9);
        }
        for o in &self.ops {
            h = crate::rng::splitmix(
                h ^ (o.c as u64) ^ ((o.a as u64) << 8) ^ ((o.b as u64) << 28) ^ ((o.d as u64) << 46),
            )
            .rotate_left(13);
        }
        h
    }
}
