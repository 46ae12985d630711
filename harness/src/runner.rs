//! Case runner: a parent process that starts worker processes over a fixed,
//! seed-determined set of cases, notices failures and crashes, shrinks the
//! first one by re-execution and writes the replay file.

use crate::case::{Case, Op};
use crate::rng::{hash_str, mix, Rng};
use crate::R;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Stage {
    pub name: &'static str,
    pub cases: u64,
}

pub fn stage(name: &'static str, cases: u64) -> Stage {
    Stage { name, cases }
}

/// The usual mix of history size classes; counts for the quick tier.
pub fn classes(tier: Tier, tiny: u64, leaf: u64, small: u64, medium: u64, large: u64, huge: u64) -> Vec<Stage> {
    let f = if tier == Tier::Thorough { 12 } else { 1 };
    vec![
        stage("huge", huge * f),
        stage("large", large * f),
        stage("medium", medium * f),
        stage("small", small * f),
        stage("leaf", leaf * f),
        stage("tiny", tiny * f),
    ]
}

/// with `n` cases of five levels first
pub fn with_giant(tier: Tier, n: u64, mut stages: Vec<Stage>) -> Vec<Stage> {
    stages.insert(0, stage("giant", if tier == Tier::Thorough { n * 8 } else { n }));
    stages
}

#[derive(Default)]
pub struct Cx {
    labels: BTreeSet<&'static str>,
    nontrivial: bool,
    pub steps: u64,
    /// build profile the worker was told it is (release, checked, asan, miri)
    pub profile: String,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.insert(l);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// move the labels out
    pub fn take(&mut self) -> (BTreeSet<&'static str>, bool) {
        (std::mem::take(&mut self.labels), self.nontrivial)
    }
}

pub trait Prop {
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    fn stages(tier: Tier, profile: &str) -> Vec<Stage>;
    fn gen(stage: &str, idx: u64, rng: &mut Rng) -> Case;
    fn run(case: &Case, cx: &mut Cx) -> R;
}

// ------------------------------------------------------------ panic capture

static PANIC_MSG: Mutex<Option<String>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = PANIC_MSG.lock() {
            *g = Some(format!("panic: {msg} ({loc})"));
        }
    }));
}

fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(not a string)".to_string()
    }
}

pub fn last_panic() -> String {
    PANIC_MSG.lock().ok().and_then(|g| g.clone()).unwrap_or_else(|| "panic".into())
}

fn run_one<P: Prop>(case: &Case, cx: &mut Cx) -> R {
    match catch_unwind(AssertUnwindSafe(|| P::run(case, cx))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

// ------------------------------------------------------------------ limits

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn limits(profile: &str) {
    if cfg!(miri) {
        return;
    }
    unsafe {
        let core = [0u64, 0u64];
        setrlimit(4, &core); // RLIMIT_CORE
        if profile != "asan" && profile != "tsan" {
            let space = [6u64 << 30, 6u64 << 30];
            setrlimit(9, &space); // RLIMIT_AS
        }
    }
}

// ------------------------------------------------------------------- args

struct Args {
    kv: BTreeMap<String, String>,
    pos: Vec<String>,
}

impl Args {
    fn parse() -> Self {
        let mut kv = BTreeMap::new();
        let mut pos = vec![];
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                kv.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                pos.push(a);
            }
        }
        Args { kv, pos }
    }
    fn get(&self, k: &str, d: &str) -> String {
        self.kv.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn case_of<P: Prop>(seed: u64, profile: &str, stage: &str, idx: u64) -> Case {
    let s = mix(&[seed, hash_str(P::ID), hash_str(profile), hash_str(stage), idx]);
    let mut rng = Rng::new(s);
    P::gen(stage, idx, &mut rng)
}

pub fn main<P: Prop>() {
    let args = Args::parse();
    install_hook();
    let tier = if args.get("tier", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed = args.num("seed", 1);
    let profile = args.get("profile", "release");
    let code = match args.pos.first().map(|s| s.as_str()) {
        Some("run") => parent::<P>(&args, tier, seed, &profile),
        Some("worker") => worker::<P>(&args, tier, seed, &profile),
        Some("replay") => {
            limits(&profile);
            let cpu = args.num("cpu", 0);
            if cpu > 0 && !cfg!(miri) {
                let l = [cpu, cpu + 5];
                unsafe { setrlimit(0, &l) }; // RLIMIT_CPU, ends with SIGXCPU
            }
            let text = if let Some(t) = args.kv.get("text") {
                t.replace(';', "\n")
            } else {
                fs::read_to_string(&args.pos[1]).expect("replay file")
            };
            let (_, case) = Case::parse(&text).expect("replay file");
            let mut cx = Cx { profile, ..Cx::default() };
            match run_one::<P>(&case, &mut cx) {
                Ok(()) => {
                    println!("OK steps={} nontrivial={} labels={:?}", cx.steps, cx.nontrivial, cx.labels);
                    0
                }
                Err(e) => {
                    println!("FAIL {e}");
                    1
                }
            }
        }
        Some("gen") => {
            let c = case_of::<P>(seed, &profile, &args.pos[1], args.pos[2].parse().unwrap());
            print!("{}", c.to_text(P::ID));
            0
        }
        Some("stages") => {
            for s in plan::<P>(&args, tier, &profile) {
                println!("{}", s.name);
            }
            0
        }
        _ => {
            eprintln!("usage: run|worker|replay FILE|gen STAGE IDX");
            2
        }
    };
    std::process::exit(code);
}

fn plan<P: Prop>(args: &Args, tier: Tier, profile: &str) -> Vec<Stage> {
    let scale: f64 = args.get("scale", "1").parse().unwrap_or(1.0);
    let only = args.get("only", "");
    P::stages(tier, profile)
        .into_iter()
        .filter(|s| only.is_empty() || only == s.name)
        .map(|mut s| {
            if s.cases > 0 {
                s.cases = ((s.cases as f64 * scale).ceil() as u64).max(1);
            }
            s
        })
        .collect()
}

// ------------------------------------------------------------------ worker

fn worker<P: Prop>(args: &Args, tier: Tier, seed: u64, profile: &str) -> i32 {
    limits(profile);
    let stripe = args.num("stripe", 0);
    let of = args.num("of", 1);
    let dir = PathBuf::from(args.get("dir", "."));
    let stages = plan::<P>(args, tier, profile);
    let state = fs::OpenOptions::new()
        .create(true)
        .truncate(false)
        .write(true)
        .open(dir.join(format!("state.{stripe}")))
        .expect("state file");
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<String> = vec![];
    let mut steps = 0;
    let mut evals: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut nontrivial = 0u64;
    let mut failed = false;
    let mut cut = false;
    let mut cost: BTreeMap<&'static str, f64> = BTreeMap::new();
    let budget = args.num("budget", 0);
    let began = Instant::now();
    'all: for (si, st) in stages.iter().enumerate() {
        let t0 = if cfg!(miri) { None } else { Some(Instant::now()) };
        // different stages start on different workers, to even out the load
        let first = (stripe + of - (si as u64 * 3) % of) % of;
        let mut idx = first;
        let mut taken = 0;
        while idx < st.cases {
            // never reached on an ordinary machine: the work is fixed, this only
            // keeps a very slow one within the time allowed for a check
            if budget > 0 && began.elapsed().as_secs() > budget {
                cut = true;
                break 'all;
            }
            let case = case_of::<P>(seed, profile, st.name, idx);
            let mut rec = [0u8; 16];
            rec[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
            rec[8..].copy_from_slice(&idx.to_le_bytes());
            let _ = state.write_at(&rec, 0);
            let mut cx = Cx { profile: profile.to_string(), ..Cx::default() };
            let r = run_one::<P>(&case, &mut cx);
            *evals.entry(st.name).or_default() += 1;
            steps += cx.steps;
            for l in &cx.labels {
                *labels.entry(l).or_default() += 1;
            }
            if cx.nontrivial {
                nontrivial += 1;
                hashes.insert(case.fingerprint());
                if taken < 1 && stripe == si as u64 % of {
                    taken += 1;
                    samples.push(case.to_text(P::ID).lines().skip(1).collect::<Vec<_>>().join("; "));
                }
            }
            if let Err(e) = r {
                let _ = fs::write(
                    dir.join(format!("fail.{stripe}")),
                    format!("{}# {}\n", case.to_text(P::ID), e.replace('\n', " ")),
                );
                println!("WORKER-FAIL {e}");
                failed = true;
                break 'all;
            }
            idx += of;
        }
        if let Some(t0) = t0 {
            *cost.entry(st.name).or_default() += t0.elapsed().as_secs_f64();
        }
    }
    let mut out = String::new();
    let _ = writeln!(out, "steps\t{steps}");
    let _ = writeln!(out, "nontrivial\t{nontrivial}");
    let _ = writeln!(out, "cut\t{}", cut as u32);
    for (k, v) in &evals {
        let _ = writeln!(out, "eval\t{k}\t{v}");
    }
    for (k, v) in &cost {
        let _ = writeln!(out, "cost\t{k}\t{v}");
    }
    for (k, v) in &labels {
        let _ = writeln!(out, "label\t{k}\t{v}");
    }
    for s in &samples {
        let mut s = s.clone();
        if s.len() > 1500 {
            s.truncate(1500);
            s.push_str(" ...");
        }
        let _ = writeln!(out, "sample\t{s}");
    }
    let _ = fs::write(dir.join(format!("out.{stripe}")), out);
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    let _ = fs::write(dir.join(format!("hash.{stripe}")), hb);
    failed as i32
}

// ------------------------------------------------------------------ parent

fn self_cmd() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    if std::env::var_os("TSAN_OPTIONS").is_none() {
        c.env("TSAN_OPTIONS", "halt_on_error=1:report_signal_unsafe=0");
    }
    if std::env::var_os("ASAN_OPTIONS").is_none() {
        c.env(
            "ASAN_OPTIONS",
            "abort_on_error=1:detect_leaks=0:disable_coredump=1:allocator_may_return_null=1:handle_segv=1",
        );
    }
    c
}

#[derive(Debug, PartialEq)]
enum Verdict {
    Pass,
    Fail(String),
    /// out of memory, killed, time: says nothing about the property
    Unknown(String),
}

const CPU: &str = "out of processor time";
const BLOCKED: &str = "waits for ever, without using the processor";

/// whether the message of an `Unknown` verdict is about the case, not the environment
fn away(m: &str) -> bool {
    m == CPU || m == BLOCKED || m == "out of memory"
}

/// How long a process started here has not used the processor. Only time
/// during which this process ran itself counts (a machine may be suspended).
struct Idle {
    ticks: u64,
    seen: Instant,
    idle: Duration,
}

impl Idle {
    fn new() -> Idle {
        Idle { ticks: u64::MAX, seen: Instant::now(), idle: Duration::ZERO }
    }
    fn poll(&mut self, pid: u32) -> Duration {
        let step = self.seen.elapsed().min(Duration::from_millis(200));
        self.seen = Instant::now();
        let text = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
        let f: Vec<&str> = text.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        let ticks = num(11) + num(12);
        if f.first() != Some(&"S") || ticks != self.ticks {
            self.ticks = ticks;
            self.idle = Duration::ZERO;
        } else {
            self.idle += step;
        }
        self.idle
    }
}

fn judge(st: ExitStatus, out: &str, err: &str) -> Verdict {
    if err.contains("memory allocation of") && err.contains("failed") {
        return Verdict::Unknown("out of memory".into());
    }
    if err.contains("AddressSanitizer") && (err.contains("out-of-memory") || err.contains("out of memory")) {
        return Verdict::Unknown("out of memory".into());
    }
    match (st.code(), st.signal()) {
        _ if err.contains("WARNING: ThreadSanitizer: ") => Verdict::Fail(head(err)),
        (Some(0), _) => Verdict::Pass,
        (Some(1), _) => {
            let m = out
                .lines()
                .find_map(|l| l.strip_prefix("FAIL ").or_else(|| l.strip_prefix("WORKER-FAIL ")))
                .unwrap_or("failed");
            Verdict::Fail(m.to_string())
        }
        (_, Some(24)) => Verdict::Unknown(CPU.into()),
        (_, Some(9)) => Verdict::Unknown("killed".into()),
        (Some(c), _) => Verdict::Unknown(format!("exit code {c}: {}", head(err))),
        (_, Some(s)) => Verdict::Fail(format!("crash, signal {s}: {}", head(err))),
        _ => Verdict::Unknown("?".into()),
    }
}

fn head(s: &str) -> String {
    let l: Vec<&str> = s
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with("====="))
        .take(3)
        .collect();
    let mut h = l.join(" | ");
    if let Some(x) = s.lines().find(|l| l.contains("ERROR: AddressSanitizer") || l.contains("WARNING: ThreadSanitizer")) {
        h = x.to_string();
    }
    let mut cut = h.len().min(400);
    while !h.is_char_boundary(cut) {
        cut -= 1;
    }
    h.truncate(cut);
    h
}

/// `Err`: it did not end
fn wait_limit(mut child: Child, limit: Duration) -> Result<ExitStatus, &'static str> {
    let t0 = Instant::now();
    let mut idle = Idle::new();
    let mut nap = 1;
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return Ok(s);
        }
        let blocked = idle.poll(child.id()) > Duration::from_secs(40);
        if blocked || t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Err(if blocked { BLOCKED } else { "no answer in time" });
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    }
}

/// Execute one case in its own process.
fn exec_case<P: Prop>(case: &Case, profile: &str, dir: &Path, slot: usize, limit: u64) -> Verdict {
    let f = dir.join(format!("try.{slot}"));
    if fs::write(&f, case.to_text(P::ID)).is_err() {
        return Verdict::Unknown("cannot write".into());
    }
    let (po, pe) = (dir.join(format!("tryout.{slot}")), dir.join(format!("tryerr.{slot}")));
    let (Ok(fo), Ok(fe)) = (fs::File::create(&po), fs::File::create(&pe)) else {
        return Verdict::Unknown("cannot write".into());
    };
    let child = self_cmd()
        .arg("replay")
        .arg(&f)
        .args(["--profile", profile])
        .args(["--cpu", if slot == 98 { "60" } else { "0" }])
        .stdout(Stdio::from(fo))
        .stderr(Stdio::from(fe))
        .spawn();
    let Ok(child) = child else { return Verdict::Unknown("cannot start".into()) };
    match wait_limit(child, Duration::from_secs(limit)) {
        Err(m) => Verdict::Unknown(m.into()),
        Ok(st) => judge(
            st,
            &fs::read_to_string(&po).unwrap_or_default(),
            &String::from_utf8_lossy(&fs::read(&pe).unwrap_or_default()),
        ),
    }
}

struct Shrinker<'a> {
    profile: &'a str,
    dir: &'a Path,
    deadline: Instant,
    execs: usize,
    msg: String,
}

impl Shrinker<'_> {
    /// first failing candidate, in order
    fn first<P: Prop>(&mut self, cands: &[Case]) -> Option<Case> {
        for batch in cands.chunks(8) {
            if Instant::now() > self.deadline || self.execs > 3000 {
                return None;
            }
            self.execs += batch.len();
            let (profile, dir) = (self.profile, self.dir);
            let vs: Vec<Verdict> = std::thread::scope(|s| {
                let hs: Vec<_> = batch
                    .iter()
                    .enumerate()
                    .map(|(i, c)| s.spawn(move || exec_case::<P>(c, profile, dir, 100 + i, 20)))
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(Verdict::Pass)).collect()
            });
            for (c, v) in batch.iter().zip(vs) {
                if let Verdict::Fail(m) = v {
                    self.msg = m;
                    return Some(c.clone());
                }
            }
        }
        None
    }

    fn shrink<P: Prop>(&mut self, mut c: Case) -> Case {
        loop {
            let before = c.clone();
            // drop runs of operations
            let mut k = c.ops.len().div_ceil(2).max(1);
            loop {
                let mut cands = vec![];
                let mut i = 0;
                while i < c.ops.len() {
                    let mut d = c.clone();
                    d.ops.drain(i..(i + k).min(c.ops.len()));
                    cands.push(d);
                    i += k;
                }
                match self.first::<P>(&cands) {
                    Some(s) => {
                        c = s;
                        k = k.min(c.ops.len().max(1));
                    }
                    None if k > 1 => k = k.div_ceil(2),
                    None => break,
                }
                if c.ops.is_empty() || Instant::now() > self.deadline {
                    break;
                }
            }
            // simplify arguments
            for i in 0..c.ops.len() {
                for field in 0..3 {
                    let mut rounds = 0;
                    loop {
                        rounds += 1;
                        let cur = get(&c.ops[i], field);
                        let mut vals: Vec<i64> = vec![0, 1, cur / 2, cur - cur / 4, cur - cur / 8, cur - 8, cur - 1];
                        vals.retain(|v| *v >= 0 && *v < cur);
                        vals.dedup();
                        let cands: Vec<Case> = vals
                            .iter()
                            .map(|v| {
                                let mut d = c.clone();
                                set(&mut d.ops[i], field, *v);
                                d
                            })
                            .collect();
                        match self.first::<P>(&cands) {
                            Some(s) => c = s,
                            None => break,
                        }
                        if rounds > 40 || Instant::now() > self.deadline {
                            break;
                        }
                    }
                }
            }
            // simplify parameters (0 is the domain, 2 the probe density)
            for i in 0..c.params.len() {
                let cur = c.params[i];
                let vals: Vec<i64> = if i == 2 { vec![0, 256] } else { vec![0, 1, cur / 2] };
                let cands: Vec<Case> = vals
                    .into_iter()
                    .filter(|v| *v >= 0 && *v != cur && (i == 2 && cur != 0 && cur != 256 || *v < cur && i != 2))
                    .map(|v| {
                        let mut d = c.clone();
                        d.params[i] = v;
                        d
                    })
                    .collect();
                if let Some(s) = self.first::<P>(&cands) {
                    c = s;
                }
            }
            if c == before || Instant::now() > self.deadline {
                return c;
            }
        }
    }
}

fn get(o: &Op, f: usize) -> i64 {
    match f {
        0 => o.b,
        1 => o.a,
        _ => o.d,
    }
}
fn set(o: &mut Op, f: usize, v: i64) {
    match f {
        0 => o.b = v,
        1 => o.a = v,
        _ => o.d = v,
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn parent<P: Prop>(args: &Args, tier: Tier, seed: u64, profile: &str) -> i32 {
    let jobs = args.num("jobs", 8).max(1);
    let part = args.get("part", "");
    let replays = PathBuf::from(args.get("replays", "replays"));
    let work = std::env::temp_dir().join(format!("vh-{}-{}-{}", P::ID, profile, std::process::id()));
    let _ = fs::create_dir_all(&work);
    let stages = plan::<P>(args, tier, profile);
    let t0 = Instant::now();
    let mut errors: Vec<String> = vec![];
    let mut failing: Option<(Case, String)> = None;
    let mut corpus_n = 0u64;

    // saved cases first
    if let Some(dir) = args.kv.get("corpus") {
        let mut files: Vec<PathBuf> = fs::read_dir(dir)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        let mut todo: Vec<Case> = vec![];
        for f in files {
            match fs::read_to_string(&f).map_err(|e| e.to_string()).and_then(|t| Case::parse(&t)) {
                Ok((p, c)) if p == P::ID => todo.push(c),
                Ok(_) => {}
                Err(e) => errors.push(format!("corpus {}: {e}", f.display())),
            }
        }
        for batch in todo.chunks(8) {
            corpus_n += batch.len() as u64;
            let w = &work;
            let vs: Vec<Verdict> = std::thread::scope(|s| {
                let hs: Vec<_> = batch
                    .iter()
                    .enumerate()
                    .map(|(i, c)| s.spawn(move || exec_case::<P>(c, profile, w, 200 + i, 120)))
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(Verdict::Pass)).collect()
            });
            for (c, v) in batch.iter().zip(vs) {
                match v {
                    Verdict::Pass => {}
                    Verdict::Fail(m) if failing.is_none() => failing = Some((c.clone(), m)),
                    Verdict::Fail(_) => {}
                    Verdict::Unknown(m) => match exec_case::<P>(c, profile, &work, 98, 400) {
                        Verdict::Pass => {}
                        Verdict::Unknown(m2) if !away(&m2) => {
                            errors.push(format!("saved case: {m}, then {m2}"))
                        }
                        Verdict::Fail(m2) | Verdict::Unknown(m2) => {
                            failing = failing.or(Some((c.clone(), format!("runs away: {m2}, twice"))))
                        }
                    },
                }
            }
            if failing.is_some() {
                break;
            }
        }
    }

    struct W {
        child: Child,
        stripe: u64,
        last: Vec<u8>,
        since: Instant,
        idle: Idle,
    }
    let mut ws: Vec<W> = vec![];
    if failing.is_none() {
        for i in 0..jobs {
            let fo = fs::File::create(work.join(format!("stdout.{i}"))).expect("work dir");
            let fe = fs::File::create(work.join(format!("stderr.{i}"))).expect("work dir");
            let mut c = self_cmd();
            c.arg("worker")
                .args(["--tier", if tier == Tier::Thorough { "thorough" } else { "quick" }])
                .args(["--seed", &seed.to_string()])
                .args(["--profile", profile])
                .args(["--stripe", &i.to_string()])
                .args(["--of", &jobs.to_string()])
                .args(["--scale", &args.get("scale", "1")])
                .args(["--only", &args.get("only", "")])
                .args(["--budget", &args.get("budget", "0")])
                .arg("--dir")
                .arg(&work)
                .stdin(Stdio::null())
                .stdout(Stdio::from(fo))
                .stderr(Stdio::from(fe));
            match c.spawn() {
                Ok(child) => ws.push(W { child, stripe: i, last: vec![], since: Instant::now(), idle: Idle::new() }),
                Err(e) => errors.push(format!("cannot start worker: {e}")),
            }
        }
    }
    let stall = Duration::from_secs(args.num("stall", 90));
    // ended by a limit: a case that runs away, or the environment
    let mut suspects: Vec<(Option<Case>, String, String)> = vec![];
    while !ws.is_empty() && failing.is_none() && suspects.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < ws.len() {
            let w = &mut ws[i];
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    let s = w.stripe;
                    let out = fs::read_to_string(work.join(format!("stdout.{s}"))).unwrap_or_default();
                    let err = String::from_utf8_lossy(&fs::read(work.join(format!("stderr.{s}"))).unwrap_or_default())
                        .to_string();
                    let rec = fs::read(work.join(format!("state.{s}"))).unwrap_or_default();
                    match judge(st, &out, &err) {
                        Verdict::Pass => {}
                        Verdict::Fail(m) => {
                            let saved = fs::read_to_string(work.join(format!("fail.{s}")))
                                .ok()
                                .and_then(|t| Case::parse(&t).ok());
                            let case = saved.map(|x| x.1).or_else(|| at::<P>(&rec, &stages, seed, profile));
                            match case {
                                Some(c) => failing = Some((c, m)),
                                None => errors.push(format!("worker {s}: {m}")),
                            }
                        }
                        Verdict::Unknown(m) => {
                            suspects.push((at::<P>(&rec, &stages, seed, profile), at_name(&rec, &stages), m));
                        }
                    }
                    ws.swap_remove(i);
                }
                _ => {
                    let rec = fs::read(work.join(format!("state.{}", w.stripe))).unwrap_or_default();
                    let blocked = w.idle.poll(w.child.id()) > Duration::from_secs(25);
                    if rec != w.last {
                        w.last = rec;
                        w.since = Instant::now();
                    } else if blocked || w.since.elapsed() > stall {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        suspects.push((
                            at::<P>(&w.last, &stages, seed, profile),
                            at_name(&w.last, &stages),
                            if blocked { BLOCKED } else { "no answer in time" }.into(),
                        ));
                        ws.swap_remove(i);
                        continue;
                    }
                    i += 1;
                }
            }
        }
    }
    for w in &mut ws {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }

    for (case, name, m) in suspects {
        let Some(case) = case else {
            errors.push(format!("worker at {name}: {m}"));
            continue;
        };
        if failing.is_some() {
            break;
        }
        // once more alone, with a limit on processor time: the slowest case takes
        // seconds, and none needs a gigabyte
        match exec_case::<P>(&case, profile, &work, 98, 400) {
            Verdict::Pass => errors.push(format!("worker at {name}: {m} (but passes on its own)")),
            Verdict::Fail(m) => failing = Some((case, m)),
            Verdict::Unknown(m2) if away(&m2) => {
                failing = Some((case, format!("runs away: {m2}, twice")))
            }
            Verdict::Unknown(m2) => errors.push(format!("worker at {name}: {m}, then {m2}")),
        }
    }

    // gather what was covered
    let mut evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut cost: BTreeMap<String, f64> = BTreeMap::new();
    let mut samples = vec![];
    let (mut steps, mut nontrivial, mut cut) = (0u64, 0u64, 0u64);
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    for i in 0..jobs {
        for line in fs::read_to_string(work.join(format!("out.{i}"))).unwrap_or_default().lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f.as_slice() {
                ["steps", n] => steps += n.parse::<u64>().unwrap_or(0),
                ["nontrivial", n] => nontrivial += n.parse::<u64>().unwrap_or(0),
                ["eval", k, n] => *evals.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap_or(0),
                ["cost", k, n] => *cost.entry(k.to_string()).or_default() += n.parse::<f64>().unwrap_or(0.0),
                ["label", k, n] => *labels.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap_or(0),
                ["cut", n] => cut += n.parse::<u64>().unwrap_or(0),
                ["sample", s] => samples.push(s.to_string()),
                _ => {}
            }
        }
        let hb = fs::read(work.join(format!("hash.{i}"))).unwrap_or_default();
        for c in hb.chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }

    let mut violation = String::from("null");
    let mut code = 0;
    if let Some((case, msg)) = failing {
        // make sure it fails on its own, then make it small
        let mut sh = Shrinker {
            profile,
            dir: &work,
            deadline: Instant::now() + Duration::from_secs(args.num("shrink", 60)),
            execs: 0,
            msg: msg.clone(),
        };
        let confirmed = !msg.starts_with("runs away")
            && matches!(exec_case::<P>(&case, profile, &work, 99, 120), Verdict::Fail(_));
        let small = if confirmed { sh.shrink::<P>(case.clone()) } else { case.clone() };
        let fm = if confirmed {
            sh.msg.clone()
        } else if msg.starts_with("runs away") {
            msg
        } else {
            format!("{msg} (seen in a worker, not on its own)")
        };
        let text = format!(
            "# {}\n# found with seed {seed}, build profile {profile}; run: harness binary `replay FILE`\n{}",
            fm.replace('\n', " "),
            small.to_text(P::ID)
        );
        let _ = fs::create_dir_all(&replays);
        let path = replays.join(format!("{}-{}-{:016x}.case", P::ID, profile, small.fingerprint()));
        let _ = fs::write(&path, text);
        println!("failure: {fm}");
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        let _ = std::io::stdout().flush();
        violation = format!("{{\"replay\":{},\"message\":{}}}", json_str(&path.display().to_string()), json_str(&fm));
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {e}");
        }
        code = 2;
    }

    if !part.is_empty() {
        let mut j = String::from("{");
        let _ = write!(j, "\"property\":{},\"profile\":{},\"seed\":{seed},", json_str(P::ID), json_str(profile));
        let total: u64 = evals.values().sum::<u64>() + corpus_n;
        let _ = write!(j, "\"evaluations\":{total},\"saved_cases\":{corpus_n},\"steps\":{steps},\"nontrivial\":{nontrivial},\"workers_cut_short\":{cut},");
        let _ = write!(j, "\"rule\":{},", json_str(P::RULE));
        let join = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")
        };
        let _ = write!(j, "\"stages\":{{{}}},\"labels\":{{{}}},", join(&evals), join(&labels));
        let _ = write!(
            j,
            "\"cost\":{{{}}},",
            cost.iter().map(|(k, v)| format!("{}:{v:.2}", json_str(k))).collect::<Vec<_>>().join(",")
        );
        let _ = write!(
            j,
            "\"samples\":[{}],",
            samples.iter().take(6).map(|s| json_str(s)).collect::<Vec<_>>().join(",")
        );
        let _ = write!(
            j,
            "\"errors\":[{}],",
            errors.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
        );
        let _ = write!(j, "\"violation\":{violation},\"wall_s\":{:.2}", t0.elapsed().as_secs_f64());
        j.push('}');
        let _ = fs::write(&part, j);
        let mut hb = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            hb.extend_from_slice(&h.to_le_bytes());
        }
        let _ = fs::write(format!("{part}.hash"), hb);
    }
    let _ = fs::remove_dir_all(&work);
    code
}

fn at_name(rec: &[u8], stages: &[Stage]) -> String {
    if rec.len() < 16 {
        return "start".into();
    }
    let si = u64::from_le_bytes(rec[..8].try_into().unwrap()) as usize;
    let idx = u64::from_le_bytes(rec[8..16].try_into().unwrap());
    if si == 0 || si > stages.len() {
        return "start".into();
    }
    format!("{} {idx}", stages[si - 1].name)
}

fn at<P: Prop>(rec: &[u8], stages: &[Stage], seed: u64, profile: &str) -> Option<Case> {
    if rec.len() < 16 {
        return None;
    }
    let si = u64::from_le_bytes(rec[..8].try_into().unwrap()) as usize;
    let idx = u64::from_le_bytes(rec[8..16].try_into().unwrap());
    if si == 0 || si > stages.len() {
        return None;
    }
    Some(case_of::<P>(seed, profile, stages[si - 1].name, idx))
}
