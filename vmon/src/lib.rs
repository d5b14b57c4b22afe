//! Run-time monitoring framework shared by all harness crates of /verif.
//!
//! A *property* owns a list of *workloads*; a workload is a function that drives the real library
//! with a generated case while monitors observe it. Every case has its own random stream derived
//! from (VERIF_SEED, property, workload, index), so each one can be replayed alone.
//!
//! The supervisor splits the cases over child processes: a child that dies by a signal, hangs
//! (bounded progress, measured in CPU time of the process), or explodes in memory is re-run for the
//! single case that it was executing before it counts as a violation.

pub mod json;
pub mod rng;
pub use rng::{fnv, mix, Rng};

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type CaseFn = fn(&mut Case);

#[derive(Clone)]
pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub fn w(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Workload {
    Workload { name, quick, thorough, f }
}

#[derive(Clone)]
pub struct Property {
    pub id: &'static str,
    pub workloads: Vec<Workload>,
    /// Events that must have been observed at least this often in a full quick run; otherwise the
    /// run has no answer.
    pub floors: Vec<(&'static str, u64)>,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
    pub workload: String,
    pub index: u64,
    pub trace: Vec<String>,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    monitors: u64,
    counts: BTreeMap<String, u64>,
    prints: HashSet<u64>,
    states: HashSet<u64>,
    samples: Vec<String>,
    per_workload: BTreeMap<String, u64>,
    skipped: u64,
    inconclusive: Vec<String>,
}

/// One running case.
pub struct Case<'a> {
    pub rng: Rng,
    pub thorough: bool,
    pub workload: &'static str,
    pub index: u64,
    stats: &'a mut Stats,
    known: &'a BTreeSet<String>,
    phase: String,
    trace: Vec<String>,
    trace_dropped: u64,
    print: u64,
    nontrivial: bool,
    pub verbose: bool,
    failures: Vec<Failure>,
    sample: Option<String>,
}

struct Stop;

impl<'a> Case<'a> {
    /// The monitor: an observation that must hold. Stops the case if it does not
    /// (unless it is a recorded finding).
    #[inline]
    pub fn check(&mut self, cond: bool, sig: &str, msg: impl FnOnce() -> String) {
        self.stats.monitors += 1;
        if !cond {
            self.fail(sig, msg());
        }
    }
    pub fn fail(&mut self, sig: &str, msg: String) {
        let known = self.known.contains(sig);
        if !known || !self.failures.iter().any(|f| f.sig == sig) {
            self.failures.push(Failure {
                sig: sig.to_string(),
                msg,
                workload: self.workload.to_string(),
                index: self.index,
                trace: self.trace_vec(),
            });
        }
        if !known {
            std::panic::resume_unwind(Box::new(Stop));
        }
    }
    /// This case has no verdict (a tool that was to judge it did not answer).
    pub fn inconclusive(&mut self, msg: String) {
        self.stats.inconclusive.push(format!("{}#{}: {}", self.workload, self.index, msg.replace('\n', " ")));
    }
    /// Whether this case already failed (use after `expect_panic` to pass the failure on).
    pub fn failed(&self) -> bool {
        self.failures.iter().any(|f| !self.known.contains(&f.sig))
    }
    pub fn stop(&self) -> ! {
        std::panic::resume_unwind(Box::new(Stop))
    }
    fn trace_vec(&self) -> Vec<String> {
        let mut t = self.trace.clone();
        if self.trace_dropped > 0 {
            t.insert(0, format!("({} earlier trace lines dropped)", self.trace_dropped));
        }
        t
    }
    /// What the case is doing at the moment; panics are reported with it.
    pub fn phase(&mut self, p: impl Into<String>) {
        self.phase = p.into();
    }
    /// One line of the recorded history of this case.
    pub fn log(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.verbose {
            eprintln!("  {s}");
        }
        self.print = mix(self.print, fnv(s.as_bytes()));
        if self.trace.len() > 600 {
            self.trace.drain(0..300);
            self.trace_dropped += 300;
        }
        self.trace.push(s);
    }
    /// An observed event.
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.stats.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.stats.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.stats.counts.entry(format!("max:{k}")).or_insert(0);
        *v = (*v).max(n);
    }
    /// A distinct state that was seen by the monitors.
    pub fn state(&mut self, h: u64) {
        if self.stats.states.len() < 4_000_000 {
            self.stats.states.insert(h);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn fingerprint(&mut self, h: u64) {
        self.print = mix(self.print, h);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.sample.is_none() && self.stats.samples.len() < 3 {
            self.sample = Some(s());
        }
    }
    /// Runs something which is documented to panic or return an error for this input; returns
    /// `None` if it panicked.
    pub fn expect_panic<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        catch_unwind(AssertUnwindSafe(f)).ok()
    }
    /// Like `expect_panic` for code that uses monitors itself; failures of monitors are passed on.
    pub fn may_panic<R>(&mut self, f: impl FnOnce(&mut Case) -> R) -> Result<R, String> {
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        match r {
            Ok(r) => Ok(r),
            Err(e) if e.is::<Stop>() => std::panic::resume_unwind(e),
            Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).map(|x| format!("{} at {}", x.0, x.1)).unwrap_or_default()),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

fn case_seed(seed: u64, prop: &str, workload: &str, idx: u64) -> u64 {
    mix(mix(mix(seed, fnv(prop.as_bytes())), fnv(workload.as_bytes())), idx)
}

fn run_case(p: &Property, wl: &Workload, idx: u64, seed: u64, thorough: bool, stats: &mut Stats, known: &BTreeSet<String>, verbose: bool) -> Vec<Failure> {
    let mut c = Case {
        rng: Rng::new(case_seed(seed, p.id, wl.name, idx)),
        thorough,
        workload: wl.name,
        index: idx,
        stats,
        known,
        phase: "start".into(),
        trace: vec![],
        trace_dropped: 0,
        print: 0,
        nontrivial: false,
        verbose,
        failures: vec![],
        sample: None,
    };
    c.stats.evaluations += 1;
    *c.stats.per_workload.entry(wl.name.to_string()).or_insert(0) += 1;
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (wl.f)(&mut c)));
    let mut ok = true;
    if let Err(e) = r {
        ok = false;
        if !e.is::<Stop>() {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let sig = format!("panic:{}:{}", wl.name, c.phase);
            let f = Failure {
                sig,
                msg: format!("panicked during `{}`: {} at {}", c.phase, msg, loc),
                workload: wl.name.into(),
                index: idx,
                trace: c.trace_vec(),
            };
            c.failures.push(f);
        }
    }
    if ok && c.nontrivial {
        let fp = mix(c.print, fnv(wl.name.as_bytes()));
        if c.stats.prints.len() < 4_000_000 {
            c.stats.prints.insert(fp);
        }
        let s = c.sample.take().unwrap_or_else(|| c.trace.iter().take(12).cloned().collect::<Vec<_>>().join("; "));
        if c.stats.samples.len() < 3 && !s.is_empty() {
            let mut s = format!("{}#{}: {}", wl.name, idx, s);
            if s.len() > 1200 {
                let mut n = 1200;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            c.stats.samples.push(s);
        }
    }
    c.failures
}

// ---------------------------------------------------------------------------------------------

fn cpu_seconds() -> f64 {
    let Ok(s) = std::fs::read_to_string("/proc/self/stat") else { return 0.0 };
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

fn rss_mb() -> u64 {
    let Ok(s) = std::fs::read_to_string("/proc/self/statm") else { return 0 };
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 / (1 << 20)
}

/// CPU seconds that one case may take. The slowest case on the unchanged tree needs well under a second.
fn case_cpu_limit() -> f64 {
    std::env::var("VMON_CASE_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(25.0)
}
const RSS_LIMIT_MB: u64 = 3000;
pub const EXIT_RUNAWAY: i32 = 97;

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut start = cpu_seconds();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let p = PROGRESS.load(Ordering::Relaxed);
            let now = cpu_seconds();
            if p != last {
                last = p;
                start = now;
            }
            if now - start > case_cpu_limit() {
                eprintln!("RUNAWAY cpu {:.1}s", now - start);
                unsafe_exit(EXIT_RUNAWAY);
            }
            if rss_mb() > RSS_LIMIT_MB {
                eprintln!("RUNAWAY memory {} MB", rss_mb());
                unsafe_exit(EXIT_RUNAWAY);
            }
        }
    });
}

fn unsafe_exit(code: i32) {
    std::process::exit(code)
}

// ---------------------------------------------------------------------------------------------

/// The known findings of one property: signature -> text.
fn known_findings(id: &str) -> BTreeMap<String, String> {
    let mut res = BTreeMap::new();
    let path = std::env::var("VMON_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
    let Ok(s) = std::fs::read_to_string(path) else { return res };
    for l in s.lines() {
        let Some(r) = l.strip_prefix("KNOWN-FINDING: ") else { continue };
        let Some(r) = r.strip_prefix(&format!("property={id} ")) else { continue };
        let Some(r) = r.strip_prefix("sig=") else { continue };
        let Some((sig, text)) = r.split_once(" :: ") else { continue };
        res.insert(sig.trim().to_string(), text.trim().to_string());
    }
    res
}

fn hexenc(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn hexdec(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect();
    String::from_utf8_lossy(&b).into_owned()
}

/// A child stops after so many failures.
fn max_failures() -> u64 {
    std::env::var("VMON_MAXFAIL").ok().and_then(|s| s.parse().ok()).unwrap_or(20)
}

fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn counts(p: &Property, thorough: bool) -> Vec<u64> {
    let scale: f64 = std::env::var("VMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    p.workloads.iter().map(|w| (((if thorough { w.thorough } else { w.quick }) as f64) * scale).ceil() as u64).collect()
}

fn child(p: &Property, thorough: bool, shard: u64, shards: u64, dir: &Path, resume: (usize, u64), deadline_s: u64) -> i32 {
    install_hook();
    watchdog();
    let seed = seed_env();
    let known: BTreeSet<String> = known_findings(p.id).into_keys().collect();
    let marker = std::fs::File::create(dir.join(format!("marker-{shard}"))).expect("marker");
    let mut stats = Stats::default();
    let mut failures: Vec<Failure> = vec![];
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let start = Instant::now();
    let mut stop = false;
    use std::os::unix::fs::FileExt;
    let all = counts(p, thorough);
    // interleave the workloads so that a deadline cuts all of them evenly
    let rounds = 64u64;
    'outer: for round in 0..rounds {
        for (wi, wl) in p.workloads.iter().enumerate() {
            let n = all[wi];
            let (a, b) = (n * round / rounds, n * (round + 1) / rounds);
            let mut i = a + (shard + shards - a % shards) % shards;
            while i < b {
                if stop {
                    stats.skipped += 1;
                    i += shards;
                    continue;
                }
                let pos = (round as usize * p.workloads.len() + wi, i);
                if pos <= resume && resume != (0, u64::MAX) {
                    i += shards;
                    continue;
                }
                let _ = marker.write_all_at(format!("{:<6} {:<12} {:<20} {:<10}\n", wi, i, pos.0, 0).as_bytes(), 0);
                PROGRESS.fetch_add(1, Ordering::Relaxed);
                let fs = run_case(p, wl, i, seed, thorough, &mut stats, &known, false);
                for f in fs {
                    let n = seen.entry(f.sig.clone()).or_insert(0);
                    *n += 1;
                    if *n <= 2 {
                        failures.push(f);
                    }
                }
                if seen.iter().filter(|(k, _)| !known.contains(*k)).map(|(_, n)| *n).sum::<u64>() >= max_failures() {
                    break 'outer;
                }
                if start.elapsed().as_secs() > deadline_s {
                    stop = true;
                }
                i += shards;
            }
        }
    }
    let mut out = String::new();
    out += &format!("E {} {} {}\n", stats.evaluations, stats.monitors, stats.skipped);
    for (k, v) in &stats.counts {
        out += &format!("C {} {}\n", v, k);
    }
    for (k, v) in &stats.per_workload {
        out += &format!("W {} {}\n", v, k);
    }
    for s in &stats.samples {
        out += &format!("S {}\n", hexenc(s));
    }
    for s in &stats.inconclusive {
        out += &format!("I {}\n", hexenc(s));
    }
    for f in &failures {
        out += &format!("F {} {} {} {} {}\n", hexenc(&f.workload), f.index, hexenc(&f.sig), hexenc(&f.msg), hexenc(&f.trace.join("\n")));
    }
    let mut bin: Vec<u8> = vec![];
    for (set, tag) in [(&stats.prints, 0u8), (&stats.states, 1u8)] {
        for x in set {
            bin.push(tag);
            bin.extend(x.to_le_bytes());
        }
    }
    let suffix = format!("{shard}-{}-{}", resume.0, resume.1);
    std::fs::write(dir.join(format!("prints-{suffix}")), bin).expect("write");
    std::fs::write(dir.join(format!("out-{suffix}")), out).expect("write");
    0
}

fn parse_marker(dir: &Path, shard: u64) -> Option<(usize, u64, usize)> {
    let s = std::fs::read_to_string(dir.join(format!("marker-{shard}"))).ok()?;
    let v: Vec<&str> = s.split_whitespace().collect();
    Some((v.first()?.parse().ok()?, v.get(1)?.parse().ok()?, v.get(2)?.parse().ok()?))
}

struct Run {
    stats: Stats,
    failures: Vec<Failure>,
    errors: Vec<String>,
    wall: f64,
    crashes: u64,
}

fn supervise(p: &Property, tier: &str, limit_s: u64) -> Run {
    let shards: u64 = std::env::var("VMON_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let exe = std::env::current_exe().expect("exe");
    let base = std::env::var("VMON_TMP").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let dir = base.join(format!("vmon-{}-{}-{}", p.id, tier, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let start = Instant::now();
    let mut run = Run { stats: Stats::default(), failures: vec![], errors: vec![], wall: 0.0, crashes: 0 };
    let soft = limit_s * 7 / 10;
    let spawn = |shard: u64, resume: (usize, u64), deadline: u64| {
        Command::new(&exe)
            .args(["child", p.id, tier, &shard.to_string(), &shards.to_string(), dir.to_str().unwrap(), &resume.0.to_string(), &resume.1.to_string(), &deadline.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(dir.join(format!("err-{shard}"))).map(Stdio::from).unwrap_or(Stdio::null()))
            .spawn()
    };
    let mut kids = vec![];
    for s in 0..shards {
        match spawn(s, (0, u64::MAX), soft) {
            Ok(k) => kids.push((s, k, 0u32)),
            Err(e) => run.errors.push(format!("spawn: {e}")),
        }
    }
    while !kids.is_empty() {
        let mut i = 0;
        while i < kids.len() {
            let (shard, kid, restarts) = &mut kids[i];
            match kid.try_wait() {
                Ok(None) => {
                    if start.elapsed().as_secs() > limit_s {
                        let _ = kid.kill();
                        let _ = kid.wait();
                        run.errors.push(format!("shard {shard}: wall-clock limit of {limit_s} s reached (no verdict)"));
                        kids.remove(i);
                        continue;
                    }
                    i += 1;
                }
                Ok(Some(st)) if st.success() => {
                    kids.remove(i);
                }
                Ok(Some(st)) => {
                    use std::os::unix::process::ExitStatusExt;
                    run.crashes += 1;
                    let shard = *shard;
                    let restarts = *restarts;
                    let err = std::fs::read_to_string(dir.join(format!("err-{shard}"))).unwrap_or_default();
                    let what = if st.code() == Some(EXIT_RUNAWAY) {
                        format!("runaway: no bounded progress ({})", err.lines().last().unwrap_or(""))
                    } else if let Some(sig) = st.signal() {
                        format!("killed by signal {sig}")
                    } else {
                        format!("exit status {:?}", st.code())
                    };
                    kids.remove(i);
                    if run.failures.len() >= 2 {
                        // enough is confirmed: the other shards need not be repeated one by one
                        continue;
                    }
                    match parse_marker(&dir, shard) {
                        Some((wi, idx, pos)) if wi < p.workloads.len() => {
                            // confirm with the single case
                            let c = Command::new(&exe)
                                .args(["single", p.id, tier, p.workloads[wi].name, &idx.to_string()])
                                .stdin(Stdio::null())
                                .stdout(Stdio::null())
                                .stderr(Stdio::piped())
                                .output();
                            match c {
                                Ok(o) if !o.status.success() && (o.status.signal().is_some_and(|s| s != 9 && s != 15) || o.status.code() == Some(EXIT_RUNAWAY) || o.status.code() == Some(134)) => {
                                    let e2 = String::from_utf8_lossy(&o.stderr).to_string();
                                    let kind = if o.status.code() == Some(EXIT_RUNAWAY) { "runaway" } else { "crash" };
                                    run.failures.push(Failure {
                                        sig: format!("{kind}:{}", p.workloads[wi].name),
                                        msg: format!("the process did not survive this case: {what}; {}", e2.lines().rev().take(12).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ")),
                                        workload: p.workloads[wi].name.into(),
                                        index: idx,
                                        trace: e2.lines().map(|s| s.to_string()).take(400).collect(),
                                    });
                                }
                                Ok(o) => run.errors.push(format!("shard {shard} ended ({what}) in {}#{idx} but the case alone ends with {:?}", p.workloads[wi].name, o.status)),
                                Err(e) => run.errors.push(format!("confirm: {e}")),
                            }
                            if restarts < 2 && run.failures.len() < 2 {
                                let left = soft.saturating_sub(start.elapsed().as_secs());
                                if let Ok(k) = spawn(shard, (pos, idx), left) {
                                    kids.push((shard, k, restarts + 1));
                                }
                            }
                        }
                        _ => run.errors.push(format!("shard {shard} ended before its first case: {what}; {}", err.lines().last().unwrap_or(""))),
                    }
                }
                Err(e) => {
                    run.errors.push(format!("wait: {e}"));
                    kids.remove(i);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    // collect
    if let Ok(rd) = std::fs::read_dir(&dir) {
        let mut names: Vec<PathBuf> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
        names.sort();
        for path in names {
            let name = path.file_name().unwrap().to_string_lossy().to_string();
            if name.starts_with("prints-") {
                let b = std::fs::read(&path).unwrap_or_default();
                for ch in b.chunks_exact(9) {
                    let x = u64::from_le_bytes(ch[1..9].try_into().unwrap());
                    if ch[0] == 0 {
                        run.stats.prints.insert(x);
                    } else {
                        run.stats.states.insert(x);
                    }
                }
            } else if name.starts_with("out-") {
                for l in std::fs::read_to_string(&path).unwrap_or_default().lines() {
                    let v: Vec<&str> = l.splitn(2, ' ').collect();
                    if v.len() < 2 {
                        continue;
                    }
                    match v[0] {
                        "E" => {
                            let n: Vec<u64> = v[1].split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                            run.stats.evaluations += n[0];
                            run.stats.monitors += n[1];
                            run.stats.skipped += n[2];
                        }
                        "C" | "W" => {
                            if let Some((n, k)) = v[1].split_once(' ') {
                                let n: u64 = n.parse().unwrap_or(0);
                                let m = if v[0] == "C" { &mut run.stats.counts } else { &mut run.stats.per_workload };
                                let e = m.entry(k.to_string()).or_insert(0);
                                if k.starts_with("max:") {
                                    *e = (*e).max(n);
                                } else {
                                    *e += n;
                                }
                            }
                        }
                        "I" => run.errors.push(hexdec(v[1])),
                        "S" => run.stats.samples.push(hexdec(v[1])),
                        "F" => {
                            let f: Vec<&str> = v[1].split(' ').collect();
                            if f.len() >= 4 {
                                run.failures.push(Failure {
                                    workload: hexdec(f[0]),
                                    index: f[1].parse().unwrap_or(0),
                                    sig: hexdec(f[2]),
                                    msg: hexdec(f[3]),
                                    trace: f.get(4).map(|t| hexdec(t).lines().map(|s| s.to_string()).collect()).unwrap_or_default(),
                                });
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // one sample per workload first
    let mut seen = BTreeSet::new();
    let (mut a, mut b) = (vec![], vec![]);
    for s in std::mem::take(&mut run.stats.samples) {
        let key = s.split('#').next().unwrap_or("").to_string();
        if seen.insert(key) {
            a.push(s);
        } else {
            b.push(s);
        }
    }
    a.extend(b);
    a.truncate(6);
    run.stats.samples = a;
    run.wall = start.elapsed().as_secs_f64();
    run
}

fn evidence_dir() -> PathBuf {
    let d = PathBuf::from(std::env::var("VMON_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into()));
    let _ = std::fs::create_dir_all(d.join("replay"));
    d
}

fn check(p: &Property, tier: &str) -> i32 {
    let thorough = tier == "thorough";
    let limit: u64 = std::env::var("VMON_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 840 } else { 420 });
    let run = supervise(p, tier, limit);
    let known = known_findings(p.id);
    let ev = evidence_dir();
    let mut by_sig: BTreeMap<String, Vec<&Failure>> = BTreeMap::new();
    for f in &run.failures {
        by_sig.entry(f.sig.clone()).or_default().push(f);
    }
    let mut violations = 0;
    let mut lines = vec![];
    for (sig, fs) in &by_sig {
        if let Some(text) = known.get(sig) {
            lines.push(format!("KNOWN-FINDING: property={} {}", p.id, text));
            continue;
        }
        violations += 1;
        let f = fs.iter().min_by_key(|f| f.trace.len()).unwrap();
        let path = ev.join("replay").join(format!("{}-{}-{:08x}.txt", p.id, tier, fnv(sig.as_bytes()) as u32));
        let body = format!(
            "property {}\nsignature {}\nworkload {} index {} seed {} tier {}\nreplay: VERIF_SEED={} /verif/run.sh {} replay {} {}\n\n{}\n\nrecorded history:\n{}\n",
            p.id, sig, f.workload, f.index, seed_env(), tier, seed_env(), p.id, f.workload, f.index, f.msg, f.trace.join("\n")
        );
        let _ = std::fs::write(&path, body);
        let rel = path.strip_prefix("/verif").map(|x| x.to_path_buf()).unwrap_or(path.clone());
        println!("{}: {} [{}#{}] {}", p.id, sig, f.workload, f.index, f.msg.lines().next().unwrap_or(""));
        lines.push(format!("VIOLATION property={} replay={}", p.id, rel.display()));
    }
    // known findings that were not observed on this run (e.g. because their workload was cut) are not printed
    let mut floor_errors = vec![];
    if violations == 0 && run.stats.skipped == 0 {
        for (k, n) in &p.floors {
            let have = run.stats.counts.get(*k).copied().unwrap_or(0);
            let scale: f64 = std::env::var("VMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            if scale >= 1.0 && have < *n {
                floor_errors.push(format!("observed only {have} of at least {n} expected events `{k}`"));
            }
        }
    }
    if run.stats.prints.is_empty() && violations == 0 {
        floor_errors.push("no non-trivial case was observed".into());
    }
    let q = json::esc;
    let mut s = String::from("{\n");
    s += &format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", q(p.id), q(tier), seed_env());
    s += "  \"coverage\": {\n";
    s += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", run.stats.evaluations, run.stats.prints.len());
    s += &format!("    \"rule\": {},\n", q(p.rule));
    s += &format!("    \"monitor_evaluations\": {},\n    \"distinct_states\": {},\n", run.stats.monitors, run.stats.states.len());
    s += &format!("    \"cases_skipped_by_deadline\": {},\n    \"process_crashes\": {},\n", run.stats.skipped, run.crashes);
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", ");
    s += &format!("    \"cases_per_workload\": {{{}}},\n", map(&run.stats.per_workload));
    s += &format!("    \"observed_events\": {{{}}},\n", map(&run.stats.counts));
    s += &format!("    \"samples\": [{}]\n  }},\n", run.stats.samples.iter().map(|x| q(x)).collect::<Vec<_>>().join(", "));
    s += &format!("  \"assumptions\": [{}],\n", p.assumptions.iter().map(|x| q(x)).collect::<Vec<_>>().join(", "));
    s += &format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", run.wall, violations);
    if let Err(e) = std::fs::write(ev.join(format!("{}.json", p.id)), s) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    for e in run.errors.iter().chain(floor_errors.iter()) {
        eprintln!("{}: inconclusive: {}", p.id, e);
    }
    for l in &lines {
        println!("{l}");
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} monitor evaluations, {} states, {} violations, {:.1} s{}",
        p.id, tier, run.stats.evaluations, run.stats.prints.len(), run.stats.monitors, run.stats.states.len(), violations, run.wall,
        if run.stats.skipped > 0 { format!(" ({} cases cut by the time limit)", run.stats.skipped) } else { String::new() }
    );
    let _ = std::io::stdout().flush();
    if violations > 0 {
        1
    } else if !run.errors.is_empty() || !floor_errors.is_empty() {
        2
    } else {
        0
    }
}

/// Runs cases in this process without any supervision, for sanitizers and interpreters.
/// Arguments: ID workload first count [tier]. What the monitors of the property say is only printed.
pub fn range(props: Vec<Property>) {
    let a: Vec<String> = std::env::args().collect();
    let (Some(id), Some(wl), Some(first), Some(count)) = (a.get(1), a.get(2), a.get(3).and_then(|s| s.parse::<u64>().ok()), a.get(4).and_then(|s| s.parse::<u64>().ok())) else {
        println!("usage: ID workload first count [tier]");
        return;
    };
    let Some((p, w)) = props.iter().find(|p| p.id == id).and_then(|p| p.workloads.iter().find(|w| w.name == wl).map(|w| (p, w))) else {
        println!("unknown workload {id} {wl}");
        return;
    };
    install_hook();
    let seed = seed_env();
    let mut st = Stats::default();
    let known: BTreeSet<String> = known_findings(p.id).into_keys().collect();
    let mut notes = 0;
    for i in first..first + count {
        // the last one of these lines tells where an abort happened
        println!("CASE {i}");
        for f in run_case(p, w, i, seed, a.get(5).is_some_and(|t| t == "thorough"), &mut st, &known, false) {
            if known.contains(&f.sig) {
                continue;
            }
            notes += 1;
            println!("NOTE {} {}", f.sig, f.msg.lines().next().unwrap_or(""));
        }
    }
    println!("DONE cases={} monitors={} states={} notes={notes}", st.evaluations, st.monitors, st.states.len());
}

pub fn main(props: Vec<Property>) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: check <ID> quick|thorough | replay <ID> <workload> <index> [tier] | list | all <tier>");
        std::process::exit(2)
    };
    let find = |id: &str| -> Property {
        match props.iter().find(|p| p.id == id) {
            Some(p) => p.clone(),
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            }
        }
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {}", p.id, p.workloads.iter().map(|w| format!("{}({}/{})", w.name, w.quick, w.thorough)).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some("check") if a.len() >= 4 => check(&find(&a[2]), &a[3]),
        Some("all") if a.len() >= 3 => {
            let mut worst = 0;
            for p in &props {
                worst = worst.max(check(p, &a[2]));
            }
            worst
        }
        Some("child") if a.len() >= 10 => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            child(&find(&a[2]), a[3] == "thorough", n(4), n(5), Path::new(&a[6]), (n(7) as usize, n(8)), n(9))
        }
        Some(mode @ ("single" | "replay")) => {
            let (id, tier, wl, idx) = if mode == "single" {
                if a.len() < 6 { usage() }
                (&a[2], a[3].clone(), &a[4], &a[5])
            } else {
                if a.len() < 5 { usage() }
                (&a[2], a.get(5).cloned().unwrap_or("quick".into()), &a[3], &a[4])
            };
            let p = find(id);
            let Some(wl) = p.workloads.iter().find(|w| w.name == wl).cloned() else { usage() };
            let idx: u64 = idx.parse().unwrap_or_else(|_| usage());
            install_hook();
            watchdog();
            let known: BTreeSet<String> = known_findings(p.id).into_keys().collect();
            let mut st = Stats::default();
            let fs = run_case(&p, &wl, idx, seed_env(), tier == "thorough", &mut st, &known, mode == "replay" || std::env::var("VMON_TRACE").is_ok());
            for f in &fs {
                println!("{} {}: {}", p.id, f.sig, f.msg);
            }
            let bad = fs.iter().any(|f| !known.contains(&f.sig));
            if mode == "replay" {
                if bad {
                    println!("VIOLATION property={} replay=(this case)", p.id);
                    1
                } else {
                    println!("{}: no violation; {} monitor evaluations", p.id, st.monitors);
                    0
                }
            } else {
                0
            }
        }
        _ => usage(),
    };
    std::process::exit(code)
}
