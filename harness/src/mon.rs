//! Monitoring framework.
//!
//! A property is decided by a set of *streams*. A stream is a numbered family of
//! executions; execution `idx` of a stream is fully determined by (seed, stream, idx),
//! so every reported violation can be replayed alone. Monitors run inside the
//! execution, right after each call into the library, and record:
//!  - `check`  : one oracle evaluation (violated / held)
//!  - `cell`   : an observed event class (branch of the specification, configuration...)
//!  - `metric` : largest observed error of a quantity
//!  - `nontrivial`: the hash of the inputs of an execution that exercised the property
//! Panics inside the library are caught and given to the monitor; a watchdog measures
//! the CPU time of each worker *thread* (not wall time) and turns an execution that
//! burns more than CPU_LIMIT seconds (normal: well under 10 ms) into a
//! non-termination verdict.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const CPU_LIMIT: f64 = 20.0;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
#[cfg(not(miri))]
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clockid: *mut i32) -> i32;
    fn clock_gettime(clockid: i32, tp: *mut Timespec) -> i32;
}

#[cfg(miri)]
fn my_clock() -> i32 {
    i32::MIN
}
#[cfg(miri)]
fn cpu_of(_: i32) -> Option<f64> {
    None
}
#[cfg(not(miri))]
fn my_clock() -> i32 {
    let mut id = 0i32;
    let r = unsafe { pthread_getcpuclockid(pthread_self(), &mut id) };
    if r == 0 {
        id
    } else {
        i32::MIN
    }
}

#[cfg(not(miri))]
fn cpu_of(clock: i32) -> Option<f64> {
    if clock == i32::MIN {
        return None;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    if unsafe { clock_gettime(clock, &mut t) } == 0 {
        Some(t.sec as f64 + t.nsec as f64 * 1e-9)
    } else {
        None
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static CATCHING: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let catching = CATCHING.with(|c| *c.borrow());
        if catching {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            PANIC_MSG.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
        } else {
            default(info);
        }
    }));
}

/// Runs a call into the library, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = CATCHING.with(|c| std::mem::replace(&mut *c.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() = prev);
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

#[cfg(not(miri))]
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// Runs a call that prints to the standard output, without its output.
#[cfg(not(miri))]
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    use std::io::Write;
    static ONE: Mutex<()> = Mutex::new(());
    let _l = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let _ = std::io::stdout().flush();
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    let saved = unsafe { dup(1) };
    assert!(saved >= 0, "cannot redirect the standard output");
    unsafe { dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 1) };
    let r = f();
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(saved, 1);
        close(saved);
    }
    r
}
#[cfg(miri)]
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    f()
}

#[derive(Clone)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub stream: String,
    pub idx: u64,
}

#[derive(Default)]
pub struct Rec {
    pub execs: u64,
    pub evals: u64,
    pub cells: HashMap<&'static str, u64>,
    pub metrics: HashMap<&'static str, (f64, String, u64)>,
    pub hashes: Vec<u64>,
    pub samples: Vec<String>,
    pub viol: Vec<Violation>,
    pub viol_count: HashMap<String, u64>,
    /// failures of the harness itself
    pub broken: Vec<String>,
}

impl Rec {
    fn merge(&mut self, o: Rec) {
        self.execs += o.execs;
        self.evals += o.evals;
        for (k, v) in o.cells {
            *self.cells.entry(k).or_default() += v;
        }
        for (k, v) in o.metrics {
            let e = self.metrics.entry(k).or_insert((f64::NEG_INFINITY, String::new(), 0));
            if v.0 > e.0 || (v.0.is_nan() && !e.0.is_nan()) {
                *e = v;
            }
        }
        self.hashes.extend(o.hashes);
        self.samples.extend(o.samples);
        self.broken.extend(o.broken.into_iter().take(3));
        for v in o.viol {
            if self.viol.iter().filter(|w| w.key == v.key).count() < 3 {
                self.viol.push(v);
            }
        }
        for (k, v) in o.viol_count {
            *self.viol_count.entry(k).or_default() += v;
        }
    }
}

/// One execution under observation.
pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub stream: &'static str,
    pub rec: &'a mut Rec,
    hash: u64,
}

impl<'a> Case<'a> {
    pub fn cell(&mut self, name: &'static str) {
        *self.rec.cells.entry(name).or_default() += 1;
    }
    /// Fold a value into the identity of this execution.
    pub fn h(&mut self, v: f64) {
        self.hash = mix(self.hash, v.to_bits());
    }
    pub fn hs(&mut self, vs: &[f64]) {
        for v in vs {
            self.h(*v);
        }
    }
    pub fn hu(&mut self, v: u64) {
        self.hash = mix(self.hash, v);
    }
    /// This execution exercised the property in a non-trivial way.
    pub fn nontrivial(&mut self) {
        let h = self.hash;
        self.rec.hashes.push(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 2 || (self.idx == 1000) {
            let s = format!("[{} #{}] {}", self.stream, self.idx, f());
            self.rec.samples.push(s);
        }
    }
    pub fn metric(&mut self, name: &'static str, v: f64) {
        let e = self
            .rec
            .metrics
            .entry(name)
            .or_insert((f64::NEG_INFINITY, String::new(), 0));
        if v > e.0 || (v.is_nan() && !e.0.is_nan()) {
            *e = (v, self.stream.to_string(), self.idx);
        }
    }
    /// One oracle evaluation. `ok == false` is a violation.
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        self.rec.evals += 1;
        if !ok {
            self.violate(key, msg());
        }
        ok
    }
    /// err <= tol (false for NaN).
    pub fn within(&mut self, err: f64, tol: f64, key: &'static str, msg: impl FnOnce() -> String) -> bool {
        self.metric(key, if err == 0. { 0. } else { err / tol });
        self.check(err <= tol, key, || {
            format!("{} (error {:e} > tolerance {:e})", msg(), err, tol)
        })
    }
    pub fn violate(&mut self, key: &str, msg: String) {
        *self.rec.viol_count.entry(key.to_string()).or_default() += 1;
        if self.rec.viol.iter().filter(|v| v.key == key).count() < 3 {
            self.rec.viol.push(Violation {
                key: key.to_string(),
                msg,
                stream: self.stream.to_string(),
                idx: self.idx,
            });
        }
    }
    /// Calls the library; a panic is a violation with the given key.
    pub fn call<T>(&mut self, key: &'static str, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        self.rec.evals += 1;
        match guard(f) {
            Ok(v) => Some(v),
            Err(m) => {
                let w = what();
                self.violate(key, format!("{w}: panicked: {m}"));
                None
            }
        }
    }
}

pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case),
}

impl Stream {
    /// Executions of this stream. `quick` is in units of ten executions, but for exhaustive and for costly streams.
    fn count(&self, thorough: bool) -> u64 {
        match (thorough, self.quick) {
            (true, _) => self.thorough,
            (false, q @ 0..=999) => q,
            (false, q) => (q * 10).min(self.thorough),
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// cells that must be observed at least once for the run to be conclusive
    pub must_see: &'static [&'static str],
    pub streams: Vec<Stream>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn case_rng(seed: u64, stream: &str, idx: u64) -> (Rng, u64) {
    let h = mix(mix(hash_str(stream), seed), idx);
    (Rng::new(h), mix(hash_str(stream), 0))
}

fn run_one(p_stream: &Stream, seed: u64, thorough: bool, idx: u64, rec: &mut Rec) {
    let (rng, hash) = case_rng(seed, p_stream.name, idx);
    rec.execs += 1;
    let mut c = Case {
        rng,
        idx,
        seed,
        thorough,
        stream: p_stream.name,
        rec,
        hash,
    };
    let r = guard(|| (p_stream.f)(&mut c));
    if let Err(m) = r {
        // a panic that no monitor expected: the library's, while preparing the workload, or ours
        if m.contains("geokit/src/") {
            c.violate("panic-in-library", format!("panicked: {m}"));
        } else {
            c.rec.broken.push(format!("{} #{idx}: {m}", p_stream.name));
        }
    }
}

/// A case outside of any stream, for workloads built from a seed.
pub fn scratch<T>(seed: u64, f: impl FnOnce(&mut Case) -> T) -> T {
    let mut rec = Rec::default();
    let mut c = Case { rng: Rng::new(seed), idx: u64::MAX, seed, thorough: false, stream: "scratch", rec: &mut rec, hash: 0 };
    f(&mut c)
}

/// The executions of every property, for the memory and race checkers that watch this
/// process from outside: verdicts of the behavioural monitors are not looked at here.
pub fn soak(props: &[Property], n: u64, seed: u64, threads: usize, only: &str, part: usize, parts: usize) -> i32 {
    let mut jobs: Vec<Vec<(&'static str, &Stream)>> = vec![vec![]; parts];
    let mut i = 0;
    for p in props {
        for s in &p.streams {
            let key = format!("{}/{}", p.id, s.name);
            // other programs, and stubs of the library that only panic
            if key == "C30/process" || key.starts_with("C32/") || s.name == "approximation" || s.name == "karney-inverse" {
                continue;
            }
            if only != "-" && !only.split(',').any(|o| o == key) {
                continue;
            }
            jobs[i % parts].push((p.id, s));
            i += 1;
        }
    }
    let mine = &jobs[part];
    let mut total = Rec::default();
    let mut names = vec![];
    for (id, s) in mine {
        names.push(format!("{id}/{}", s.name));
        let n = if s.name == "hammer" { n.min(60) } else if s.name == "threads" { n.div_ceil(200).max(1) } else if s.name == "history" { n.div_ceil(20).max(1) } else { n.min(s.thorough.max(1)) };
        if threads <= 1 {
            // flushed before the work, so that the last line names what was running
            println!("SOAK-STREAM {id}/{} {n}", s.name);
            let mut rec = Rec::default();
            for i in 0..n {
                run_one(s, seed, false, i, &mut rec);
            }
            total.merge(rec);
        } else {
            println!("SOAK-STREAM {id}/{} {n}", s.name);
            let next = AtomicU64::new(0);
            let all = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for _ in 0..threads {
                    sc.spawn(|| {
                        let mut rec = Rec::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            run_one(s, seed, false, i, &mut rec);
                        }
                        all.lock().unwrap().push(rec);
                    });
                }
            });
            for r in all.into_inner().unwrap() {
                total.merge(r);
            }
        }
    }
    total.hashes.sort_unstable();
    total.hashes.dedup();
    println!("SOAK-DONE executions={} distinct={} calls_observed={} streams={}", total.execs, total.hashes.len(), total.evals, names.join(","));
    0
}

struct Slot {
    clock: AtomicU64, // clock id + 2^32, 0 = unset
    seq: AtomicU64,   // execution counter
    busy: AtomicU64,  // (stream index + 1) << 48 | idx ; 0 = idle
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub verif: String,
    pub scale: f64,
    pub only: Option<String>,
    pub threads: usize,
    /// the build without debug assertions and overflow checks; other executions than the checked build
    pub plain: bool,
}

impl Opts {
    fn stream_seed(&self) -> u64 {
        self.seed.wrapping_add(if self.plain { 7_000_000_000 } else { 0 })
    }
}

/// keys (property, key) of the recorded, unrepaired findings
fn known_findings(verif: &str, id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(txt) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) {
        for l in txt.lines() {
            // known: property=<id> key=<key> <what fails>
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let k = it.next().unwrap_or("");
                let w = it.next().unwrap_or("");
                if p == format!("property={id}") {
                    if let Some(k) = k.strip_prefix("key=") {
                        out.push((k.to_string(), w.to_string()));
                    }
                }
            }
        }
    }
    out
}

pub fn replay(p: &Property, stream: &str, idx: u64, o: &Opts) -> i32 {
    let s = match p.streams.iter().find(|s| s.name == stream) {
        Some(s) => s,
        None => {
            eprintln!("no stream {stream} in {}", p.id);
            return 2;
        }
    };
    let mut rec = Rec::default();
    run_one(s, o.stream_seed(), o.thorough, idx, &mut rec);
    println!("replayed {} {} #{} seed={}: {} oracle evaluations", p.id, stream, idx, o.seed, rec.evals);
    for (k, v) in &rec.metrics {
        println!("  metric {k} = {:e}", v.0);
    }
    for v in &rec.viol {
        println!("  VIOLATED [{}] {}", v.key, v.msg);
    }
    if rec.viol.is_empty() {
        0
    } else {
        1
    }
}

pub fn run(p: &Property, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let nthreads = o.threads;
    let mut total = Rec::default();
    let mut per_stream: BTreeMap<&'static str, u64> = BTreeMap::new();
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..nthreads)
            .map(|_| Slot {
                clock: AtomicU64::new(0),
                seq: AtomicU64::new(0),
                busy: AtomicU64::new(0),
            })
            .collect(),
    );
    let done = Arc::new(AtomicBool::new(false));
    // watchdog
    let hang: Arc<Mutex<Option<(usize, u64)>>> = Arc::new(Mutex::new(None));
    {
        let slots = slots.clone();
        let done = done.clone();
        let hang = hang.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, f64)> = vec![(0, 0.0); slots.len()];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for (i, s) in slots.iter().enumerate() {
                    let c = s.clock.load(Ordering::Acquire);
                    let b = s.busy.load(Ordering::Acquire);
                    if c == 0 || b == 0 {
                        continue;
                    }
                    let clock = (c.wrapping_sub(1 << 33)) as i32;
                    let q = s.seq.load(Ordering::Acquire);
                    if let Some(cpu) = cpu_of(clock) {
                        if last[i].0 != q {
                            last[i] = (q, cpu);
                        } else if cpu - last[i].1 > CPU_LIMIT
                            && s.seq.load(Ordering::Acquire) == q
                            && s.busy.load(Ordering::Acquire) == b
                        {
                            *hang.lock().unwrap() = Some(((b >> 48) as usize - 1, b & ((1 << 48) - 1)));
                            done.store(true, Ordering::Release);
                            return;
                        }
                    }
                }
            }
        });
    }

    let mut hung = None;
    'streams: for (si, s) in p.streams.iter().enumerate() {
        if let Some(only) = &o.only {
            if only != s.name {
                continue;
            }
        }
        let count = s.count(o.thorough);
        let n = ((count as f64 * o.scale).ceil() as u64).max(count.min(5000));
        per_stream.insert(s.name, n);
        let next = Arc::new(AtomicU64::new(0));
        let (tx, rx) = std::sync::mpsc::channel::<Rec>();
        let chunk = (n / (nthreads as u64 * 32)).clamp(1, 4096);
        for t in 0..nthreads {
            let next = next.clone();
            let slots = slots.clone();
            let tx = tx.clone();
            let st = Stream {
                name: s.name,
                quick: s.quick,
                thorough: s.thorough,
                f: s.f,
            };
            let (seed, thorough) = (o.stream_seed(), o.thorough);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let slot = &slots[t];
                    let ck = my_clock();
                    slot.clock.store(
                        if ck == i32::MIN { 0 } else { (ck as i64 as u64).wrapping_add(1 << 33) },
                        Ordering::Release,
                    );
                    let mut rec = Rec::default();
                    loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            slot.seq.fetch_add(1, Ordering::Release);
                            slot.busy.store(((si as u64 + 1) << 48) | i, Ordering::Release);
                            run_one(&st, seed, thorough, i, &mut rec);
                        }
                    }
                    slot.busy.store(0, Ordering::Release);
                    slot.clock.store(0, Ordering::Release);
                    let _ = tx.send(rec);
                })
                .unwrap();
        }
        drop(tx);
        let mut got = 0;
        while got < nthreads {
            match rx.recv_timeout(Duration::from_millis(300)) {
                Ok(r) => {
                    total.merge(r);
                    got += 1;
                }
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                    if let Some(h) = *hang.lock().unwrap() {
                        hung = Some(h);
                        break 'streams;
                    }
                }
                Err(_) => {
                    // a worker died: an error of the harness itself
                    eprintln!("harness worker died in stream {}", s.name);
                    return 3;
                }
            }
        }
        total.hashes.sort_unstable();
        total.hashes.dedup();
    }
    done.store(true, Ordering::Relaxed);
    if let Some((si, idx)) = hung {
        let name = p.streams[si].name;
        total.viol.push(Violation {
            key: "non-termination".into(),
            msg: format!("a single execution consumed more than {CPU_LIMIT} s of CPU time and did not return"),
            stream: name.into(),
            idx,
        });
        *total.viol_count.entry("non-termination".into()).or_default() += 1;
    }

    if !total.broken.is_empty() {
        eprintln!("HARNESS-ERROR: {:?}", &total.broken[..total.broken.len().min(3)]);
        return 3;
    }

    // verdict
    let known = known_findings(&o.verif, p.id);
    let mut bad: Vec<&Violation> = vec![];
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    for v in &total.viol {
        if known.iter().any(|(k, _)| *k == v.key) {
            known_seen.insert(v.key.clone(), total.viol_count[&v.key]);
        } else {
            bad.push(v);
        }
    }
    let nbad: u64 = total
        .viol_count
        .iter()
        .filter(|(k, _)| !known.iter().any(|(kk, _)| kk == *k))
        .map(|(_, v)| *v)
        .sum();

    // evidence
    let tier = if o.thorough { "thorough" } else { "quick" };
    let mut cells: Vec<_> = total.cells.iter().collect();
    cells.sort();
    let mut metrics: Vec<_> = total.metrics.iter().collect();
    metrics.sort_by(|a, b| a.0.cmp(b.0));
    let mut ev = String::new();
    ev.push_str("{\n");
    ev.push_str(&format!(" \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", jstr(p.id), o.seed));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"evaluations\": {},\n", total.execs));
    ev.push_str(&format!("  \"distinct_nontrivial\": {},\n", total.hashes.len()));
    ev.push_str(&format!("  \"oracle_checks\": {},\n", total.evals));
    ev.push_str(&format!("  \"rule\": {},\n", jstr(p.rule)));
    if let Some(d) = crate::dict::dict() {
        ev.push_str(&format!("  \"dictionary\": {{\"values\": {}, \"values_new_in_this_tree\": {}, \"texts_new_in_this_tree\": {}}},\n", d.all.len(), d.new.len(), d.texts.len()));
    }
    ev.push_str("  \"executions_per_stream\": {");
    ev.push_str(&per_stream.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"observed_events\": {");
    ev.push_str(&cells.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"largest_error_over_tolerance\": {");
    ev.push_str(
        &metrics
            .iter()
            .map(|(k, v)| {
                let x = if v.0.is_finite() { format!("{:e}", v.0) } else { jstr(&format!("{}", v.0)) };
                format!("{}: {}", jstr(k), x)
            })
            .collect::<Vec<_>>()
            .join(", "),
    );
    ev.push_str("},\n  \"known_findings_seen\": {");
    ev.push_str(&known_seen.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"samples\": [");
    total.samples.sort();
    ev.push_str(&total.samples.iter().take(24).map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "));
    ev.push_str("]\n },\n \"assumptions\": [");
    ev.push_str(&p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    ev.push_str(&format!(
        "],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        t0.elapsed().as_secs_f64(),
        nbad
    ));
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.verif));
    if o.only.is_none() && !o.plain {
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", o.verif, p.id), &ev) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
    }

    println!(
        "{} {tier}{} seed={} executions={} distinct_nontrivial={} oracle_checks={} wall={:.1}s",
        p.id,
        if o.plain { " plain" } else { "" },
        o.seed,
        total.execs,
        total.hashes.len(),
        total.evals,
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("GK_VERBOSE").is_ok() {
        for (k, v) in &cells {
            println!("   cell {k}: {v}");
        }
        for (k, v) in &metrics {
            println!("   err/tol {k}: {:.3e}  ({} #{})", v.0, v.1, v.2);
        }
    }
    for (k, n) in &known_seen {
        let w = &known.iter().find(|(kk, _)| kk == k).unwrap().1;
        println!("KNOWN-FINDING: property={} {w} [key={k}, {n} executions]", p.id);
    }
    if !bad.is_empty() {
        let dir = format!("{}/evidence/replay", o.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}{}-{}.json", p.id, tier, if o.plain { "-plain" } else { "" }, o.seed);
        let mut txt = String::from("[\n");
        txt.push_str(
            &bad.iter()
                .map(|v| {
                    format!(
                        " {{\"property\": {}, \"seed\": {}, \"tier\": \"{tier}\", \"stream\": {}, \"idx\": {}, \"key\": {}, \"detail\": {},\n  \"replay_cmd\": {}}}",
                        jstr(p.id),
                        o.seed,
                        jstr(&v.stream),
                        v.idx,
                        jstr(&v.key),
                        jstr(&v.msg),
                        jstr(&format!(
                            "{}VERIF_SEED={} VERIF_TIER={tier} bash /verif/check.sh {} replay {} {}",
                            if o.plain { "GK_PLAIN=1 " } else { "" },
                            o.seed,
                            p.id,
                            v.stream,
                            v.idx
                        ))
                    )
                })
                .collect::<Vec<_>>()
                .join(",\n"),
        );
        txt.push_str("\n]\n");
        let _ = std::fs::write(&path, txt);
        for v in bad.iter().take(12) {
            println!("  [{}] ({} #{}; {} times) {}", v.key, v.stream, v.idx, total.viol_count[&v.key], v.msg);
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if o.only.is_none() && !o.plain {
        let missing: Vec<_> = p.must_see.iter().filter(|c| !total.cells.contains_key(**c)).collect();
        if total.evals == 0 || total.hashes.is_empty() || !missing.is_empty() {
            println!("INCONCLUSIVE property={}: nothing observed for {:?}", p.id, missing);
            return 2;
        }
    }
    println!("HELD property={} on everything explored", p.id);
    0
}
