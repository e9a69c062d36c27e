//! Runs cases in forked processes, minimises failures, writes evidence.

use crate::env;
use crate::rng::{hash_str, mix, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write as _;
use std::path::{Path, PathBuf};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Violation {
    /// What kind of violation it is; minimising keeps this.
    pub class: String,
    pub message: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Outcome {
    pub violation: Option<Violation>,
    /// Executions of the code under test which were judged.
    pub evals: u64,
    /// How many of these were not trivial (by the property's rule).
    pub nontrivial: u64,
    /// One fingerprint per judged execution or state reached.
    pub prints: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    /// Simulated time covered.
    pub sim_ms: u64,
    /// The same case with all decisions of its schedule made explicit.
    pub explicit: Option<Value>,
    pub invalid: bool,
}

impl Outcome {
    pub fn invalid() -> Outcome {
        Outcome {
            invalid: true,
            ..Outcome::default()
        }
    }
    pub fn count(&mut self, key: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(key.to_string()).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, class: &str, message: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some(Violation {
                class: class.to_string(),
                message: message.into(),
            });
        }
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// Number of cases, quick and thorough.
    fn cases(&self) -> (u64, u64);
    /// Whether the library may be used before the fork (so that lazily
    /// initialised tables exist in each run already).
    fn warm(&self) -> bool {
        true
    }
    fn generate(&self, rng: &mut Rng, index: u64) -> Value;
    fn run(&self, case: &Value) -> Outcome;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    /// What a fingerprint distinguishes.
    fn measure(&self) -> &'static str;
    fn stubs(&self) -> &'static [&'static str];
    fn assumptions(&self) -> &'static [&'static str] {
        &[]
    }
}

const WORKERS: usize = 8;
const CASE_SECONDS: f64 = 40.0;
pub const STACK: usize = 8 << 20;

fn read_pipe(fd: i32, deadline: f64) -> Option<Vec<u8>> {
    let mut data = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let left = deadline - env::real_seconds();
        if left <= 0.0 {
            return None;
        }
        let mut p = libc::pollfd {
            fd,
            events: libc::POLLIN,
            revents: 0,
        };
        let r = unsafe { libc::poll(&mut p, 1, (left * 1000.0) as i32 + 1) };
        if r < 0 {
            continue;
        }
        if r == 0 {
            return None;
        }
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            return Some(data);
        }
        data.extend_from_slice(&buf[..n as usize]);
    }
}

pub fn write_all(fd: i32, mut data: &[u8]) {
    while !data.is_empty() {
        let n = unsafe { libc::write(fd, data.as_ptr() as *const _, data.len()) };
        if n <= 0 {
            return;
        }
        data = &data[n as usize..];
    }
}

pub enum Ended {
    Data(Vec<u8>),
    Signal(i32),
    Exit(i32),
    Timeout,
}

/// Forks, runs the closure in the child on a fresh stack, and collects the
/// bytes it returns.
pub fn in_child(seconds: f64, f: impl FnOnce() -> Vec<u8> + Send) -> Ended {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let out = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, f)
                    .unwrap()
                    .join()
            });
            match out {
                Ok(data) => {
                    write_all(fds[1], &data);
                    libc::_exit(0);
                }
                Err(e) => {
                    let text = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    write_all(2, format!("harness panic: {text}\n").as_bytes());
                    libc::_exit(70);
                }
            }
        }
        libc::close(fds[1]);
        let data = read_pipe(fds[0], env::real_seconds() + seconds);
        if data.is_none() {
            libc::kill(pid, libc::SIGKILL);
        }
        libc::close(fds[0]);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        match data {
            None => Ended::Timeout,
            Some(_) if libc::WIFSIGNALED(status) => Ended::Signal(libc::WTERMSIG(status)),
            Some(d) if libc::WEXITSTATUS(status) == 0 => Ended::Data(d),
            Some(_) => Ended::Exit(libc::WEXITSTATUS(status)),
        }
    }
}

pub fn run_case(prop: &dyn Prop, case: &Value) -> Outcome {
    match in_child(CASE_SECONDS, || {
        env::activate();
        env::set_entropy(1, 0, 0);
        env::set_clock(1_700_000_000, 0, 0);
        serde_json::to_vec(&prop.run(case)).unwrap()
    }) {
        Ended::Data(d) => serde_json::from_slice(&d).expect("outcome"),
        Ended::Signal(n) => {
            let mut o = Outcome::default();
            o.fail(
                "crash",
                format!("the process was ended by signal {n} (stack overflow or abort)"),
            );
            o
        }
        Ended::Timeout => {
            let mut o = Outcome::default();
            o.fail("hang", format!("no result within {CASE_SECONDS} seconds"));
            o
        }
        Ended::Exit(code) => {
            eprintln!("harness error: case process exited with {code}: {case}");
            std::process::exit(2);
        }
    }
}

pub fn seed_for(prop: &dyn Prop, seed: u64, index: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop.id())) ^ index)
}

pub fn make_case(prop: &dyn Prop, seed: u64, index: u64) -> Value {
    let mut rng = Rng::new(seed_for(prop, seed, index));
    prop.generate(&mut rng, index)
}

#[derive(Serialize, Deserialize, Default)]
struct Batch {
    cases: u64,
    evals: u64,
    nontrivial: u64,
    prints: Vec<u64>,
    counters: BTreeMap<String, u64>,
    sim_ms: u64,
    violation: Option<(u64, Value, Violation)>,
    rechecked: u64,
    diverged: u64,
    samples: Vec<Value>,
    cut_short: bool,
}

pub struct Options {
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub cases: Option<u64>,
    pub workers: usize,
    pub keep_going: bool,
}

impl Options {
    pub fn workers_default() -> usize {
        WORKERS
    }
}

fn warm_up() {
    env::activate();
    env::set_entropy(7, 0, 0);
    env::set_clock(1_700_000_000, 0, 0);
    let doc = crate::ops::Doc::new(
        "[[include some-page a=b]]\n**a** `x' // [[div class=\"x\"]]\nb\n[[/div]] [https://a.example b] [[date now]] [[iftags x]] y [[/iftags]] \
         [[tabview]][[tab a]]b[[/tab]][[/tabview]] ##red|x## {$a} @@b@@ [[math]]\nx\n[[/math]]\n[[module css]]\na {}\n[[/module]]\n[!wp:a b] <<x>> ... --\n|| a ||\n",
    );
    let _ = crate::trace::call(crate::trace::Budget::NONE, || crate::ops::pipeline(&doc));
}

fn worker(prop: &dyn Prop, opt: &Options, w: usize, total: u64, stop: *mut u32, deadline: f64) -> Batch {
    if prop.warm() {
        warm_up();
    }
    let mut batch = Batch::default();
    let mut prints: HashSet<u64> = HashSet::new();
    let mut index = w as u64;
    while index < total {
        if unsafe { std::ptr::read_volatile(stop) } != 0 {
            break;
        }
        if env::real_seconds() > deadline {
            batch.cut_short = true;
            break;
        }
        let case = make_case(prop, opt.seed, index);
        let out = run_case(prop, &case);
        batch.cases += 1;
        batch.evals += out.evals;
        batch.nontrivial += out.nontrivial;
        batch.sim_ms += out.sim_ms;
        prints.extend(out.prints.iter());
        for (k, v) in &out.counters {
            *batch.counters.entry(k.clone()).or_insert(0) += v;
        }
        if batch.samples.len() < 2 && out.nontrivial > 0 && index >= w as u64 + 8 {
            batch.samples.push(case.clone());
        }
        if index % 61 == 7 {
            batch.rechecked += 1;
            if run_case(prop, &case) != out {
                batch.diverged += 1;
                if opt.keep_going {
                    eprintln!("diverged: case {index}");
                }
            }
        }
        if let Some(v) = out.violation {
            if opt.keep_going {
                eprintln!("case {index}: [{}] {}", v.class, v.message);
            }
            let case = out.explicit.unwrap_or(case);
            if batch.violation.is_none() {
                batch.violation = Some((index, case, v));
            }
            if !opt.keep_going {
                unsafe { std::ptr::write_volatile(stop, 1) };
                break;
            }
        }
        index += opt.workers as u64;
    }
    batch.prints = prints.into_iter().collect();
    batch.prints.sort_unstable();
    batch
}

fn search(prop: &dyn Prop, opt: &Options, total: u64, seconds: f64) -> Vec<Batch> {
    let deadline = env::real_seconds() + seconds;
    let stop = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u32
    };
    let mut pids = vec![];
    for w in 0..opt.workers {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let batch = worker(prop, opt, w, total, stop, deadline);
                write_all(fds[1], &serde_json::to_vec(&batch).unwrap());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pids.push((pid, fds[0]));
        }
    }
    let mut out = vec![];
    for (pid, fd) in pids {
        let data = read_pipe(fd, deadline + 120.0).unwrap_or_default();
        let mut status = 0;
        unsafe {
            libc::close(fd);
            while libc::waitpid(pid, &mut status, 0) < 0 {}
        }
        match serde_json::from_slice(&data) {
            Ok(b) => out.push(b),
            Err(_) => {
                eprintln!("harness error: a worker ended early (status {status})");
                std::process::exit(2);
            }
        }
    }
    out
}

// ---- minimising ---------------------------------------------------------

fn paths(v: &Value, at: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(Key::Index(i));
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                if k.starts_with("fixed") {
                    continue;
                }
                at.push(Key::Name(k.clone()));
                paths(x, at, out);
                at.pop();
            }
        }
        _ => (),
    }
}

#[derive(Clone, Debug)]
enum Key {
    Index(usize),
    Name(String),
}

fn get<'v>(v: &'v Value, path: &[Key]) -> Option<&'v Value> {
    let mut v = v;
    for k in path {
        v = match k {
            Key::Index(i) => v.get(i)?,
            Key::Name(n) => v.get(n)?,
        };
    }
    Some(v)
}

fn replaced(v: &Value, path: &[Key], with: Value) -> Value {
    let mut out = v.clone();
    let mut p = &mut out;
    for k in path {
        p = match k {
            Key::Index(i) => p.get_mut(i).unwrap(),
            Key::Name(n) => p.get_mut(n).unwrap(),
        };
    }
    *p = with;
    out
}

/// Simpler values for the one at this place.
fn simpler(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut size = n;
            while size > 0 {
                let mut i = 0;
                while i < n {
                    let end = (i + size).min(n);
                    let mut b = a[..i].to_vec();
                    b.extend_from_slice(&a[end..]);
                    out.push(Value::Array(b));
                    i += size;
                }
                size /= 2;
            }
            // Put what an element contains in its place.
            for i in 0..n {
                let mut inner: Vec<&Value> = vec![];
                if let Value::Object(m) = &a[i] {
                    for x in m.values() {
                        match x {
                            Value::Array(_) => inner.push(x),
                            Value::Object(m2) => {
                                inner.extend(m2.values().filter(|y| y.is_array()))
                            }
                            _ => (),
                        }
                    }
                }
                for x in inner {
                    let mut b = a[..i].to_vec();
                    b.extend(x.as_array().unwrap().iter().cloned());
                    b.extend_from_slice(&a[i + 1..]);
                    out.push(Value::Array(b));
                }
            }
        }
        Value::String(s) => {
            let chars: Vec<char> = s.chars().collect();
            let n = chars.len();
            let mut size = n;
            while size > 0 {
                let mut i = 0;
                while i < n {
                    let end = (i + size).min(n);
                    let b: String = chars[..i].iter().chain(&chars[end..]).collect();
                    out.push(Value::String(b));
                    i += size;
                }
                size /= 2;
            }
        }
        Value::Number(x) => {
            if let Some(n) = x.as_u64() {
                for m in [0, 1, n / 2, n.saturating_sub(1)] {
                    if m < n {
                        out.push(json!(m));
                    }
                }
            } else if let Some(n) = x.as_i64() {
                out.push(json!(0));
                out.push(json!(n / 2));
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        Value::Object(m) => {
            // Maps: drop entries (structs reject this on reading).
            for k in m.keys() {
                let mut b = m.clone();
                b.remove(k);
                out.push(Value::Object(b));
            }
        }
        _ => (),
    }
    out
}

pub fn minimise(prop: &dyn Prop, case: Value, v: Violation, seconds: f64) -> (Value, Violation, u64) {
    let end = env::real_seconds() + seconds;
    let mut best = case;
    let mut violation = v;
    let mut tried = 0;
    let mut seen: HashSet<u64> = HashSet::new();
    loop {
        let mut progress = false;
        let mut all = vec![];
        paths(&best, &mut vec![], &mut all);
        // Biggest parts first.
        all.sort_by_key(|p| {
            std::cmp::Reverse(get(&best, p).map(|v| v.to_string().len()).unwrap_or(0))
        });
        'paths: for path in all {
            let mut skip = 0;
            loop {
                let Some(here) = get(&best, &path) else {
                    continue 'paths;
                };
                let mut found = false;
                for (i, s) in simpler(here).into_iter().enumerate().skip(skip) {
                    if env::real_seconds() > end {
                        return (best, violation, tried);
                    }
                    let candidate = replaced(&best, &path, s);
                    if !seen.insert(hash_str(&candidate.to_string())) {
                        continue;
                    }
                    tried += 1;
                    let out = run_case(prop, &candidate);
                    if let Some(v) = out.violation {
                        if v.class == violation.class {
                            best = candidate;
                            violation = v;
                            progress = true;
                            found = true;
                            skip = i;
                            break;
                        }
                    }
                }
                if !found {
                    break;
                }
            }
        }
        if !progress {
            return (best, violation, tried);
        }
    }
}

// ---- the check ----------------------------------------------------------

pub struct Finding {
    pub property: String,
    pub file: PathBuf,
    pub what: String,
}

/// Lines `finding: property=<id> case=<file> <what>`; `fixed:` lines and
/// others are for readers.
pub fn known_findings(root: &Path) -> Vec<Finding> {
    let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: property=") else {
            continue;
        };
        let mut parts = rest.splitn(3, ' ');
        let property = parts.next().unwrap_or("").to_string();
        let file = parts.next().unwrap_or("").trim_start_matches("case=");
        out.push(Finding {
            property,
            file: root.join(file),
            what: parts.next().unwrap_or("").to_string(),
        });
    }
    out
}

fn regression_cases(root: &Path, id: &str) -> Vec<(PathBuf, Value)> {
    let dir = root.join("regressions").join(id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| Some(e.ok()?.path())).collect())
        .unwrap_or_default();
    files.sort();
    files
        .into_iter()
        .filter(|f| f.extension().map_or(false, |e| e == "json"))
        .map(|f| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
            let case = v.get("case").cloned().unwrap_or(v);
            (f, case)
        })
        .collect()
}

pub fn replay(prop: &dyn Prop, file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
        .expect("replay file is JSON");
    let case = v.get("case").cloned().unwrap_or(v);
    let out = single(prop, &case);
    match out.violation {
        Some(v) => {
            println!("{}: {}", v.class, v.message);
            println!("VIOLATION property={} replay={}", prop.id(), file.display());
            1
        }
        None => {
            println!("no violation ({} executions)", out.evals);
            0
        }
    }
}

/// Runs one case as the workers do: warmed up process, then a fork of it.
fn single(prop: &dyn Prop, case: &Value) -> Outcome {
    match in_child(600.0, || {
        if prop.warm() {
            warm_up();
        }
        serde_json::to_vec(&run_case(prop, case)).unwrap()
    }) {
        Ended::Data(d) => serde_json::from_slice(&d).unwrap(),
        _ => {
            eprintln!("harness error: replay process failed");
            std::process::exit(2);
        }
    }
}

fn report(prop: &dyn Prop, opt: &Options, index: Option<u64>, case: Value, v: Violation) -> PathBuf {
    let budget = if opt.tier == "quick" { 45.0 } else { 120.0 };
    // In a process of its own: the code under test never runs in this one.
    let given = (case.clone(), v.clone());
    let (case, v, tried) = match in_child(budget + 60.0, move || {
        if prop.warm() {
            warm_up();
        }
        serde_json::to_vec(&minimise(prop, case, v, budget)).unwrap()
    }) {
        Ended::Data(d) => serde_json::from_slice(&d).unwrap(),
        _ => (given.0, given.1, 0),
    };
    let dir = opt.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!(
        "{}-{:016x}.json",
        prop.id(),
        hash_str(&case.to_string())
    ));
    let body = json!({
        "property": prop.id(),
        "class": v.class,
        "message": v.message,
        "seed": opt.seed,
        "case_index": index,
        "case_seed": index.map(|i| format!("{:016x}", seed_for(prop, opt.seed, i))),
        "minimising_runs": tried,
        "case": case,
    });
    std::fs::write(&file, serde_json::to_string_pretty(&body).unwrap()).expect("replay written");
    println!("{}: {}", v.class, v.message);
    println!("VIOLATION property={} replay={}", prop.id(), file.display());
    file
}

pub fn check(prop: &dyn Prop, opt: &Options) -> i32 {
    let start = env::real_seconds();
    println!(
        "property={} tier={} seed={} workers={}",
        prop.id(),
        opt.tier,
        opt.seed,
        opt.workers
    );
    let mut violations = 0;

    // Earlier failures, then the recorded findings.
    let regressions = regression_cases(&opt.root, prop.id());
    let mut regress_failed = vec![];
    for (file, case) in &regressions {
        let out = single(prop, case);
        if out.invalid {
            eprintln!("harness error: {} is not a case", file.display());
            return 2;
        }
        if let Some(v) = out.violation {
            regress_failed.push((case.clone(), v));
        }
    }
    let mut findings = 0;
    for f in known_findings(&opt.root) {
        if f.property != prop.id() {
            continue;
        }
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f.file).expect("finding"))
            .expect("finding is JSON");
        let case = v.get("case").cloned().unwrap_or(v.clone());
        let out = single(prop, &case);
        if let Some(got) = out.violation {
            let expected = v.get("class").and_then(Value::as_str).unwrap_or("");
            if got.class == expected {
                findings += 1;
                println!("KNOWN-FINDING: property={} {}", prop.id(), f.what);
            } else {
                regress_failed.push((case, got));
            }
        }
    }

    let (quick, thorough) = prop.cases();
    let total = opt.cases.unwrap_or(if opt.tier == "quick" { quick } else { thorough });
    let seconds = if opt.tier == "quick" { 240.0 } else { 3000.0 };
    let mut batches = vec![];
    if regress_failed.is_empty() {
        batches = search(prop, opt, total, seconds);
    }
    let search_s = env::real_seconds() - start;

    let mut prints: BTreeSet<u64> = BTreeSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut cases, mut evals, mut nontrivial, mut rechecked, mut diverged) = (0, 0, 0, 0, 0);
    let mut sim_ms: u128 = 0;
    let mut samples = vec![];
    let mut cut_short = false;
    let mut first: Option<(u64, Value, Violation)> = None;
    for b in batches {
        cases += b.cases;
        evals += b.evals;
        nontrivial += b.nontrivial;
        rechecked += b.rechecked;
        diverged += b.diverged;
        sim_ms += u128::from(b.sim_ms);
        cut_short |= b.cut_short;
        prints.extend(b.prints);
        for (k, v) in b.counters {
            *counters.entry(k).or_insert(0) += v;
        }
        if samples.len() < 3 {
            samples.extend(b.samples.into_iter().take(1));
        }
        if let Some(v) = b.violation {
            if first.as_ref().map_or(true, |f| v.0 < f.0) {
                first = Some(v);
            }
        }
    }
    for (case, v) in regress_failed {
        violations += 1;
        report(prop, opt, None, case, v);
        break;
    }
    if let Some((index, case, v)) = first {
        violations += 1;
        println!("first failing case: {index}");
        report(prop, opt, Some(index), case, v);
    }
    let wall = env::real_seconds() - start;
    let per_hour = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let faults: BTreeMap<&String, &u64> =
        counters.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<&String, &u64> =
        counters.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    if samples.is_empty() {
        samples.push(make_case(prop, opt.seed, 0));
    }
    let evidence = json!({
        "property": prop.id(),
        "tier": opt.tier,
        "seed": opt.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": (prints.len() as u64).min(nontrivial),
            "rule": format!("{} Distinct: {}.", prop.rule(), prop.measure()),
            "samples": samples,
            "simulated_runs": cases,
            "seeds": "one per simulated run, derived from the run's index",
            "simulated_runs_and_seeds_per_hour": per_hour(cases),
            "nontrivial_including_repeats": nontrivial,
            "distinct_measure": prop.measure(),
            "simulated_seconds": (sim_ms / 1_000) as u64,
            "faults_injected": faults,
            "probes": probes,
            "determinism": {"cases_run_twice": rechecked, "diverged": diverged},
            "regression_cases": regressions.len(),
            "known_findings_seen": findings,
            "cut_short_by_time_limit": cut_short,
            "components": {
                "real": "all of ftml (include, preprocess, tokenize, parse, HTML and text rendering) as built from /repo, with its dependencies, std, and the threads it runs on",
                "simulated": prop.stubs(),
            },
        },
        "assumptions": prop.assumptions(),
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let dir = opt.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", prop.id())),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("evidence written");
    println!(
        "{} runs, {} executions ({} non-trivial, {} distinct), {} of {} re-runs diverged, {:.1} s",
        cases,
        evals,
        nontrivial,
        prints.len(),
        diverged,
        rechecked,
        wall
    );
    println!("faults: {}", json!(faults));
    println!("probes: {}", json!(probes));
    let _ = std::io::stdout().flush();
    if violations > 0 {
        1
    } else {
        0
    }
}
