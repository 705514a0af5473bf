//! Runs a check: generates cases on several threads from the seed, shrinks a failure into a replay file and
//! writes the evidence. The cases run in a child process, so that a crash or a hang of the code under test is
//! turned into a replayable case as well.
use crate::gen::Rand;
use crate::hist::Seen;
use crate::shrink;
use crate::store::{guarded, scratch_root};
use crate::types::*;
use rand::SeedableRng;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub trait Part: Sync + Send {
    type Case: Serialize + DeserializeOwned + Clone + Debug + Send;
    fn name(&self) -> &'static str;
    /// Makes case number `i`; small numbers may be fixed corner cases.
    fn gen(&self, r: &mut Rand, i: usize) -> Self::Case;
    fn run(&self, c: &Self::Case, seen: &mut Seen) -> R;
    fn nontrivial(&self, c: &Self::Case, seen: &Seen) -> bool;
    /// Cases at the same time (those with threads or processes of their own want fewer).
    fn threads(&self) -> usize {
        8
    }
    /// Seconds and runs to spend on shrinking.
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 4000)
    }
    /// A case to keep as a sample, shortened if it is long.
    fn sample(&self, c: &Self::Case) -> Value {
        serde_json::to_value(c).unwrap()
    }
}

pub struct Ran {
    pub result: R,
    pub nontrivial: bool,
    pub hash: u64,
    pub json: Value,
}

pub trait DynPart: Sync + Send {
    fn name(&self) -> &'static str;
    fn threads(&self) -> usize;
    fn shrink_budget(&self) -> (u64, usize);
    fn run_index(&self, seed: u64, check: &str, i: usize, seen: &mut Seen, want_json: bool) -> Ran;
    fn make(&self, seed: u64, check: &str, i: usize) -> Value;
    fn run_json(&self, v: &Value, seen: &mut Seen) -> Option<R>;
}

fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in *p {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    h
}

fn rng_for(seed: u64, check: &str, part: &str, i: usize) -> Rand {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&fnv(&[check.as_bytes(), part.as_bytes()]).to_le_bytes());
    s[16..24].copy_from_slice(&(i as u64).to_le_bytes());
    Rand::from_seed(s)
}

fn run_guarded(f: impl FnOnce() -> R) -> R {
    match guarded(f) {
        Ok(r) => r,
        Err(p) => fail("panic", format!("panic: {p}")),
    }
}

impl<P: Part> DynPart for P {
    fn name(&self) -> &'static str {
        Part::name(self)
    }
    fn threads(&self) -> usize {
        Part::threads(self)
    }
    fn shrink_budget(&self) -> (u64, usize) {
        Part::shrink_budget(self)
    }
    fn run_index(&self, seed: u64, check: &str, i: usize, seen: &mut Seen, want_json: bool) -> Ran {
        let c = self.gen(&mut rng_for(seed, check, self.name(), i), i);
        let text = serde_json::to_string(&c).unwrap();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        text.hash(&mut h);
        let result = run_guarded(|| self.run(&c, seen));
        let nontrivial = result.is_ok() && self.nontrivial(&c, seen);
        let json = if result.is_err() {
            serde_json::to_value(&c).unwrap()
        } else if want_json && nontrivial {
            self.sample(&c)
        } else {
            Value::Null
        };
        Ran { result, nontrivial, hash: h.finish(), json }
    }
    fn make(&self, seed: u64, check: &str, i: usize) -> Value {
        serde_json::to_value(self.gen(&mut rng_for(seed, check, self.name(), i), i)).unwrap()
    }
    fn run_json(&self, v: &Value, seen: &mut Seen) -> Option<R> {
        let c: P::Case = serde_json::from_value(v.clone()).ok()?;
        Some(run_guarded(|| self.run(&c, seen)))
    }
}

pub struct Sized_ {
    pub part: Box<dyn DynPart>,
    pub quick: usize,
    pub thorough: usize,
}

pub fn part<P: Part + 'static>(p: P, quick: usize, thorough: usize) -> Sized_ {
    Sized_ { part: Box::new(p), quick, thorough }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Sized_>,
    /// Also run a share of the cases in the build with debug assertions and overflow checks.
    pub dbg_share: f64,
    /// Reproduces the known findings of this property; returns what still fails.
    pub known: fn() -> Vec<(String, String)>,
}

pub fn no_known() -> Vec<(String, String)> {
    vec![]
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct PartStat {
    pub name: String,
    pub cases: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub queries: u64,
    pub writes: u64,
    pub labels: BTreeMap<String, u64>,
    pub wall_s: f64,
    pub slowest: (usize, f64),
    pub samples: Vec<Value>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Violation {
    pub part: String,
    pub index: usize,
    pub kind: String,
    pub msg: String,
    pub case: Value,
    pub shrunk: bool,
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct Report {
    pub parts: Vec<PartStat>,
    pub violation: Option<Violation>,
}

/// Set while a failing case is shrunk or replayed: cases that depend on thread timing then try many times.
pub static PERSIST: AtomicBool = AtomicBool::new(false);

pub fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

const HANG_S: u64 = 150;

/// One slot per thread in a shared file: part, case number, start time (milliseconds since the epoch).
struct Slots(std::fs::File);

impl Slots {
    fn set(&self, t: usize, part: u64, i: u64) {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&part.to_le_bytes());
        b[8..16].copy_from_slice(&i.to_le_bytes());
        b[16..].copy_from_slice(&now.to_le_bytes());
        let _ = self.0.write_all_at(&b, t as u64 * 24);
    }
    fn clear(&self, t: usize) {
        let _ = self.0.write_all_at(&[0u8; 24], t as u64 * 24);
    }
}

fn read_slots(p: &PathBuf) -> Vec<(u64, u64, u64)> {
    let b = std::fs::read(p).unwrap_or_default();
    b.chunks_exact(24)
        .map(|c| {
            let f = |r: std::ops::Range<usize>| u64::from_le_bytes(c[r].try_into().unwrap());
            (f(0..8), f(8..16), f(16..24))
        })
        .filter(|s| s.2 != 0)
        .collect()
}

/// Runs all parts in this process and writes the report.
pub fn worker(check: &Check, seed: u64, share: f64, slots: &str, report: &str) {
    // A tree that allocates without bounds shall be noticed, not exhaust the machine
    let most = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &most) };
    let slots = Slots(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(slots).unwrap());
    let mut rep = Report::default();
    let only = std::env::var("HARNESS_PART").ok();
    for (pk, sp) in check.parts.iter().enumerate() {
        let p = &sp.part;
        if only.as_ref().is_some_and(|o| o != p.name()) {
            continue;
        }
        let mut n = if thorough() { sp.thorough } else { sp.quick };
        if let Some(x) = std::env::var("HARNESS_CASES").ok().and_then(|s| s.parse::<usize>().ok()) {
            n = x;
        }
        if share < 1.0 {
            n = ((n as f64 * share) as usize).max(n.min(1));
        }
        let start = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let stat = Mutex::new(PartStat { name: p.name().into(), ..Default::default() });
        let uniq: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let found: Mutex<Option<(usize, Fail, Value)>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for t in 0..p.threads().min(n.max(1)) {
                let (next, stop, stat, uniq, found, slots) = (&next, &stop, &stat, &uniq, &found, &slots);
                let body = move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || stop.load(Ordering::Relaxed) {
                        slots.clear(t);
                        return;
                    }
                    slots.set(t, pk as u64, i as u64);
                    let mut seen = Seen::default();
                    let want = i < 40;
                    let t0 = Instant::now();
                    let ran = p.run_index(seed, check.id, i, &mut seen, want);
                    let mut st = stat.lock().unwrap();
                    let took = t0.elapsed().as_secs_f64();
                    if took > st.slowest.1 {
                        st.slowest = (i, took);
                    }
                    st.cases += 1;
                    st.queries += seen.queries;
                    st.writes += seen.writes;
                    for l in &seen.labels {
                        *st.labels.entry(l.to_string()).or_default() += 1;
                    }
                    if let Err(f) = ran.result {
                        stop.store(true, Ordering::Relaxed);
                        let mut g = found.lock().unwrap();
                        if g.as_ref().is_none_or(|x| i < x.0) {
                            *g = Some((i, f, ran.json));
                        }
                    } else if ran.nontrivial {
                        st.nontrivial += 1;
                        uniq.lock().unwrap().insert(ran.hash);
                        if want && st.samples.len() < 2 && ran.json.to_string().len() < 6000 {
                            st.samples.push(ran.json);
                        }
                    }
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, body).unwrap();
            }
        });
        let mut st = stat.into_inner().unwrap();
        st.distinct_nontrivial = uniq.into_inner().unwrap().len() as u64;
        st.wall_s = start.elapsed().as_secs_f64();
        rep.parts.push(st);
        if let Some((i, f, case)) = found.into_inner().unwrap() {
            // write what we have first: shrinking may itself crash
            rep.violation = Some(Violation { part: p.name().into(), index: i, kind: f.kind.clone(), msg: cut(&f.msg), case: case.clone(), shrunk: false });
            std::fs::write(report, serde_json::to_string(&rep).unwrap()).unwrap();
            let (secs, runs) = p.shrink_budget();
            PERSIST.store(true, Ordering::Relaxed);
            let pname = p.name();
            let small = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || {
                        let still = |v: &Value| matches!(p.run_json(v, &mut Seen::default()), Some(Err(g)) if g.kind == f.kind);
                        if !still(&case) {
                            eprintln!("note: the failing case of {pname} did not fail when run again");
                            return None;
                        }
                        let small = shrink::shrink(case.clone(), still, shrink::Budget::new(secs, runs));
                        match p.run_json(&small, &mut Seen::default()) {
                            Some(Err(g)) => Some((small, g)),
                            _ => None,
                        }
                    })
                    .unwrap()
                    .join()
                    .ok()
                    .flatten()
            });
            if let (Some(v), Some((case, g))) = (rep.violation.as_mut(), small) {
                *v = Violation { part: v.part.clone(), index: i, kind: g.kind, msg: cut(&g.msg), case, shrunk: true };
            }
            break;
        }
    }
    std::fs::write(report, serde_json::to_string(&rep).unwrap()).unwrap();
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

enum Ended {
    Ok,
    Hung,
    Died(String),
}

/// Runs a command, killing its whole process group when `hung` says so.
fn supervise(mut cmd: Command, mut hung: impl FnMut() -> bool) -> Ended {
    use std::os::unix::process::CommandExt;
    cmd.stdin(Stdio::null());
    cmd.process_group(0);
    let mut ch = cmd.spawn().expect("start worker");
    let pid = ch.id() as i32;
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                unsafe { libc::kill(-pid, libc::SIGKILL) };
                return if st.success() {
                    Ended::Ok
                } else {
                    Ended::Died(match st.signal() {
                        Some(s) => format!("signal {s}"),
                        None => format!("exit status {:?}", st.code()),
                    })
                };
            }
            None if hung() => {
                unsafe { libc::kill(-pid, libc::SIGKILL) };
                let _ = ch.wait();
                return Ended::Hung;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn clean_scratch(pid_root: &PathBuf) {
    let _ = std::fs::remove_dir_all(pid_root);
}

/// Scratch directories of processes that are gone.
pub fn sweep_scratch() {
    for base in ["/dev/shm", "/tmp"] {
        for e in std::fs::read_dir(base).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if let Some(pid) = n.strip_prefix("indradb-verif-").and_then(|p| p.split('-').next().unwrap().parse::<i32>().ok()) {
                if unsafe { libc::kill(pid, 0) } != 0 {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
}

/// The whole check: exit code 0, 1 (violation) or 2 (the check itself went wrong).
pub fn check(c: &Check) -> i32 {
    let start = Instant::now();
    let seed = seed();
    sweep_scratch();
    let root = scratch_root();
    std::fs::create_dir_all(&root).unwrap();
    for (key, what) in (c.known)() {
        println!("KNOWN-FINDING: property={} [{key}] {what}", c.id);
    }
    let exe = std::env::current_exe().unwrap();
    let mut runs = vec![(exe.clone(), 1.0, "release")];
    if c.dbg_share > 0.0 {
        match std::env::var("HARNESS_DBG") {
            Ok(p) => runs.push((PathBuf::from(p), c.dbg_share, "debug assertions on")),
            Err(_) => eprintln!("note: HARNESS_DBG is not set; skipping the build with debug assertions"),
        }
    }
    let mut reports: Vec<(String, Report)> = vec![];
    let mut violation: Option<(Violation, &str)> = None;
    for (bin, share, label) in runs {
        let slots = root.join("slots");
        let report = root.join("report");
        let _ = std::fs::remove_file(&report);
        let _ = std::fs::remove_file(&slots);
        let mut cmd = Command::new(&bin);
        cmd.args(["worker", c.id, &seed.to_string(), &share.to_string(), slots.to_str().unwrap(), report.to_str().unwrap()]);
        let sl = slots.clone();
        let mut last = Instant::now();
        let ended = supervise(cmd, || {
            if last.elapsed() < Duration::from_secs(2) {
                return false;
            }
            last = Instant::now();
            let now = now_ms();
            read_slots(&sl).iter().any(|s| now.saturating_sub(s.2) > HANG_S * 1000) && !report_has_violation(&root.join("report"))
        });
        let rep: Option<Report> = std::fs::read_to_string(&report).ok().and_then(|s| serde_json::from_str(&s).ok());
        match ended {
            Ended::Ok => {}
            Ended::Hung | Ended::Died(_) if rep.as_ref().is_some_and(|r| r.violation.is_some()) => {}
            other => {
                // find the case that did it, and see whether it does it again on its own
                let how = match &other {
                    Ended::Hung => "hung".to_string(),
                    Ended::Died(s) => format!("died with {s}"),
                    Ended::Ok => unreachable!(),
                };
                eprintln!("the worker {how}; looking for the case");
                for (pk, i, _) in read_slots(&slots) {
                    let p = &c.parts[pk as usize].part;
                    let case = p.make(seed, c.id, i as usize);
                    let f = root.join("suspect.json");
                    std::fs::write(&f, replay_json(c.id, p.name(), seed, label, "crash", "", &case).to_string()).unwrap();
                    let t = Instant::now();
                    let mut cmd = Command::new(&bin);
                    cmd.args(["replay", f.to_str().unwrap()]).stdout(Stdio::null());
                    let (again, word) = match supervise(cmd, || t.elapsed() > Duration::from_secs(HANG_S)) {
                        Ended::Hung => (matches!(other, Ended::Hung), "does not finish".to_string()),
                        Ended::Died(s) if s.starts_with("signal") => (true, format!("ends the process with {s}")),
                        _ => (false, String::new()),
                    };
                    if again {
                        violation = Some((
                            Violation { part: p.name().into(), index: i as usize, kind: "crash".into(), msg: format!("running the case {word}"), case, shrunk: false },
                            label,
                        ));
                        break;
                    }
                }
                // the code under test brought the process down (or to a halt), if only with this timing
                let fatal = how == "hung" || ["signal 11", "signal 6", "signal 7", "signal 4", "signal 8"].iter().any(|x| how.ends_with(x));
                if violation.is_none() && fatal {
                    if let Some((pk, i, _)) = read_slots(&slots).into_iter().next() {
                        let p = &c.parts[pk as usize].part;
                        let case = p.make(seed, c.id, i as usize);
                        let msg = format!("the process {how} while running this and other cases");
                        violation = Some((Violation { part: p.name().into(), index: i as usize, kind: "crash".into(), msg, case, shrunk: false }, label));
                    }
                }
                if violation.is_none() {
                    eprintln!("ERROR: the worker {how}, and no single case repeats it");
                    clean_scratch(&root);
                    return 2;
                }
            }
        }
        if let Some(mut r) = rep {
            if violation.is_none() {
                if let Some(v) = r.violation.take() {
                    violation = Some((v, label));
                }
            }
            reports.push((label.to_string(), r));
        }
        if violation.is_some() {
            break;
        }
    }
    let mut replay_path = None;
    if let Some((v, label)) = &violation {
        let dir = verif().join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}-{}.json", c.id, v.part, seed));
        std::fs::write(&p, serde_json::to_string_pretty(&replay_json(c.id, &v.part, seed, label, &v.kind, &v.msg, &v.case)).unwrap()).unwrap();
        replay_path = Some(p);
    }
    write_evidence(c, seed, &reports, violation.as_ref().map(|v| &v.0), start.elapsed().as_secs_f64());
    clean_scratch(&root);
    sweep_scratch();
    for (label, r) in &reports {
        for p in &r.parts {
            println!(
                "{} {} [{label}]: {} cases, {} non-trivial ({} distinct), {} queries, {} writes, {:.1} s (slowest: case {} in {:.1} s)",
                c.id, p.name, p.cases, p.nontrivial, p.distinct_nontrivial, p.queries, p.writes, p.wall_s, p.slowest.0, p.slowest.1
            );
        }
    }
    match (violation, replay_path) {
        (Some((v, label)), Some(p)) => {
            println!("{}: part {} case {} ({label}): {}: {}", c.id, v.part, v.index, v.kind, v.msg);
            println!("VIOLATION property={} replay={}", c.id, p.display());
            1
        }
        _ => {
            println!("{}: held on everything explored ({:.1} s)", c.id, start.elapsed().as_secs_f64());
            0
        }
    }
}

/// Failures of large cases have large descriptions.
fn cut(s: &str) -> String {
    if s.len() <= 8000 {
        return s.into();
    }
    let head: String = s.chars().take(6000).collect();
    format!("{head} ... ({} bytes in all)", s.len())
}

fn report_has_violation(p: &PathBuf) -> bool {
    std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str::<Report>(&s).ok()).is_some_and(|r| r.violation.is_some())
}

fn replay_json(id: &str, part: &str, seed: u64, build: &str, kind: &str, msg: &str, case: &Value) -> Value {
    json!({"property": id, "part": part, "seed": seed, "build": build, "kind": kind, "failure": msg, "case": case,
           "how_to_replay": "harness replay <this file> (see /verif/check)"})
}

fn write_evidence(c: &Check, seed: u64, reports: &[(String, Report)], v: Option<&Violation>, wall: f64) {
    let mut cases = 0;
    let mut distinct = 0;
    let mut samples: Vec<Value> = vec![];
    let mut parts = vec![];
    for (label, r) in reports {
        for p in &r.parts {
            cases += p.cases;
            if label == "release" {
                distinct += p.distinct_nontrivial;
            }
            for s in &p.samples {
                if samples.iter().map(|s| s.to_string().len()).sum::<usize>() < 30000 {
                    samples.push(json!({"part": p.name, "case": s}));
                }
            }
            parts.push(json!({"part": p.name, "build": label, "cases": p.cases, "nontrivial": p.nontrivial, "distinct_nontrivial": p.distinct_nontrivial,
                "queries_checked": p.queries, "writes_checked": p.writes, "classes": p.labels, "wall_s": (p.wall_s * 10.0).round() / 10.0}));
        }
    }
    if samples.is_empty() {
        samples.push(v.map(|v| v.case.clone()).filter(|c| c.to_string().len() < 20000).unwrap_or_else(|| json!("(no non-trivial case finished)")));
    }
    let e = json!({
        "property": c.id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": seed,
        "level": c.level,
        "coverage": {"evaluations": cases, "distinct_nontrivial": distinct, "rule": c.rule, "samples": samples, "parts": parts},
        "assumptions": c.assumptions,
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": if v.is_some() { 1 } else { 0 },
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&e).unwrap()).unwrap();
}

/// Runs a replay file; exit code 1 if it fails (again).
pub fn replay(checks: &[Check], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay file")).expect("replay file");
    let c = checks.iter().find(|c| v["property"] == c.id).expect("property of the replay file");
    let p = c.parts.iter().find(|p| v["part"] == p.part.name()).expect("part of the replay file");
    PERSIST.store(true, Ordering::Relaxed);
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || p.part.run_json(&v["case"], &mut Seen::default())).unwrap().join().unwrap()
    });
    clean_scratch(&scratch_root());
    match r {
        None => {
            println!("the case does not parse");
            2
        }
        Some(Ok(())) => {
            println!("the case passes");
            0
        }
        Some(Err(f)) => {
            println!("{}: {}", f.kind, f.msg);
            println!("VIOLATION property={} replay={}", c.id, file);
            1
        }
    }
}
