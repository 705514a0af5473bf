//! C10 (crashes of RocksDB databases), C11 (memory images) and C12 (failed and interrupted syncs).
use crate::driver::{no_known, part, Check, Part};
use crate::ensure;
use crate::fault::{self, Act};
use crate::gen::{self, chance, pick, Mix, Rand};
use crate::hist::{self, check_all, mentions, step, Seen};
use crate::model::Model;
use crate::store::*;
use crate::types::*;
use indradb::{Database, MemoryDatastore, RocksdbDatastore};
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use uuid::Uuid;

/// The operations as they are really issued (nothing undetermined, only satisfied bulk items), and the model
/// before the first and after each of them.
pub fn settle(s: &mut dyn Store, ops: &[Op], seen: &mut Seen) -> R<(Vec<Op>, Vec<Model>)> {
    settle_with(s, ops, seen, |_| {})
}

fn settle_with(s: &mut dyn Store, ops: &[Op], seen: &mut Seen, mut after: impl FnMut(&Model)) -> R<(Vec<Op>, Vec<Model>)> {
    let mut m = Model::new();
    let mut done = vec![];
    let mut models = vec![m.clone()];
    for op in ops {
        let op = match op {
            Op::Set(q, n, j) => Op::Set(gen::determined(q), n.clone(), j.clone()),
            Op::Delete(q) => Op::Delete(gen::determined(q)),
            Op::Bulk(items) => Op::Bulk(m.sanitise(items)),
            op => op.clone(),
        };
        step(s, &mut m, &op, seen)?;
        after(&m);
        done.push(op);
        models.push(m.clone());
    }
    Ok((done, models))
}

pub struct Look {
    x: hist::Mentions,
    names: Vec<String>,
    vals: Vec<J>,
}

impl Look {
    pub fn new(ops: &[Op]) -> Look {
        let x = mentions(ops);
        Look { names: x.names.iter().cloned().collect(), vals: x.vals.iter().take(8).cloned().collect(), x }
    }
    /// Whether the whole content is that of the model.
    pub fn same(&self, s: &mut dyn Store, m: &Model) -> R {
        check_all(s, m, &self.names, &self.vals)?;
        s.txn_probe(m, &self.x)
    }
    /// The first of the models from `from` on that the content agrees with.
    pub fn which(&self, s: &mut dyn Store, models: &[Model], from: usize) -> R<Option<usize>> {
        for (k, m) in models.iter().enumerate().skip(from) {
            match self.same(s, m) {
                Ok(()) => return Ok(Some(k)),
                Err(f) if f.kind == "panic" => return Err(f),
                Err(_) => {}
            }
        }
        Ok(None)
    }
}

/// Makes some operations big: long values and long item lists, so that one operation fills several blocks.
pub fn fatten(r: &mut Rand, ops: &mut [Op], max: usize) {
    for op in ops.iter_mut() {
        match op {
            Op::Set(_, _, v) if chance(r, 0.05) => *v = J(json!("y".repeat(r.gen_range(0..max)))),
            Op::Bulk(items) => {
                for i in items.iter_mut() {
                    if let Item::VP(_, _, v) | Item::EP(_, _, v) = i {
                        if chance(r, 0.03) {
                            *v = J(json!("z".repeat(r.gen_range(0..max))));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn some_history(r: &mut Rand, mix: &Mix, n: std::ops::Range<usize>) -> Vec<Op> {
    let ids = r.gen_range(3..7);
    let w = gen::world(r, ids);
    let n = r.gen_range(n);
    gen::history(r, &w, mix, n)
}

pub fn continue_after(s: &mut dyn Store, m: &Model, seed: u64) -> R {
    // a few more operations, so that what is left of the crash would get in their way
    let mut r = Rand::seed_from_u64(seed);
    let mut w = gen::world(&mut r, 4);
    w.ids.extend(m.v.keys().take(4));
    w.names.extend(m.idx.iter().take(2).cloned());
    let mut m = m.clone();
    for _ in 0..6 {
        let op = gen::op(&mut r, &w, &m, &Mix { bulk_max: 4, ..Mix::BASE });
        step(s, &mut m, &op, &mut Seen::default()).map_err(|f| Fail { kind: format!("after-{}", f.kind), msg: format!("after the crash: {}", f.msg) })?;
    }
    check_all(s, &m, &[], &[]).map_err(|f| Fail { kind: format!("after-{}", f.kind), msg: format!("after the crash and some more operations: {}", f.msg) })
}

fn newest_log(dir: &Path) -> Option<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir).ok()?.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "log")).collect();
    v.sort();
    v.pop()
}

// ---------------------------------------------------------------- C10: the log cut at any byte

struct LogCut {
    sync: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CutCase {
    ops: Vec<Op>,
    /// how each cut is chosen, and where
    cuts: Vec<(u8, u32)>,
    create: bool,
    how: u8,
}

impl Part for LogCut {
    type Case = CutCase;
    fn name(&self) -> &'static str {
        if self.sync {
            "log-cut-sync"
        } else {
            "log-cut"
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> CutCase {
        let mix = Mix { index: 2, bulk: 3, del: 4, vdel: 0.3, sync: self.sync as u32, bulk_max: *pick(r, &[8, 8, 60]), ..Mix::BASE };
        let mut ops = some_history(r, &mix, 6..40);
        fatten(r, &mut ops, 50000);
        CutCase { ops, cuts: (0..6).map(|_| (r.gen_range(0..9), r.gen_range(0..65536))).collect(), create: chance(r, 0.05), how: *pick(r, &[0, 0, 0, 1, 3, 4, 5]) }
    }
    fn run(&self, c: &CutCase, seen: &mut Seen) -> R {
        log_cut(c, seen)
    }
    fn nontrivial(&self, _c: &CutCase, seen: &Seen) -> bool {
        seen.has("cut-inside") && seen.has("torn-record")
    }
}

/// The same with large operations.
struct WideCut;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WideCutCase {
    n: super::wide::Numbers,
    cuts: Vec<(u8, u32)>,
}

impl Part for WideCut {
    type Case = WideCutCase;
    fn name(&self) -> &'static str {
        "log-cut-wide"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> WideCutCase {
        let mut n = super::wide::numbers(r, 1024);
        // every cut reads the whole graph back, each name for each element
        n.names = n.names.min(10);
        n.held = n.held.min(120);
        if n.held > 60 {
            n.vertices = n.vertices.min(150);
        }
        if chance(r, 0.7) {
            // one large insertion
            n.how |= 4;
        } else {
            for k in [&mut n.vertices, &mut n.edges, &mut n.star, &mut n.held, &mut n.values] {
                *k = (*k).min(200);
            }
        }
        WideCutCase { n, cuts: (0..8).map(|_| (r.gen_range(0..9), r.gen_range(0..65536))).collect() }
    }
    fn run(&self, c: &WideCutCase, seen: &mut Seen) -> R {
        log_cut(&CutCase { ops: c.n.writes(), cuts: c.cuts.clone(), create: false, how: 0 }, seen)
    }
    fn nontrivial(&self, _c: &WideCutCase, seen: &Seen) -> bool {
        seen.has("cut-inside") && seen.has("torn-record")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (40, 300)
    }
}

fn log_cut(c: &CutCase, seen: &mut Seen) -> R {
    let mut s = Rdb::with(c.create);
    let p = s.path();
    // (log, its length) after each operation
    let mut lens: Vec<(PathBuf, u64)> = vec![];
    let mut note = || {
        if let Some(l) = newest_log(&p) {
            let n = std::fs::metadata(&l).map(|m| m.len()).unwrap_or(0);
            lens.push((l, n));
        }
    };
    note();
    let (ops, models) = settle_with(&mut s, &c.ops, seen, |_| note())?;
    let look = Look::new(&ops);
    let snap = s.dir.path("snap");
    copy_dir(&p, &snap);
    s.db = None;
    let Some((log, len)) = lens.last().cloned() else { return Ok(()) };
    let ends: Vec<u64> = lens.iter().filter(|l| l.0 == log).map(|l| l.1).collect();
    let mut cuts: Vec<u64> = c
        .cuts
        .iter()
        .map(|(k, x)| match k {
            0..=3 => len * (*x as u64) / 65536,
            4..=7 => (ends[*x as usize % ends.len()] + *k as u64).saturating_sub(5),
            _ => (32768 * (len / 32768).min(1 + *x as u64 % 8) + (*x as u64 / 8) % 9).saturating_sub(4),
        })
        .map(|x| x.min(len))
        .collect();
    cuts.push(len);
    cuts.sort();
    cuts.dedup();
    let mut from = 0;
    for cut in cuts {
        let mut t = Rdb { db: None, dir: Scratch::new() };
        copy_dir(&snap, &t.path());
        let l = t.path().join(log.file_name().unwrap());
        let f = std::fs::OpenOptions::new().write(true).open(&l).unwrap();
        f.set_len(cut).unwrap();
        drop(f);
        if let Err(e) = t.open(c.how) {
            return fail("cut-open", format!("with its log cut at byte {cut} of {len} the database does not open: {e}"));
        }
        let k = if cut == len {
            match look.same(&mut t, models.last().unwrap()) {
                Ok(()) => models.len() - 1,
                Err(f) => return fail(&format!("lost-{}", f.kind), format!("all operations had returned and nothing was cut off, but {}", f.msg)),
            }
        } else {
            match look.which(&mut t, &models, from)? {
                Some(k) => k,
                None => {
                    // describe it by the operations the rest of the log should hold
                    let near = ends.iter().filter(|e| **e <= cut).count() + lens.iter().filter(|l| l.0 != log).count();
                    let near = near.saturating_sub(1).min(models.len() - 1);
                    let why = look.same(&mut t, &models[near]).err().map(|f| f.msg).unwrap_or_default();
                    return fail("torn", format!("with its log cut at byte {cut} of {len} (about after {near} of {} operations; next {:?}) the database is in no state it ever was in: {why}", ops.len(), ops.get(near)));
                }
            }
        };
        from = k;
        seen.tag(if k == 0 { "cut-to-nothing" } else if k == models.len() - 1 { "cut-nothing" } else { "cut-inside" });
        if cut > 0 && !ends.contains(&cut) {
            seen.tag("torn-record");
        }
        continue_after(&mut t, &models[k], cut)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C10: killed at any file call

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KillCase {
    ops: Vec<Op>,
    create: bool,
    how: u8,
    /// counted from when the database is open
    late: bool,
    at: u64,
    torn: bool,
    /// file calls at which reopening is killed in turn
    again: Vec<u64>,
}

pub fn sub(args: &[&str]) -> i32 {
    match args {
        ["rdb", dir, how, ops, at, torn, late] => sub_rdb(Path::new(dir), how.parse().unwrap(), ops, at.parse().unwrap(), *torn == "1", *late == "1"),
        ["threads", dir, how, ops, at, torn] => sub_threads(Path::new(dir), how.parse().unwrap(), ops, at.parse().unwrap(), *torn == "1"),
        ["mem", image, ops, at, torn, kinds] => sub_mem(Path::new(image), ops, at.parse().unwrap(), *torn == "1", kinds.parse().unwrap()),
        _ => 2,
    }
}

pub fn ack(b: u8) {
    unsafe {
        libc::syscall(libc::SYS_write, 1, &b as *const u8, 1usize);
    }
}

fn sub_rdb(dir: &Path, how: u8, ops: &str, at: i64, torn: bool, late: bool) -> i32 {
    let ops: Vec<Op> = serde_json::from_str(&std::fs::read_to_string(ops).unwrap()).unwrap();
    if !late {
        fault::kill_process_at(at, torn);
    }
    let mut r = Rdb { db: None, dir: Scratch(dir.to_path_buf()) };
    let opened = r.open(how);
    if let Err(e) = opened {
        eprintln!("{e}");
        std::mem::forget(r);
        return 7;
    }
    ack(b'O');
    if late {
        fault::kill_process_at(at, torn);
    }
    for op in &ops {
        match apply(r.db(), op) {
            Out::Err(..) | Out::Panic(_) => ack(b'E'),
            _ => ack(b'.'),
        }
    }
    r.db = None;
    ack(b'F');
    std::mem::forget(r);
    0
}

fn sub_mem(image: &Path, ops: &str, at: i64, torn: bool, kinds: u8) -> i32 {
    let ops: Vec<Op> = serde_json::from_str(&std::fs::read_to_string(ops).unwrap()).unwrap();
    let d = if image.exists() { MemoryDatastore::read_msgpack_db(image).expect("read the image") } else { MemoryDatastore::create_msgpack_db(image) };
    for op in &ops {
        apply(&d, op);
    }
    ack(b'O');
    fault::failing(kinds);
    fault::kill_process_at(at, torn);
    match d.sync() {
        Ok(()) => ack(b'F'),
        Err(_) => ack(b'E'),
    }
    0
}

/// Runs a subprocess; its acknowledgements and how it ended.
pub fn spawn(args: &[&str]) -> (String, Option<i32>, String) {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("sub").args(args).stdin(Stdio::null());
    let o = c.output().expect("start the subprocess");
    (String::from_utf8_lossy(&o.stdout).into_owned(), o.status.code(), String::from_utf8_lossy(&o.stderr).into_owned())
}

struct Kill;

impl Part for Kill {
    type Case = KillCase;
    fn name(&self) -> &'static str {
        "killed"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> KillCase {
        let create = chance(r, 0.15);
        let sync = chance(r, 0.4);
        let mix = Mix { index: 2, bulk: 3, del: 4, vdel: 0.3, sync: sync as u32, bulk_max: *pick(r, &[8, 40]), ..Mix::BASE };
        let mut ops = some_history(r, &mix, 4..40);
        fatten(r, &mut ops, 30000);
        let syncs = ops.iter().filter(|o| matches!(o, Op::Sync)).count() as u64;
        let late = chance(r, 0.75);
        let most = if late { 0 } else if create { 330 } else { 30 } + ops.len() as u64 + syncs * 60;
        let again = if chance(r, 0.4) { (0..r.gen_range(1..3)).map(|_| r.gen_range(0..60)).collect() } else { vec![] };
        KillCase { late, at: r.gen_range(0..most), ops, create, how: *pick(r, &[0, 0, 1, 3, 4]), torn: r.gen(), again }
    }
    fn run(&self, c: &KillCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let (ops, models) = {
            let mut s = Rdb::with(false);
            settle(&mut s, &c.ops, seen)?
        };
        let look = Look::new(&ops);
        let file = dir.path("ops.json");
        std::fs::write(&file, serde_json::to_string(&ops).unwrap()).unwrap();
        let t = Rdb { db: None, dir: Scratch(dir.path("t")) };
        std::fs::create_dir_all(&t.dir.0).unwrap();
        if !c.create {
            // an empty database, closed
            let mut e = Rdb::with(false);
            e.db = None;
            copy_dir(&e.path(), &t.path());
        }
        let d = t.dir.0.to_str().unwrap().to_string();
        let (acks, code, err) = spawn(&["rdb", &d, &c.how.to_string(), file.to_str().unwrap(), &c.at.to_string(), if c.torn { "1" } else { "0" }, if c.late { "1" } else { "0" }]);
        ensure!(code != Some(7), "open", "the database could not be opened: {err}");
        ensure!(code.is_none() || code == Some(0), "sub", "the subprocess ended with {code:?}: {err}");
        ensure!(!acks.contains('E'), "sub-error", "an operation failed before the crash: {acks}");
        let done = acks.chars().filter(|c| *c == '.').count();
        let killed = code.is_none();
        std::fs::write(&file, "[]").unwrap();
        for a in &c.again {
            let (_, code, err) = spawn(&["rdb", &d, &c.how.to_string(), file.to_str().unwrap(), &a.to_string(), "0", "0"]);
            ensure!(code != Some(7), "reopen", "killed after {done} operations and during reopening, the database cannot be opened any more: {err}");
            if code.is_none() {
                seen.tag("killed-reopening");
            }
        }
        let mut t = t;
        if let Err(e) = t.open(c.how) {
            return fail("reopen", format!("killed at file call {} after {done} operations, the database cannot be opened any more: {e}", c.at));
        }
        let hi = if killed { (done + 1).min(ops.len()) } else { done };
        let mut last = None;
        for k in (done..=hi).rev() {
            match look.same(&mut t, &models[k]) {
                Ok(()) => {
                    if killed && acks.contains('O') && done < ops.len() {
                        seen.tag("killed-inside");
                        if matches!(ops[done], Op::Sync) {
                            seen.tag("killed-in-sync");
                        }
                    }
                    if killed && !acks.contains('O') {
                        seen.tag(if c.create { "killed-creating" } else { "killed-opening" });
                    }
                    return continue_after(&mut t, &models[k], c.at);
                }
                Err(f) => last = Some(f),
            }
        }
        let f = last.unwrap();
        fail(&format!("state-{}", f.kind), format!("killed at file call {} after {done} of {} operations (next: {:?}): {}", c.at, ops.len(), ops.get(done), f.msg))
    }
    fn nontrivial(&self, _c: &KillCase, seen: &Seen) -> bool {
        seen.has("killed-inside") || seen.has("killed-creating") || seen.has("killed-reopening")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 600)
    }
}

fn sub_threads(dir: &Path, how: u8, ops: &str, at: i64, torn: bool) -> i32 {
    let ops: Vec<Vec<Op>> = serde_json::from_str(&std::fs::read_to_string(ops).unwrap()).unwrap();
    let mut r = Rdb { db: None, dir: Scratch(dir.to_path_buf()) };
    if let Err(e) = r.open(how) {
        eprintln!("{e}");
        std::mem::forget(r);
        return 7;
    }
    let start = std::sync::Barrier::new(ops.len());
    fault::kill_process_at(at, torn);
    let db = r.db();
    std::thread::scope(|s| {
        for (t, ops) in ops.iter().enumerate() {
            let start = &start;
            s.spawn(move || {
                start.wait();
                for op in ops {
                    match apply(db, op) {
                        Out::Err(..) | Out::Panic(_) => ack(b'E'),
                        _ => ack(b'a' + t as u8),
                    }
                }
            });
        }
    });
    // not closed: the process ends as it is
    unsafe {
        libc::kill(libc::getpid(), libc::SIGKILL);
    }
    0
}

/// Several threads, each with vertices of its own, are killed together. What each had acknowledged must be there,
/// and of what each was at all or nothing.
struct KillThreads;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ThreadsCase {
    ops: Vec<Vec<Op>>,
    how: u8,
    at: u64,
    torn: bool,
    again: Vec<u64>,
    seed: u64,
}

fn own_id(id: &Uuid, t: usize) -> Uuid {
    let mut b = *id.as_bytes();
    b[7] = b[7] & 0xfc | t as u8;
    Uuid::from_bytes(b)
}

impl Part for KillThreads {
    type Case = ThreadsCase;
    fn name(&self) -> &'static str {
        "killed-threads"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> ThreadsCase {
        let mix = Mix { index: 1, bulk: 3, del: 4, vdel: 0.3, sync: *pick(r, &[0, 0, 1]), bulk_max: *pick(r, &[8, 40]), ..Mix::BASE };
        let n = r.gen_range(2..5);
        let ids = r.gen_range(3..6);
        let base = gen::world(r, ids);
        let mut ops = vec![];
        for t in 0..n {
            let mut w = base.clone();
            w.ids.iter_mut().for_each(|id| *id = own_id(id, t));
            w.ids.sort();
            w.ids.dedup();
            let k = r.gen_range(5..60);
            let mut h = gen::history(r, &w, &mix, k);
            h.retain(|op| {
                let only_own = |q: &Q| matches!(crate::model::unroll(q).leaf, Q::SpecV(_) | Q::SpecE(_));
                let x = mentions(std::slice::from_ref(op));
                let own = |id: &Uuid| *id == own_id(id, t);
                x.ids.iter().all(own)
                    && x.edges.iter().all(|e| own(&e.o) && own(&e.i))
                    && match op {
                        Op::Set(q, ..) | Op::Delete(q) => only_own(q),
                        Op::CreateVT(_) => false,
                        _ => true,
                    }
            });
            fatten(r, &mut h, 20000);
            ops.push(h);
        }
        let total: usize = ops.iter().map(|o| o.len()).sum();
        let syncs = ops.iter().flatten().filter(|o| matches!(o, Op::Sync)).count();
        let again = if chance(r, 0.2) { vec![r.gen_range(0..60)] } else { vec![] };
        ThreadsCase { at: r.gen_range(0..(total + syncs * 60 + 2) as u64), ops, how: *pick(r, &[0, 0, 1, 3, 4]), torn: r.gen(), again, seed: r.gen() }
    }
    fn run(&self, c: &ThreadsCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let mut t = Rdb { db: None, dir: Scratch(dir.path("t")) };
        std::fs::create_dir_all(&t.dir.0).unwrap();
        let mut e = Rdb::with(false);
        e.db = None;
        copy_dir(&e.path(), &t.path());
        let (mut ops, mut models) = (vec![], vec![]);
        for o in &c.ops {
            let (o, m) = super::power::settle_from(&Model::new(), o)?;
            ops.push(o);
            models.push(m);
        }
        let look = Look::new(&ops.concat());
        let file = dir.path("ops.json");
        std::fs::write(&file, serde_json::to_string(&ops).unwrap()).unwrap();
        let d = t.dir.0.to_str().unwrap().to_string();
        let (acks, code, err) = spawn(&["threads", &d, &c.how.to_string(), file.to_str().unwrap(), &c.at.to_string(), if c.torn { "1" } else { "0" }]);
        ensure!(code != Some(7), "open", "the database could not be opened: {err}");
        ensure!(code.is_none(), "sub", "the subprocess ended with {code:?}: {err}");
        ensure!(!acks.contains('E'), "sub-error", "an operation failed before the crash: {acks}");
        std::fs::write(&file, "[]").unwrap();
        for a in &c.again {
            let (_, code, err) = spawn(&["rdb", &d, &c.how.to_string(), file.to_str().unwrap(), &a.to_string(), "0", "0"]);
            ensure!(code != Some(7), "reopen", "killed and killed again during reopening, the database cannot be opened any more: {err}");
        }
        if let Err(e) = t.open(c.how) {
            return fail("reopen", format!("killed after {acks:?}, the database cannot be opened any more: {e}"));
        }
        let done: Vec<usize> = (0..ops.len()).map(|t| acks.bytes().filter(|b| *b == b'a' + t as u8).count()).collect();
        let mut last = None;
        for which in 0..1u32 << ops.len() {
            let mut m = Model::new();
            let mut skip = false;
            for (t, k) in done.iter().enumerate() {
                let more = which >> t & 1 == 1;
                skip |= more && *k >= ops[t].len();
                let Some(x) = models[t].get(*k + more as usize) else { continue };
                m.v.extend(x.v.clone());
                m.e.extend(x.e.iter().cloned());
                m.vp.extend(x.vp.clone());
                m.ep.extend(x.ep.clone());
                m.idx.extend(x.idx.iter().cloned());
            }
            if skip {
                continue;
            }
            match look.same(&mut t, &m) {
                Ok(()) => {
                    let at_work = done.iter().zip(&ops).filter(|(k, o)| **k > 0 && **k < o.len()).count();
                    if at_work > 1 {
                        seen.tag("several-at-work");
                    }
                    if which != 0 {
                        seen.tag("unacknowledged");
                    }
                    return continue_after(&mut t, &m, c.seed);
                }
                Err(f) if f.kind == "panic" => return Err(f),
                Err(f) => last = Some(f),
            }
        }
        let f = last.unwrap();
        fail(&format!("state-{}", f.kind), format!("{} threads were killed after {done:?} operations of theirs ({acks:?}), and the content is no state this allows: {}", ops.len(), f.msg))
    }
    fn nontrivial(&self, _c: &ThreadsCase, seen: &Seen) -> bool {
        seen.has("several-at-work")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 300)
    }
}

/// Creation killed at every file call in turn.
struct Creation;

impl Part for Creation {
    type Case = KillCase;
    fn name(&self) -> &'static str {
        "creation"
    }
    fn gen(&self, r: &mut Rand, i: usize) -> KillCase {
        KillCase { late: false, ops: vec![], create: true, how: *pick(r, &[0, 1, 3]), at: (i / 2) as u64, torn: i % 2 == 1, again: if chance(r, 0.5) { vec![r.gen_range(0..200)] } else { vec![] } }
    }
    fn run(&self, c: &KillCase, seen: &mut Seen) -> R {
        Kill.run(c, seen)
    }
    fn nontrivial(&self, _c: &KillCase, seen: &Seen) -> bool {
        seen.has("killed-creating")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (30, 200)
    }
}

// ---------------------------------------------------------------- C10: the log cannot be written

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FullCase {
    ops: Vec<Op>,
    at: u64,
    torn: bool,
    errno: i32,
}

struct Full;

impl Part for Full {
    type Case = FullCase;
    fn name(&self) -> &'static str {
        "write-error"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> FullCase {
        let mix = Mix { index: 3, bulk: 3, del: 4, vdel: 0.3, bulk_max: *pick(r, &[8, 40]), ..Mix::BASE };
        let mut ops = some_history(r, &mix, 4..30);
        fatten(r, &mut ops, 30000);
        let at = r.gen_range(0..ops.len() as u64);
        FullCase { ops, at, torn: r.gen(), errno: *pick(r, &[libc::ENOSPC, libc::EIO]) }
    }
    fn run(&self, c: &FullCase, seen: &mut Seen) -> R {
        let (ops, models) = settle(&mut Rdb::with(false), &c.ops, seen)?;
        let look = Look::new(&ops);
        let mut s = Rdb::with(false);
        let mut at = c.at as i64;
        for (k, op) in ops.iter().enumerate() {
            let (out, calls, fired) = fault::with_fault(at, Act::Fail { errno: c.errno, torn: c.torn }, true, || apply(s.db(), op));
            if !fired {
                ensure!(!matches!(out, Out::Err(..) | Out::Panic(_)), "outcome", "{op:?} gave {out:?}");
                at -= calls;
                continue;
            }
            match &out {
                Out::Err(..) => {}
                Out::Panic(p) => return fail("panic", format!("{op:?} panicked when the log could not be written: {p}")),
                _ => return fail("swallowed", format!("{op:?} gave {out:?} although the log could not be written")),
            }
            seen.tag("failed-write");
            if matches!(op, Op::Index(n) if !models[k].idx.contains(n)) {
                seen.tag("failed-index");
            }
            // wholly there or wholly absent, at once and after reopening
            if let Err(f) = look.same(&mut s, &models[k]) {
                if look.same(&mut s, &models[k + 1]).is_err() {
                    return fail(&format!("live-{}", f.kind), format!("{op:?} failed because the log could not be written, and left something behind: {}", f.msg));
                }
            }
            if let Err(e) = s.open(0) {
                return fail("reopen", format!("{op:?} failed because the log could not be written, and the database cannot be opened any more: {e}"));
            }
            let got = look.which(&mut s, &models[..k + 2], k)?;
            match got {
                Some(g) => return continue_after(&mut s, &models[g], c.at),
                None => {
                    let why = look.same(&mut s, &models[k]).err().map(|f| f.msg).unwrap_or_default();
                    return fail("torn", format!("{op:?} failed because the log could not be written; after reopening it is neither there nor absent: {why}"));
                }
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &FullCase, seen: &Seen) -> bool {
        seen.has("failed-write")
    }
}

// ---------------------------------------------------------------- C11

/// A memory database with an image.
pub struct Img {
    pub db: Database<MemoryDatastore>,
    pub path: PathBuf,
}

impl Img {
    pub fn load(path: &Path) -> R<Img> {
        match guarded(|| MemoryDatastore::read_msgpack_db(path)) {
            Ok(Ok(db)) => Ok(Img { db, path: path.into() }),
            Ok(Err(e)) => fail("image-unreadable", format!("the image cannot be read: {e}")),
            Err(p) => fail("panic", format!("reading the image panicked: {p}")),
        }
    }
}

impl Store for Img {
    fn apply(&mut self, op: &Op) -> Out {
        apply(&self.db, op)
    }
    fn txn_probe(&mut self, m: &Model, x: &hist::Mentions) -> R {
        probe(&self.db, m, x)
    }
    fn name(&self) -> &'static str {
        "memory"
    }
}

struct Image;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ImageCase {
    /// Reopen: even goes back to the last image, odd only looks at it
    ops: Vec<Op>,
    /// an image of something else lies there to begin with
    stale: bool,
}

impl Part for Image {
    type Case = ImageCase;
    fn name(&self) -> &'static str {
        "image"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> ImageCase {
        let mix = Mix { index: 3, bulk: 3, del: 4, vdel: 0.3, cvt: 1, sync: 4, reopen: 4, get: 2, bulk_max: *pick(r, &[8, 40]), ..Mix::BASE };
        let mut ops = some_history(r, &mix, 8..60);
        fatten(r, &mut ops, 20000);
        ImageCase { ops, stale: chance(r, 0.2) }
    }
    fn run(&self, c: &ImageCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let path = dir.path("the image");
        if c.stale {
            let d = MemoryDatastore::create_msgpack_db(&path);
            apply(&d, &Op::CreateV(Uuid::from_u128(77), "stale".into()));
            apply(&d, &Op::Index("stale".into()));
            d.sync().map_err(|e| Fail { kind: "sync".into(), msg: e.to_string() })?;
        }
        let mut s = Img { db: MemoryDatastore::create_msgpack_db(&path), path: path.clone() };
        let look = Look::new(&c.ops);
        let mut m = Model::new();
        let mut at_sync: Option<(Model, Vec<u8>)> = None;
        for (k, op) in c.ops.iter().enumerate() {
            let at = |f: Fail| Fail { kind: f.kind, msg: format!("at operation {k} ({op:?}): {}", f.msg) };
            match op {
                Op::Reopen(how) => {
                    let Some((sm, bytes)) = &at_sync else {
                        ensure!(c.stale || !path.exists(), "image-early", "there is an image although the database was never synced");
                        continue;
                    };
                    let now = std::fs::read(&path).unwrap_or_default();
                    ensure!(now == *bytes, "image-changed", "at operation {k}: the image changed although the database was not synced");
                    let mut t = Img::load(&path).map_err(at)?;
                    look.same(&mut t, sm).map_err(|f| Fail { kind: format!("reload-{}", f.kind), msg: format!("at operation {k}: the image read back differs from what was synced: {}", f.msg) })?;
                    if how % 2 == 0 {
                        if *sm != m {
                            seen.tag("unsynced-lost");
                        }
                        s = t;
                        m = sm.clone();
                        seen.tag("reloaded");
                    }
                }
                Op::Sync => {
                    step(&mut s, &mut m, op, seen).map_err(at)?;
                    let bytes = match std::fs::read(&path) {
                        Ok(b) => b,
                        Err(e) => return fail("no-image", format!("after a sync there is no image: {e}")),
                    };
                    at_sync = Some((m.clone(), bytes));
                    let mut t = Img::load(&path).map_err(at)?;
                    look.same(&mut t, &m).map_err(|f| Fail { kind: format!("reload-{}", f.kind), msg: format!("at operation {k}: the image read back differs from what was synced: {}", f.msg) })?;
                    look.same(&mut s, &m).map_err(|f| Fail { kind: f.kind, msg: format!("at operation {k}: after a sync: {}", f.msg) })?;
                }
                op => {
                    step(&mut s, &mut m, op, seen).map_err(at)?;
                    if seen.has("reloaded") {
                        if !matches!(op, Op::Get(_)) {
                            look.same(&mut s, &m).map_err(|f| Fail { kind: format!("evolve-{}", f.kind), msg: format!("after operation {k} ({op:?}) on a reloaded database: {}", f.msg) })?;
                        }
                        seen.tag("evolved");
                    }
                }
            }
        }
        let left: Vec<_> = std::fs::read_dir(&dir.0).unwrap().flatten().map(|e| e.file_name()).collect();
        ensure!(left.len() <= 1, "left-over", "files were left beside the image: {left:?}");
        Ok(())
    }
    fn nontrivial(&self, _c: &ImageCase, seen: &Seen) -> bool {
        seen.has("reloaded") && seen.has("evolved") && (seen.has("set-indexed") || seen.has("index-after-data"))
    }
}

/// Databases without an image path, which must not write anything anywhere.
struct NoPath;

impl Part for NoPath {
    type Case = Vec<Op>;
    fn name(&self) -> &'static str {
        "no-path"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Vec<Op> {
        some_history(r, &Mix { sync: 4, index: 2, ..Mix::BASE }, 5..30)
    }
    fn threads(&self) -> usize {
        1
    }
    fn run(&self, c: &Vec<Op>, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let (cwd, tmp) = (dir.path("cwd"), dir.path("tmp"));
        std::fs::create_dir_all(&cwd).unwrap();
        std::fs::create_dir_all(&tmp).unwrap();
        let there = Surroundings::enter(&cwd, Some(&tmp));
        let r = hist::run(&mut Mem::new(), c, hist::Depth { every: false, txn: true }, seen);
        drop(there);
        r?;
        for d in [&cwd, &tmp] {
            let n = std::fs::read_dir(d).unwrap().count();
            ensure!(n == 0, "wrote", "a database without an image path wrote {n} files into {d:?}");
        }
        Ok(())
    }
    fn nontrivial(&self, c: &Vec<Op>, seen: &Seen) -> bool {
        seen.has("sync") && c.len() > 5
    }
}

/// The process's working directory and temporary directory, while it lives.
struct Surroundings(PathBuf, Option<std::ffi::OsString>);

impl Surroundings {
    fn enter(cwd: &Path, tmp: Option<&Path>) -> Surroundings {
        let s = Surroundings(std::env::current_dir().unwrap_or_else(|_| "/".into()), std::env::var_os("TMPDIR"));
        std::env::set_current_dir(cwd).unwrap();
        match tmp {
            Some(t) => std::env::set_var("TMPDIR", t),
            None => std::env::remove_var("TMPDIR"),
        }
        s
    }
}

impl Drop for Surroundings {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
        match &self.1 {
            Some(t) => std::env::set_var("TMPDIR", t),
            None => std::env::remove_var("TMPDIR"),
        }
    }
}

/// A larger database in an image.
struct BigImage;

impl Part for BigImage {
    type Case = super::graph::BigCase;
    fn name(&self) -> &'static str {
        "large"
    }
    fn gen(&self, r: &mut Rand, i: usize) -> Self::Case {
        super::graph::Big { kind: super::graph::Kind::Mem, max: 1500 }.gen(r, i)
    }
    fn run(&self, c: &Self::Case, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let path = dir.path("i");
        let mut s = Img { db: MemoryDatastore::create_msgpack_db(&path), path: path.clone() };
        let mut m = Model::new();
        let (items, _) = c.build();
        step(&mut s, &mut m, &Op::Index("p".into()), seen)?;
        for ch in items.chunks(items.len() / 3 + 1) {
            step(&mut s, &mut m, &Op::Bulk(ch.to_vec()), seen)?;
            step(&mut s, &mut m, &Op::Sync, seen)?;
            s = Img::load(&path)?;
            check_all(&mut s, &m, &["w".into()], &[])?;
        }
        seen.tag("large");
        step(&mut s, &mut m, &Op::Delete(Q::VVal("p".into(), J(json!(1)))), seen)?;
        step(&mut s, &mut m, &Op::Index("w".into()), seen)?;
        step(&mut s, &mut m, &Op::Sync, seen)?;
        s = Img::load(&path)?;
        check_all(&mut s, &m, &["w".into()], &[])
    }
    fn nontrivial(&self, _c: &Self::Case, seen: &Seen) -> bool {
        seen.has("large")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (40, 200)
    }
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SyncCase {
    before: Vec<Op>,
    after: Vec<Op>,
    /// a first image exists
    synced: bool,
    at: u64,
    torn: bool,
    errno: i32,
    pad: usize,
    /// which kinds of file calls fail
    #[serde(default = "every")]
    kinds: u8,
}

fn every() -> u8 {
    fault::EVERY
}

fn sync_case(r: &mut Rand, _i: usize) -> SyncCase {
    let ids = r.gen_range(2..6);
    let w = gen::world(r, ids);
    let mix = Mix { index: 2, ..Mix::BASE };
    let n = r.gen_range(0..15);
    let before = gen::history(r, &w, &mix, n);
    let n = r.gen_range(1..10);
    let after = gen::history(r, &w, &mix, n);
    let pad = *pick(r, &[0usize, 0, 100, 8000, 8192, 20000, 70000, 300000]);
    let most = *pick(r, &[2u64, 4, 12, 50]);
    SyncCase { before, after, synced: chance(r, 0.85), at: r.gen_range(0..most), torn: r.gen(), errno: *pick(r, &[libc::ENOSPC, libc::EIO, libc::EFBIG, libc::EDQUOT, 0, libc::EINTR]), pad, kinds: if chance(r, 0.5) { fault::EVERY } else { r.gen_range(1..fault::EVERY) } }
}

pub fn pad_op(pad: usize) -> Vec<Op> {
    // something long, so that the image is written in several pieces
    if pad == 0 {
        return vec![];
    }
    let id = Uuid::from_u128(0xfeed);
    vec![Op::CreateV(id, "pad".into()), Op::Set(Q::SpecV(vec![id]), "pad".into(), J(json!("p".repeat(pad))))]
}

struct WriteFault;

impl Part for WriteFault {
    type Case = SyncCase;
    fn name(&self) -> &'static str {
        "write-fault"
    }
    fn gen(&self, r: &mut Rand, i: usize) -> SyncCase {
        sync_case(r, i)
    }
    fn run(&self, c: &SyncCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let path = dir.path("image");
        let mut s = Img { db: MemoryDatastore::create_msgpack_db(&path), path: path.clone() };
        let mut before = c.before.clone();
        before.extend(pad_op(c.pad));
        let all: Vec<Op> = before.iter().chain(&c.after).cloned().collect();
        let look = Look::new(&all);
        let mut m = Model::new();
        for op in &before {
            step(&mut s, &mut m, op, seen)?;
        }
        let m0 = m.clone();
        let mut old = None;
        if c.synced {
            step(&mut s, &mut m, &Op::Sync, seen)?;
            old = Some(std::fs::read(&path).map_err(|e| Fail { kind: "no-image".into(), msg: e.to_string() })?);
        }
        for op in &c.after {
            step(&mut s, &mut m, op, seen)?;
        }
        let act = if c.errno == 0 { Act::Short } else { Act::Fail { errno: c.errno, torn: c.torn } };
        // an interrupted call is not a failure, and is tried again
        let act = if c.errno == libc::EINTR { Act::Short } else { act };
        let (out, calls, fired) = fault::with_fault_of(c.kinds, c.at as i64, act, false, || s.apply(&Op::Sync));
        let now = std::fs::read(&path).ok();
        match &out {
            Out::Unit => {
                let mut t = Img::load(&path).map_err(|f| Fail { kind: "bad-success".into(), msg: format!("sync reported success (fault at call {} of {calls}: {fired}), but {}", c.at, f.msg) })?;
                look.same(&mut t, &m).map_err(|f| Fail { kind: "bad-success".into(), msg: format!("sync reported success (fault at call {} of {calls}: {fired}), but the image holds something else: {}", c.at, f.msg) })?;
                if fired {
                    seen.tag("fault-survived");
                }
            }
            Out::Err(_, e) => {
                ensure!(fired && !matches!(act, Act::Short), "refused", "sync failed for no reason: {e}");
                ensure!(now == old, "image-damaged", "sync failed at file call {} ({e}), and the image, which was {}, is now {}", c.at, show(&old), show(&now));
                if old.is_some() {
                    let mut t = Img::load(&path).map_err(|f| Fail { kind: "image-damaged".into(), msg: f.msg })?;
                    look.same(&mut t, &m0).map_err(|f| Fail { kind: "image-damaged".into(), msg: format!("sync failed ({e}), and the old image now holds something else: {}", f.msg) })?;
                }
                seen.tag("failed-sync");
            }
            o => return fail("panic", format!("a sync whose file call {} failed gave {o:?}", c.at)),
        }
        // the database is none the worse, and syncs when the fault is gone
        look.same(&mut s, &m).map_err(|f| Fail { kind: format!("after-{}", f.kind), msg: format!("after a failed sync: {}", f.msg) })?;
        step(&mut s, &mut m, &Op::Sync, seen).map_err(|f| Fail { kind: "no-recovery".into(), msg: format!("after a failed sync: {}", f.msg) })?;
        let mut t = Img::load(&path)?;
        look.same(&mut t, &m)
    }
    fn nontrivial(&self, _c: &SyncCase, seen: &Seen) -> bool {
        seen.has("failed-sync") || seen.has("fault-survived")
    }
}

fn show(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "absent".into(),
        Some(b) => format!("{} bytes", b.len()),
    }
}

struct SyncKill;

impl Part for SyncKill {
    type Case = SyncCase;
    fn name(&self) -> &'static str {
        "killed"
    }
    fn gen(&self, r: &mut Rand, i: usize) -> SyncCase {
        sync_case(r, i)
    }
    fn run(&self, c: &SyncCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let idir = dir.path("d");
        std::fs::create_dir_all(&idir).unwrap();
        let path = idir.join("image");
        let mut s = Img { db: MemoryDatastore::create_msgpack_db(&path), path: path.clone() };
        let mut before = c.before.clone();
        before.extend(pad_op(c.pad));
        let mut m = Model::new();
        for op in &before {
            step(&mut s, &mut m, op, seen)?;
        }
        if c.synced {
            step(&mut s, &mut m, &Op::Sync, seen)?;
        } else {
            s = Img { db: MemoryDatastore::create_msgpack_db(&path), path: path.clone() };
            m = Model::new();
        }
        let m0 = m.clone();
        // what the subprocess does, done here first to know what comes out
        let mut ops = vec![];
        for op in &c.after {
            let op = match op {
                Op::Set(q, n, j) => Op::Set(gen::determined(q), n.clone(), j.clone()),
                Op::Delete(q) => Op::Delete(gen::determined(q)),
                Op::Bulk(items) => Op::Bulk(m.sanitise(items)),
                op => op.clone(),
            };
            step(&mut s, &mut m, &op, seen)?;
            ops.push(op);
        }
        let all: Vec<Op> = before.iter().chain(&ops).cloned().collect();
        let look = Look::new(&all);
        let old = std::fs::read(&path).ok();
        let file = dir.path("ops.json");
        std::fs::write(&file, serde_json::to_string(&ops).unwrap()).unwrap();
        let kinds = if c.kinds == fault::EVERY { 0 } else { c.kinds };
        let (acks, code, err) = spawn(&["mem", path.to_str().unwrap(), file.to_str().unwrap(), &c.at.to_string(), if c.torn { "1" } else { "0" }, &kinds.to_string()]);
        ensure!(code.is_none() || code == Some(0), "sub", "the subprocess ended with {code:?}: {err}");
        if acks.contains('E') {
            ensure!(kinds != 0, "sub-error", "the sync failed: {err}");
            let now = std::fs::read(&path).ok();
            ensure!(now == old, "image-damaged", "sync failed where calls of the kinds {kinds} fail, and the image, which was {}, is now {}", show(&old), show(&now));
            seen.tag("failed-sync");
            return Ok(());
        }
        if code.is_none() {
            seen.tag("killed");
        }
        let now = std::fs::read(&path).ok();
        if now == old && !acks.contains('F') {
            return Ok(());
        }
        ensure!(now.is_some(), "image-gone", "killed at file call {} of a sync, and the image is gone", c.at);
        let mut t = Img::load(&path).map_err(|f| Fail { kind: "image-damaged".into(), msg: format!("killed at file call {} of a sync (image was {}, is {}): {}", c.at, show(&old), show(&now), f.msg) })?;
        look.same(&mut t, &m).map_err(|f| Fail { kind: "image-damaged".into(), msg: format!("killed at file call {} of a sync, the image is neither the old nor the new one: {}", c.at, f.msg) })?;
        let _ = m0;
        Ok(())
    }
    fn nontrivial(&self, _c: &SyncCase, seen: &Seen) -> bool {
        seen.has("killed") || seen.has("failed-sync")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (40, 400)
    }
}

/// The image watched while it is being replaced over and over.
struct Watched;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WatchCase {
    syncs: usize,
    per: usize,
    pad: usize,
    watchers: usize,
}

impl Part for Watched {
    type Case = WatchCase;
    fn name(&self) -> &'static str {
        "watched"
    }
    fn threads(&self) -> usize {
        2
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> WatchCase {
        WatchCase { syncs: r.gen_range(5..40), per: r.gen_range(1..60), pad: *pick(r, &[10, 1000, 20000, 400000]), watchers: r.gen_range(1..4) }
    }
    fn run(&self, c: &WatchCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let path = dir.path("image");
        let d = MemoryDatastore::create_msgpack_db(&path);
        let mark = Uuid::from_u128(1);
        let q = |q: Q| query(&q);
        let put = |k: usize| -> indradb::Result<()> {
            for j in 0..c.per {
                d.create_vertex(&vertex(Uuid::from_u128((k * c.per + j + 2) as u128), "v"))?;
            }
            d.set_properties(q(Q::SpecV(vec![mark])), ident("k"), &json(&J(json!([k, "x".repeat(c.pad)]))))?;
            d.sync()
        };
        let e = |e: indradb::Error| Fail { kind: "sync".into(), msg: e.to_string() };
        d.create_vertex(&vertex(mark, "mark")).map_err(e)?;
        put(0).map_err(e)?;
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let changes = AtomicU64::new(0);
        let watch = || -> R {
            let mut prev = 0;
            while !stop.load(Ordering::SeqCst) {
                let least = done.load(Ordering::SeqCst);
                let db = match guarded(|| MemoryDatastore::read_msgpack_db(&path)) {
                    Ok(Ok(db)) => db,
                    Ok(Err(e)) => return fail("image-incomplete", format!("the image could not be read while a sync was going on: {e}")),
                    Err(p) => return fail("panic", p),
                };
                let n = match db.get(q(Q::Count(Box::new(Q::AllV)))).as_deref() {
                    Ok([indradb::QueryOutputValue::Count(n)]) => *n,
                    o => return fail("image-incomplete", format!("{o:?}")),
                };
                let k = match db.get(q(Q::Props { inner: Box::new(Q::SpecV(vec![mark])), name: None })).as_deref() {
                    Ok([indradb::QueryOutputValue::VertexProperties(p)]) if p.len() == 1 => p[0].props[0].value[0].as_u64().unwrap_or(u64::MAX),
                    o => return fail("image-incomplete", format!("{o:?}")),
                };
                ensure!(n == (k + 1) * c.per as u64 + 1, "image-mixed", "an image with marker {k} has {n} vertices");
                ensure!(k >= least && k >= prev, "image-old", "sync {least} had returned, but the image read afterwards is that of sync {k} (before: {prev})");
                if k != prev {
                    changes.fetch_add(1, Ordering::SeqCst);
                }
                prev = k;
            }
            Ok(())
        };
        let r = std::thread::scope(|sc| {
            let ws: Vec<_> = (0..c.watchers).map(|_| sc.spawn(watch)).collect();
            let mut r = Ok(());
            for k in 1..=c.syncs {
                if let Err(x) = put(k).map_err(e) {
                    r = Err(x);
                    break;
                }
                done.store(k as u64, Ordering::SeqCst);
            }
            stop.store(true, Ordering::SeqCst);
            for w in ws {
                let x = w.join().unwrap_or_else(|_| fail("panic", "a watcher panicked"));
                if r.is_ok() {
                    r = x;
                }
            }
            r
        });
        r?;
        if changes.load(Ordering::SeqCst) > 1 {
            seen.tag("saw-changes");
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &WatchCase, seen: &Seen) -> bool {
        seen.has("saw-changes")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (20, 100)
    }
}

/// Images in all kinds of places.
struct Places;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PlaceCase {
    ops: Vec<Op>,
    base: u8,
    name: String,
    nested: bool,
    relative: u8,
    tmp: u8,
}

impl Part for Places {
    type Case = PlaceCase;
    fn name(&self) -> &'static str {
        "places"
    }
    fn threads(&self) -> usize {
        1
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> PlaceCase {
        PlaceCase {
            ops: some_history(r, &Mix { index: 2, ..Mix::BASE }, 1..12),
            base: r.gen(),
            name: (*pick(r, &["image", "i", "ïmage with spaces", ".hidden", "image.msgpack", "画像", "-", "~"])).into(),
            nested: r.gen(),
            relative: r.gen_range(0..3),
            tmp: r.gen_range(0..4),
        }
    }
    fn run(&self, c: &PlaceCase, seen: &mut Seen) -> R {
        let other = PathBuf::from("/tmp").join(scratch_root().file_name().unwrap());
        std::fs::create_dir_all(&other).unwrap();
        let shm = Scratch::new();
        let disk = Scratch(other.join(shm.0.file_name().unwrap()));
        std::fs::create_dir_all(&disk.0).unwrap();
        let base = if c.base % 2 == 0 { &shm.0 } else { &disk.0 };
        let dir = if c.nested { base.join("a b").join("ç") } else { base.clone() };
        std::fs::create_dir_all(&dir).unwrap();
        let tmp = match c.tmp {
            0 => Some(shm.path("tmp")),
            1 => Some(disk.path("tmp")),
            2 => Some(PathBuf::from("/nonexistent/indradb-verif")),
            _ => None,
        };
        if let (Some(t), 0 | 1) = (&tmp, c.tmp) {
            std::fs::create_dir_all(t).unwrap();
        }
        let (cwd, path) = match c.relative {
            0 => (PathBuf::from("/"), dir.join(&c.name)),
            1 => (dir.clone(), PathBuf::from(&c.name)),
            _ => (base.clone(), if c.nested { PathBuf::from("a b").join("ç").join(&c.name) } else { PathBuf::from(".").join(&c.name) }),
        };
        let full = dir.join(&c.name);
        let there = Surroundings::enter(&cwd, tmp.as_deref());
        let r = (|| -> R {
            let mut m = Model::new();
            let mut s = Img { db: MemoryDatastore::create_msgpack_db(&path), path: path.clone() };
            for half in c.ops.chunks(c.ops.len() / 2 + 1) {
                for op in half {
                    step(&mut s, &mut m, op, seen)?;
                }
                step(&mut s, &mut m, &Op::Sync, seen)?;
                ensure!(full.is_file(), "no-image", "the image {full:?} is not there");
                s = Img::load(&path)?;
                check_all(&mut s, &m, &[], &[])?;
            }
            Ok(())
        })();
        drop(there);
        let l = std::fs::read_dir(&dir).unwrap().flatten().filter(|e| e.path().is_file()).count();
        r?;
        ensure!(l == 1, "left-over", "{l} files lie where only the image should be");
        if (c.base % 2 == 0) != (c.tmp == 0) {
            seen.tag("other-file-system");
        }
        seen.tag("place");
        Ok(())
    }
    fn nontrivial(&self, c: &PlaceCase, seen: &Seen) -> bool {
        seen.has("place") && !c.ops.is_empty() && (seen.has("other-file-system") || c.relative > 0)
    }
}

/// Truncated and corrupted images.
struct Damaged;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DamageCase {
    ops: Vec<Op>,
    cut: Option<u32>,
    edits: Vec<(u8, u32, u8)>,
}

/// Damages some bytes; positions are fractions of the length.
fn damage(mut b: Vec<u8>, cut: Option<u32>, edits: &[(u8, u32, u8)]) -> Vec<u8> {
    for (k, at, x) in edits {
        if b.is_empty() {
            break;
        }
        let p = (*at as u64 * b.len() as u64 / (1 << 16)) as usize;
        match k % 7 {
            0 => b[p] = *x,
            1 => b[p] ^= 1 << (x % 8),
            2 => b.insert(p, *x),
            3 => {
                b.remove(p);
            }
            4 => {
                let e = (p + *x as usize).min(b.len());
                let piece = b[p..e].to_vec();
                b.splice(p..p, piece);
            }
            5 => b[p] = [0x90, 0x9f, 0xdc, 0xdd, 0x80, 0x8f, 0xde, 0xdf, 0xc4, 0xc6, 0xd9, 0xdb, 0xc0, 0xc1, 0xcf, 0xd3, 0xcb, 0xff, 0x91, 0xc8][*x as usize % 20],
            _ => {
                let e = (p + 4).min(b.len());
                b[p..e].fill(*x);
            }
        }
    }
    if let Some(c) = cut {
        let n = (c as u64 * (b.len() as u64 + 1) / (1 << 16)) as usize;
        b.truncate(n);
    }
    b
}

impl Part for Damaged {
    type Case = DamageCase;
    fn name(&self) -> &'static str {
        "damaged-image"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> DamageCase {
        let ops = some_history(r, &Mix { index: 2, ..Mix::BASE }, 3..25);
        let cut = if chance(r, 0.3) { Some(r.gen_range(0..65536)) } else { None };
        let n = if cut.is_some() && chance(r, 0.7) { 0 } else { r.gen_range(1..4) };
        DamageCase { ops, cut, edits: (0..n).map(|_| (r.gen(), r.gen_range(0..65536), r.gen())).collect() }
    }
    fn run(&self, c: &DamageCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let path = dir.path("image");
        let mut s = Img { db: MemoryDatastore::create_msgpack_db(&path), path: path.clone() };
        settle(&mut s, &c.ops, seen)?;
        let look = Look::new(&c.ops);
        ensure!(matches!(s.apply(&Op::Sync), Out::Unit), "sync", "the sync failed");
        let good = std::fs::read(&path).unwrap();
        let bad = damage(good.clone(), c.cut, &c.edits);
        std::fs::write(&path, &bad).unwrap();
        let mut t = match guarded(|| MemoryDatastore::read_msgpack_db(&path)) {
            Err(p) => return fail("panic", format!("reading a damaged image panicked: {p}")),
            Ok(Err(_)) => {
                seen.tag("refused-image");
                return Ok(());
            }
            Ok(Ok(db)) => Img { db, path: path.clone() },
        };
        if bad != good {
            seen.tag("damaged-but-read");
            // a cut image must be recognised; it cannot be complete
            ensure!(!(c.edits.is_empty() && bad.len() < good.len()), "truncated-read", "an image cut from {} to {} bytes was read without an error", good.len(), bad.len());
        }
        let b = Box::new;
        let mut qs = vec![
            Q::AllV,
            Q::AllE,
            Q::Count(b(Q::AllV)),
            Q::Count(b(Q::AllE)),
            Q::Props { inner: b(Q::AllV), name: None },
            Q::Props { inner: b(Q::AllE), name: None },
            Q::RangeV { limit: 3, t: None, start: None },
        ];
        for dir in [Dir::Out, Dir::In] {
            qs.push(Q::Pipe { inner: b(Q::AllV), dir, limit: u32::MAX, t: None });
            qs.push(Q::Pipe { inner: b(Q::AllE), dir, limit: u32::MAX, t: None });
        }
        for n in &look.names {
            qs.extend([Q::VProp(n.clone()), Q::EProp(n.clone())]);
            qs.extend(look.vals.iter().take(3).map(|v| Q::VVal(n.clone(), v.clone())));
        }
        for round in 0..2 {
            for q in &qs {
                match t.apply(&Op::Get(q.clone())) {
                    Out::Outs(_) | Out::Err(EK::NotIndexed, _) => {}
                    o => return fail("unusable", format!("on the database read from a damaged image {q:?} gave {o:?}")),
                }
            }
            if round == 0 {
                for op in c.ops.iter().filter(|o| !matches!(o, Op::Get(_))).take(12) {
                    match t.apply(op) {
                        Out::Panic(p) => return fail("unusable", format!("on the database read from a damaged image {op:?} panicked: {p}")),
                        Out::Err(EK::NotIndexed | EK::OpOnQuery, _) => {}
                        Out::Err(k, e) => return fail("unusable", format!("on the database read from a damaged image {op:?} failed: {k:?} {e}")),
                        _ => {}
                    }
                }
                ensure!(matches!(t.apply(&Op::Sync), Out::Unit), "unusable", "the database read from a damaged image does not sync");
                t = Img::load(&path).map_err(|f| Fail { kind: "unusable".into(), msg: format!("what was read from a damaged image and synced again: {}", f.msg) })?;
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &DamageCase, seen: &Seen) -> bool {
        seen.has("refused-image") || seen.has("damaged-but-read")
    }
}

/// The known findings of C11 that (still) fail.
fn c11_known() -> Vec<(String, String)> {
    let dir = Scratch::new();
    let path = dir.path("image");
    let d = MemoryDatastore::create_msgpack_db(&path);
    let mut j = Value::Null;
    for _ in 0..1100 {
        j = Value::Array(vec![j]);
    }
    let id = Uuid::from_u128(1);
    apply(&d, &Op::CreateV(id, "a".into()));
    apply(&d, &Op::Set(Q::SpecV(vec![id]), "x".into(), J(j)));
    if d.sync().is_err() {
        return vec![];
    }
    match MemoryDatastore::read_msgpack_db(&path) {
        Ok(_) => vec![],
        Err(e) => vec![("nesting-1021".into(), format!("a database with a JSON value nested more than 1021 deep syncs without an error, and its image cannot be read: {e}"))],
    }
}

pub fn checks() -> Vec<Check> {
    let _: Option<(Value, RocksdbDatastore)> = None;
    vec![
        Check {
            id: "C10",
            level: "fault_enumeration",
            rule: "the log was cut inside the history and inside a record; or the process was killed inside an operation, a creation or a reopening, or while several threads were at work; or a log write failed",
            assumptions: &[
                "a killed process loses nothing it handed to the operating system",
                "what a crash of the machine loses is the tail of the newest log file",
                "RocksDB orders its own files correctly",
            ],
            parts: vec![part(LogCut { sync: false }, 500, 20000), part(LogCut { sync: true }, 200, 8000), part(WideCut, 60, 3000), part(Kill, 1000, 30000), part(KillThreads, 350, 20000), part(Creation, 360, 1500), part(Full, 2000, 60000)],
            dbg_share: 0.0,
            known: no_known,
        },
        Check {
            id: "C11",
            level: "exploration",
            rule: "the database was reloaded from an image and evolved further, with an indexed property involved",
            assumptions: &["JSON values nested at most 120 deep (known finding nesting-1021)"],
            parts: vec![part(Image, 15000, 400000), part(NoPath, 4000, 50000), part(BigImage, 400, 10000), part(super::wide::Wide { at: super::wide::At::Image, max: 2000 }, 400, 6000), part(super::long::Long { at: super::wide::At::Image, mix: gen::Mix::BASE, max: 66000 }, 16, 300), part(super::huge::Huge { at: super::wide::At::Image, max: 140000 }, 5, 60)],
            dbg_share: 0.3,
            known: c11_known,
        },
        Check {
            id: "C12",
            level: "fault_enumeration",
            rule: "a file call of a sync failed or was the process's last; or the image changed while it was watched; or the image lay apart from the temporary directory; or a damaged image was refused or read",
            assumptions: &["file calls fail and end at the C library's interface", "a killed process loses nothing it handed to the operating system"],
            parts: vec![part(WriteFault, 20000, 400000), part(SyncKill, 4000, 60000), part(Watched, 400, 5000), part(Places, 3000, 40000), part(Damaged, 100000, 3000000)],
            dbg_share: 0.0,
            known: no_known,
        },
    ]
}
