//! C23: what was synced survives a failure of the power.
//!
//! A subprocess runs operations and syncs; every write and every fsync of it is accounted for (`fault.rs`), and at
//! some file call the power fails. What is left on the disk is what had been fsynced, plus (file by file, by
//! chance) some, none or all of what was written after that. Names of files are taken to be on the disk at once.
use super::durable::*;
use crate::driver::{no_known, part, Check, Part};
use crate::ensure;
use crate::fault;
use crate::gen::{self, chance, pick, Mix, Rand};
use crate::hist::{step, Seen};
use crate::model::Model;
use crate::store::*;
use crate::types::*;
use indradb::MemoryDatastore;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

pub fn sub(args: &[&str]) -> i32 {
    match args {
        ["rdb", dir, how, ops, at, torn, report] => sub_rdb(Path::new(dir), how.parse().unwrap(), ops, at.parse().unwrap(), *torn == "1", Path::new(report)),
        ["mem", image, ops, at, torn, report] => sub_mem(Path::new(image), ops, at.parse().unwrap(), *torn == "1", Path::new(report)),
        _ => 2,
    }
}

fn read_ops(ops: &str) -> Vec<Op> {
    serde_json::from_str(&std::fs::read_to_string(ops).unwrap()).unwrap()
}

fn sub_rdb(dir: &Path, how: u8, ops: &str, at: i64, torn: bool, report: &Path) -> i32 {
    let ops = read_ops(ops);
    fault::track_power(report);
    let mut r = Rdb { db: None, dir: Scratch(dir.to_path_buf()) };
    if let Err(e) = r.open(how) {
        eprintln!("{e}");
        std::mem::forget(r);
        return 7;
    }
    ack(b'O');
    fault::kill_process_at(at, torn);
    for op in &ops {
        match r.apply(op) {
            Out::Err(EK::NotIndexed, _) => ack(b'.'),
            Out::Err(..) | Out::Panic(_) => ack(b'E'),
            _ => ack(b'.'),
        }
    }
    fault::power_off()
}

fn sub_mem(image: &Path, ops: &str, at: i64, torn: bool, report: &Path) -> i32 {
    let ops = read_ops(ops);
    let d = if image.exists() { MemoryDatastore::read_msgpack_db(image).expect("read the image") } else { MemoryDatastore::create_msgpack_db(image) };
    fault::track_power(report);
    fault::kill_process_at(at, torn);
    for op in &ops {
        match apply(&d, op) {
            Out::Err(EK::NotIndexed, _) => ack(b'.'),
            Out::Err(..) | Out::Panic(_) => ack(b'E'),
            _ => ack(b'.'),
        }
    }
    fault::power_off()
}

fn files(dir: &Path) -> Vec<(PathBuf, std::fs::Metadata)> {
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().filter_map(|e| Some((e.path(), e.metadata().ok()?))).filter(|x| x.1.is_file()).collect()).unwrap_or_default();
    v.sort_by(|a: &(PathBuf, _), b| a.0.cmp(&b.0));
    v
}

type Lengths = HashMap<(u64, u64), u64>;

fn lengths(dir: &Path) -> Lengths {
    files(dir).into_iter().map(|(_, m)| ((m.dev(), m.ino()), m.len())).collect()
}

/// Cuts every file in the directory down to what the failure left of it. `was` is what lay there, on the disk,
/// before. Returns how many bytes were lost.
fn fail_power(dir: &Path, was: &Lengths, report: &Path, mode: u8, r: &mut Rand) -> R<u64> {
    let mut on_disk = was.clone();
    for l in std::fs::read_to_string(report).map_err(|e| Fail { kind: "report".into(), msg: e.to_string() })?.lines() {
        let x: Vec<i64> = l.split(' ').map(|n| n.parse().unwrap()).collect();
        on_disk.insert((x[0] as u64, x[1] as u64), x[2].max(0) as u64);
    }
    let mut lost = 0;
    for (p, m) in files(dir) {
        let sure = on_disk.get(&(m.dev(), m.ino())).copied().unwrap_or(0).min(m.len());
        let n = match mode {
            0 => sure,
            1 => r.gen_range(sure..=m.len()),
            _ => *pick(r, &[sure, sure, m.len(), (sure + m.len()) / 2]),
        };
        if n < m.len() && !p.ends_with("LOG") {
            lost += m.len() - n;
            std::fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(n).unwrap();
        }
    }
    Ok(lost)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// one list per time the machine runs
    ops: Vec<Vec<Op>>,
    at: Vec<u64>,
    torn: bool,
    mode: u8,
    seed: u64,
    how: u8,
    create: bool,
    pad: usize,
}

fn case(r: &mut Rand, mem: bool) -> Case {
    let ids = r.gen_range(3..7);
    let w = gen::world(r, ids);
    let mix = Mix { index: 2, bulk: 3, del: 4, vdel: 0.3, sync: *pick(r, &[0, 1, 3, 8]), bulk_max: *pick(r, &[8, 40]), ..Mix::BASE };
    let n = r.gen_range(3..30);
    let mut all = gen::history(r, &w, &mix, n);
    fatten(r, &mut all, 30000);
    let runs = *pick(r, &[1usize, 1, 2, 3]);
    let per = all.len().div_ceil(runs).max(1);
    let mut ops: Vec<Vec<Op>> = all.chunks(per).map(|c| c.to_vec()).collect();
    for o in ops.iter_mut() {
        if chance(r, 0.4) {
            o.push(Op::Sync);
        }
    }
    let at = ops
        .iter()
        .map(|o| {
            let syncs = o.iter().filter(|o| matches!(o, Op::Sync)).count() as u64;
            if chance(r, 0.4) {
                // when all is done
                u32::MAX as u64
            } else if mem {
                let per = *pick(r, &[3, 8, 40]);
                r.gen_range(0..2 + syncs * per)
            } else {
                r.gen_range(0..o.len() as u64 + 1 + syncs * 60)
            }
        })
        .collect();
    Case { ops, at, torn: r.gen(), mode: r.gen_range(0..3), seed: r.gen(), how: *pick(r, &[0, 0, 1, 3, 4, 5]), create: chance(r, 0.3), pad: *pick(r, &[0, 0, 100, 8192, 20000, 70000]) }
}

struct PowerRdb;

impl Part for PowerRdb {
    type Case = Case;
    fn name(&self) -> &'static str {
        "rocksdb"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Case {
        case(r, false)
    }
    fn run(&self, c: &Case, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let mut t = Rdb { db: None, dir: Scratch(dir.path("t")) };
        std::fs::create_dir_all(&t.dir.0).unwrap();
        if !c.create {
            let mut e = Rdb::with(false);
            e.db = None;
            copy_dir(&e.path(), &t.path());
        }
        let d = t.dir.0.to_str().unwrap().to_string();
        let (file, report) = (dir.path("ops.json"), dir.path("report"));
        let mut r = Rand::seed_from_u64(c.seed);
        let mut m = Model::new();
        let everything: Vec<Op> = c.ops.iter().flatten().cloned().collect();
        for (run, at) in c.ops.iter().zip(&c.at) {
            // the operations as they are issued, and the states between them
            let (ops, models) = settle_from(&m, run)?;
            std::fs::write(&file, serde_json::to_string(&ops).unwrap()).unwrap();
            let was = lengths(&t.path());
            let (acks, code, err) = spawn(&["power", "rdb", &d, &c.how.to_string(), file.to_str().unwrap(), &at.to_string(), if c.torn { "1" } else { "0" }, report.to_str().unwrap()]);
            ensure!(code != Some(7), "open", "the database could not be opened: {err}");
            ensure!(code.is_none(), "sub", "the subprocess ended with {code:?}: {err}");
            ensure!(!acks.contains('E'), "sub-error", "an operation failed before the power did: {acks}");
            let done = acks.chars().filter(|c| *c == '.').count();
            let sure = ops[..done].iter().rposition(|o| matches!(o, Op::Sync)).map_or(0, |k| k + 1);
            let lost = fail_power(&t.path(), &was, &report, c.mode, &mut r)?;
            if let Err(e) = t.open(c.how) {
                return fail("reopen", format!("after {done} operations (of which the first {sure} synced) the power failed, and the database cannot be opened any more: {e}"));
            }
            let look = Look::new(&everything);
            let hi = (done + 1).min(ops.len());
            let mut found = None;
            for k in (sure..=hi).rev() {
                match look.same(&mut t, &models[k]) {
                    Ok(()) => {
                        found = Some(k);
                        break;
                    }
                    Err(f) if f.kind == "panic" => return Err(f),
                    Err(_) => {}
                }
            }
            let Some(k) = found else {
                let f = look.same(&mut t, &models[sure]).unwrap_err();
                return fail(&format!("lost-{}", f.kind), format!("after {done} operations, of which the first {sure} were synced ({:?} returned), the power failed; the database is in no state it was in since. Compared with that at the sync: {}", sure.checked_sub(1).map(|k| &ops[k]), f.msg));
            };
            if lost > 0 {
                seen.tag("lost-bytes");
            }
            if sure > 0 {
                seen.tag("synced");
            }
            if sure > 0 && k > sure {
                seen.tag("more-than-synced");
            }
            if k < done {
                seen.tag("lost-operations");
            }
            if done < ops.len() && matches!(ops[done], Op::Sync) {
                seen.tag("failed-in-sync");
            }
            m = models[k].clone();
            t.db = None;
        }
        if let Err(e) = t.open(c.how) {
            return fail("reopen", e);
        }
        continue_after(&mut t, &m, c.seed)
    }
    fn nontrivial(&self, _c: &Case, seen: &Seen) -> bool {
        seen.has("lost-bytes") && seen.has("synced")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 600)
    }
}

/// Like `settle`, going on from a state. It runs on a memory database, whose edges may come in another order than
/// those of the database meant, so that writes are not limited.
pub fn settle_from(m: &Model, ops: &[Op]) -> R<(Vec<Op>, Vec<Model>)> {
    let mut m = m.clone();
    let (mut done, mut models) = (vec![], vec![m.clone()]);
    let mut s = Mem::new();
    // a memory database in the same state
    let mut items: Vec<Item> = m.v.iter().map(|(id, t)| Item::V(*id, t.clone())).collect();
    items.extend(m.e.iter().cloned().map(Item::E));
    items.extend(m.vp.iter().map(|((id, n), v)| Item::VP(*id, n.clone(), v.clone())));
    items.extend(m.ep.iter().map(|((e, n), v)| Item::EP(e.clone(), n.clone(), v.clone())));
    for n in m.idx.iter() {
        s.apply(&Op::Index(n.clone()));
    }
    s.apply(&Op::Bulk(items));
    for op in ops {
        let op = match op {
            Op::Set(q, n, j) => Op::Set(gen::unlimited(q), n.clone(), j.clone()),
            Op::Delete(q) => Op::Delete(gen::unlimited(q)),
            Op::Bulk(items) => Op::Bulk(m.sanitise(items)),
            op => op.clone(),
        };
        step(&mut s, &mut m, &op, &mut Seen::default())?;
        done.push(op);
        models.push(m.clone());
    }
    Ok((done, models))
}

struct PowerImage;

impl Part for PowerImage {
    type Case = Case;
    fn name(&self) -> &'static str {
        "image"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Case {
        case(r, true)
    }
    fn run(&self, c: &Case, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let idir = dir.path("d");
        std::fs::create_dir_all(&idir).unwrap();
        let path = idir.join("image");
        let (file, report) = (dir.path("ops.json"), dir.path("report"));
        let mut r = Rand::seed_from_u64(c.seed);
        // what the image may hold
        let mut m = Model::new();
        let mut there = false;
        let mut everything: Vec<Op> = c.ops.iter().flatten().cloned().collect();
        everything.extend(pad_op(c.pad));
        let look = Look::new(&everything);
        for (i, (run, at)) in c.ops.iter().zip(&c.at).enumerate() {
            let mut run = run.clone();
            if i == 0 {
                run = pad_op(c.pad).into_iter().chain(run).collect();
            }
            let (ops, models) = settle_from(&m, &run)?;
            std::fs::write(&file, serde_json::to_string(&ops).unwrap()).unwrap();
            let was = lengths(&idir);
            let (acks, code, err) = spawn(&["power", "mem", path.to_str().unwrap(), file.to_str().unwrap(), &at.to_string(), if c.torn { "1" } else { "0" }, report.to_str().unwrap()]);
            ensure!(code.is_none(), "sub", "the subprocess ended with {code:?}: {err}");
            ensure!(!acks.contains('E'), "sub-error", "an operation failed before the power did: {acks}");
            let done = acks.chars().filter(|c| *c == '.').count();
            let sure = ops[..done].iter().rposition(|o| matches!(o, Op::Sync)).map(|k| k + 1);
            let lost = fail_power(&idir, &was, &report, c.mode, &mut r)?;
            if lost > 0 {
                seen.tag("lost-bytes");
            }
            if sure.is_some() {
                seen.tag("synced");
            }
            if done < ops.len() && matches!(ops[done], Op::Sync) {
                seen.tag("failed-in-sync");
            }
            // the image is that of the last sync that returned, or of the one that was going on
            let mut may: Vec<&Model> = vec![];
            match sure {
                Some(k) => may.push(&models[k]),
                None if there => may.push(&m),
                None => {}
            }
            if done < ops.len() && matches!(ops[done], Op::Sync) {
                may.push(&models[done]);
            }
            if !path.exists() {
                ensure!(!there && sure.is_none(), "image-gone", "after {done} operations the power failed, and the image is gone");
                m = Model::new();
                continue;
            }
            let mut t = Img::load(&path).map_err(|f| Fail { kind: f.kind, msg: format!("after {done} operations (last sync that returned: number {sure:?}) the power failed; {} ({} bytes)", f.msg, std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0)) })?;
            let mut why = String::new();
            let mut found = None;
            for x in may {
                match look.same(&mut t, x) {
                    Ok(()) => found = Some(x.clone()),
                    Err(f) => why = f.msg,
                }
            }
            ensure!(found.is_some(), "image-damaged", "after {done} operations (last sync that returned: number {sure:?}) the power failed, and the image is neither that of the last sync nor of one going on: {why}");
            m = found.unwrap();
            there = true;
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Case, seen: &Seen) -> bool {
        seen.has("synced") || seen.has("failed-in-sync")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (40, 400)
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C23",
        level: "fault_enumeration",
        rule: "the power failed with something unwritten and a sync that had returned (RocksDB), or after or in a sync (images)",
        assumptions: &[
            "fsync and fdatasync put a file's content on the disk, and nothing else is sure to",
            "what is written after that may be lost from any point on in each file",
            "creating, renaming and removing files takes effect on the disk at once",
            "RocksDB orders its own files correctly",
        ],
        parts: vec![part(PowerRdb, 900, 30000), part(PowerImage, 3000, 60000)],
        dbg_share: 0.0,
        known: no_known,
    }]
}
