//! C18: several threads or clients at once. On the memory datastore every outcome and the final content must be
//! those of one order of the operations; RocksDB promises less.
use crate::driver::*;
use crate::ensure;
use crate::gen::{self, chance, pick, Mix, Rand, World};
use crate::hist::*;
use crate::model::*;
use crate::noise;
use crate::store::*;
use crate::types::*;
use indradb::{Database, Datastore, MemoryDatastore};
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;
use uuid::Uuid;

use super::remote::{call, Remote};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Race {
    setup: Vec<Op>,
    threads: Vec<Vec<Op>>,
    noise: u64,
}

/// One operation as it happened.
struct Ev {
    inv: u64,
    resp: u64,
    out: Out,
}

fn race(c: &Race, round: u64, exec: &(dyn Fn(usize, &Op) -> Out + Sync)) -> Vec<Vec<Ev>> {
    let clock = AtomicU64::new(0);
    let gate = Barrier::new(c.threads.len());
    std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let (clock, gate) = (&clock, &gate);
                sc.spawn(move || {
                    let mut evs = Vec::with_capacity(ops.len());
                    gate.wait();
                    noise::on((c.noise ^ (t as u64 * 0x1234567)).wrapping_add(round.wrapping_mul(0x9E3779B97F4A7C15)) | 1);
                    for op in ops {
                        let inv = clock.fetch_add(1, Ordering::SeqCst);
                        let out = exec(t, op);
                        let resp = clock.fetch_add(1, Ordering::SeqCst);
                        evs.push(Ev { inv, resp, out });
                    }
                    noise::on(0);
                    evs
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

fn is_write(op: &Op) -> bool {
    !matches!(op, Op::Get(_))
}

/// Whether a write overlapped an operation of another thread.
fn overlap(c: &Race, evs: &[Vec<Ev>], seen: &mut Seen) {
    let all: Vec<(usize, bool, &Ev)> =
        evs.iter().enumerate().flat_map(|(t, es)| es.iter().enumerate().map(move |(k, e)| (t, k, e))).map(|(t, k, e)| (t, is_write(&c.threads[t][k]), e)).collect();
    for a in &all {
        for b in &all {
            if a.0 < b.0 && a.2.inv < b.2.resp && b.2.inv < a.2.resp {
                match (a.1, b.1) {
                    (true, true) => seen.tag("write-over-write"),
                    (true, false) | (false, true) => seen.tag("write-over-read"),
                    _ => {}
                }
            }
        }
    }
}

/// What the operation does on the model, or none if this outcome is not possible there. The image is what the
/// last sync wrote.
fn can(m: &Model, image: &Option<Model>, op: &Op, out: &Out) -> Option<(Model, Option<Model>)> {
    let mut n = m.clone();
    let mut img = image.clone();
    let ok = match (op, out) {
        (Op::CreateV(id, t), Out::Bool(b)) => n.create_v(*id, t) == *b,
        (Op::CreateVT(t), Out::Id(id)) => n.create_v(*id, t),
        (Op::CreateE(e), Out::Bool(b)) => n.create_e(e) == *b,
        (Op::Set(q, ..) | Op::Delete(q), out) => {
            let c = unroll(q);
            match (m.classify(&c), out) {
                (Ok(t), Out::Unit) => {
                    let o = m.eval(&c).0.pop().unwrap();
                    match (op, t) {
                        (Op::Set(_, name, j), Ty::V | Ty::E) => {
                            n.set(&o, name, j);
                            true
                        }
                        (Op::Delete(_), Ty::V | Ty::E | Ty::VP | Ty::EP) => {
                            n.delete(&o);
                            true
                        }
                        _ => false,
                    }
                }
                (Err(k), Out::Err(got, _)) => err_ok(k, *got),
                (Ok(t), Out::Err(got, _)) => {
                    let refused = matches!((op, t), (_, Ty::N) | (Op::Set(..), Ty::VP | Ty::EP));
                    refused && err_ok(EK::OpOnQuery, *got)
                }
                _ => false,
            }
        }
        (Op::Bulk(items), Out::Unit) => {
            items.iter().for_each(|i| n.apply_item(i));
            true
        }
        (Op::Index(name), Out::Unit) => {
            n.idx.insert(name.clone());
            true
        }
        (Op::Sync, Out::Unit) => {
            img = Some(bare(m.clone()));
            true
        }
        (Op::Get(q), out) => {
            let c = unroll(q);
            match (m.classify(&c), out) {
                (Err(k), Out::Err(got, _)) => err_ok(k, *got),
                (Ok(_), Out::Outs(got)) => {
                    let (outs, _, exact) = m.eval(&c);
                    let mut want: Vec<&O> = outs.iter().zip(c.stages.iter()).filter(|(_, s)| s.1).map(|(o, _)| o).collect();
                    want.push(outs.last().unwrap());
                    want.len() == got.len() && want.iter().zip(got).all(|(w, g)| if exact { w.sorted() == g.sorted() } else { w.len() == g.len() })
                }
                _ => false,
            }
        }
        _ => false,
    };
    ok.then_some((n, img))
}

fn digest(m: &Model) -> u64 {
    struct H(std::collections::hash_map::DefaultHasher);
    impl Write for H {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            s.hash(&mut self.0);
            Ok(())
        }
    }
    let mut h = H(Default::default());
    write!(h, "{m:?}").unwrap();
    h.0.finish()
}

struct Search<'a> {
    c: &'a Race,
    evs: &'a [Vec<Ev>],
    want: &'a Model,
    want_image: &'a Option<Model>,
    tried: HashSet<(Vec<usize>, u64, u64)>,
    left: usize,
    /// the longest order found, and what could not follow it
    best: Vec<(usize, usize)>,
}

enum Found {
    Yes(Model),
    No,
    GaveUp,
}

impl Search<'_> {
    fn go(&mut self, at: &mut Vec<usize>, m: &Model, image: &Option<Model>, order: &mut Vec<(usize, usize)>) -> Found {
        if self.left == 0 {
            return Found::GaveUp;
        }
        self.left -= 1;
        if order.len() > self.best.len() {
            self.best = order.clone();
        }
        let next: Vec<usize> = (0..at.len()).filter(|t| at[*t] < self.evs[*t].len()).collect();
        if next.is_empty() {
            let w = self.want;
            let same = m.v == w.v && m.e == w.e && m.vp == w.vp && m.ep == w.ep;
            return if same && image.as_ref().is_none_or(|i| self.want_image.as_ref() == Some(i)) { Found::Yes(m.clone()) } else { Found::No };
        }
        if !self.tried.insert((at.clone(), digest(m), image.as_ref().map(digest).unwrap_or(0))) {
            return Found::No;
        }
        let first = next.iter().map(|t| self.evs[*t][at[*t]].resp).min().unwrap();
        for t in next {
            let k = at[t];
            let e = &self.evs[t][k];
            // something else had finished before this one began
            if e.inv > first {
                continue;
            }
            if let Some((n, i)) = can(m, image, &self.c.threads[t][k], &e.out) {
                at[t] += 1;
                order.push((t, k));
                match self.go(at, &n, &i, order) {
                    Found::No => {}
                    x => return x,
                }
                order.pop();
                at[t] -= 1;
            }
        }
        Found::No
    }
}

/// Reads all content through queries; index settings are not readable and left out.
pub(super) fn dump(s: &mut dyn Store) -> R<Model> {
    let mut m = Model::new();
    if let O::V(vs) = one(s, &Q::AllV)? {
        m.v = vs.into_iter().collect();
    }
    if let O::E(es) = one(s, &Q::AllE)? {
        m.e = es.into_iter().collect();
    }
    if let O::VP(ps) = one(s, &Q::Props { inner: Box::new(Q::AllV), name: None })? {
        m.vp = ps.into_iter().flat_map(|(v, ps)| ps.into_iter().map(move |(n, j)| ((v.0, n), j))).collect();
    }
    if let O::EP(ps) = one(s, &Q::Props { inner: Box::new(Q::AllE), name: None })? {
        m.ep = ps.into_iter().flat_map(|(e, ps)| ps.into_iter().map(move |(n, j)| ((e.clone(), n), j))).collect();
    }
    Ok(m)
}

/// Another handle to the same database.
struct Ref<'a, D: Datastore>(&'a Database<D>, &'static str);

impl<D: Datastore> Store for Ref<'_, D> {
    fn apply(&mut self, op: &Op) -> Out {
        apply(self.0, op)
    }
    fn name(&self) -> &'static str {
        self.1
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        probe(self.0, m, x)
    }
}

fn story(c: &Race, evs: &[Vec<Ev>], best: &[(usize, usize)]) -> String {
    let mut all: Vec<(u64, String)> = vec![];
    for (t, es) in evs.iter().enumerate() {
        for (k, e) in es.iter().enumerate() {
            let mut op = format!("{:?}", c.threads[t][k]);
            op.truncate(op.char_indices().nth(300).map(|x| x.0).unwrap_or(op.len()));
            let mut out = format!("{:?}", e.out);
            out.truncate(out.char_indices().nth(400).map(|x| x.0).unwrap_or(out.len()));
            all.push((e.inv, format!("  [{}..{}] thread {t}: {op} -> {out}", e.inv, e.resp)));
        }
    }
    all.sort();
    let mut s = all.into_iter().map(|x| x.1).collect::<Vec<_>>().join("\n");
    let _ = write!(s, "\n  longest possible order: {best:?} (thread, number)");
    s
}

/// Whether the case is one the model can judge (shrinking makes others).
fn judgeable(c: &Race) -> bool {
    let mut m = Model::new();
    for op in c.setup.iter().chain(c.threads.iter().flatten()) {
        match op {
            Op::Bulk(items) => {
                let mut fresh = Model::new();
                for i in items {
                    if !fresh.item_ok(i) {
                        return false;
                    }
                    fresh.apply_item(i);
                }
            }
            Op::Set(q, ..) | Op::Delete(q) | Op::Get(q) => {
                if unroll(q).stages.iter().any(|(s, _)| matches!(s, Stage::Pipe { limit, .. } if *limit != 0 && *limit != u32::MAX)) {
                    return false;
                }
            }
            Op::Reopen(_) => return false,
            _ => {}
        }
        gen::guess(&mut m, op);
    }
    c.threads.len() <= 8 && c.threads.iter().all(|t| t.len() <= 60)
}

fn linear<D: Datastore>(db: &Database<D>, path: Option<&Path>, c: &Race, round: u64, exec: &(dyn Fn(usize, &Op) -> Out + Sync), seen: &mut Seen) -> R {
    let mut start = Model::new();
    let mut image = None;
    for op in &c.setup {
        let out = apply(db, op);
        match can(&start, &image, op, &out) {
            Some((m, i)) => (start, image) = (m, i),
            None => return fail("setup", format!("{op:?} gave {out:?}")),
        }
    }
    let evs = race(c, round, exec);
    overlap(c, &evs, seen);
    for es in &evs {
        for e in es {
            if let Out::Panic(p) = &e.out {
                return fail("panic", format!("an operation panicked: {p}"));
            }
        }
    }
    let mut s = Ref(db, "memory");
    let want = dump(&mut s)?;
    let want_image = match path {
        Some(p) if p.exists() => {
            let d = MemoryDatastore::read_msgpack_db(p).or_else(|e| fail("image", format!("the image cannot be read: {e:?}")))?;
            let mut i = dump(&mut Ref(&d, "image"))?;
            i.idx = BTreeSet::new();
            Some(i)
        }
        _ => None,
    };
    let mut search = Search { c, evs: &evs, want: &want, want_image: &want_image, tried: HashSet::new(), left: 60_000, best: vec![] };
    let found = search.go(&mut vec![0; c.threads.len()], &start, &image, &mut vec![]);
    let x = mentions(&c.setup.iter().chain(c.threads.iter().flatten()).cloned().collect::<Vec<_>>());
    let names: Vec<String> = x.names.iter().cloned().collect();
    let vals: Vec<J> = x.vals.iter().take(6).cloned().collect();
    match found {
        Found::Yes(m) => {
            let at = |f: Fail| Fail { kind: f.kind, msg: format!("after the race: {}\n{}", f.msg, story(c, &evs, &[])) };
            check_all(&mut s, &m, &names, &vals).map_err(at)?;
            probe(db, &m, &x).map_err(at)
        }
        Found::GaveUp => {
            seen.tag("undecided");
            Ok(())
        }
        Found::No => fail("not-sequential", format!("no order of the operations explains\n{}\n  final content {want:?}", story(c, &evs, &search.best))),
    }
}

fn bare(mut m: Model) -> Model {
    m.idx = BTreeSet::new();
    m
}

fn rounds() -> u64 {
    if PERSIST.load(std::sync::atomic::Ordering::Relaxed) {
        150
    } else {
        1
    }
}

// ---- generators ----

fn lift(q: &Q) -> Q {
    let mut c = unroll(q);
    for (s, _) in c.stages.iter_mut() {
        if let Stage::Pipe { limit, .. } = s {
            *limit = u32::MAX;
        }
    }
    roll(&c)
}

/// A bulk insertion that can be made at any time: it brings the elements it refers to.
fn closed(items: &[Item]) -> Vec<Item> {
    let mut m = Model::new();
    let mut out = vec![];
    let put = |m: &mut Model, out: &mut Vec<Item>, i: Item| {
        m.apply_item(&i);
        out.push(i);
    };
    for it in items {
        let (ids, e) = match it {
            Item::V(..) => (vec![], None),
            Item::E(e) => (vec![e.o, e.i], None),
            Item::VP(id, ..) => (vec![*id], None),
            Item::EP(e, ..) => (vec![e.o, e.i], Some(e.clone())),
        };
        for id in ids {
            if !m.v.contains_key(&id) {
                put(&mut m, &mut out, Item::V(id, "a".into()));
            }
        }
        if let Some(e) = e {
            if !m.e.contains(&e) {
                put(&mut m, &mut out, Item::E(e));
            }
        }
        put(&mut m, &mut out, it.clone());
    }
    out
}

/// Makes an operation fit for a race.
fn tame(op: Op) -> Op {
    match op {
        Op::Set(q, n, j) => Op::Set(lift(&q), n, j),
        Op::Delete(q) => Op::Delete(lift(&q)),
        Op::Get(q) => Op::Get(lift(&q)),
        Op::Bulk(items) => Op::Bulk(closed(&items)),
        op => op,
    }
}

fn small_world(r: &mut Rand) -> World {
    let n = r.gen_range(2..5);
    let mut w = gen::world(r, n);
    w.ids.truncate(4);
    w.vts.truncate(2);
    w.ets.truncate(2);
    w.names.truncate(2);
    w.vals.truncate(3);
    w
}

fn v(k: u128) -> Uuid {
    Uuid::from_u128(k + 1)
}

fn e(o: u128, i: u128) -> E {
    E { o: v(o), t: "x".into(), i: v(i) }
}

fn n(k: u64) -> J {
    J(json!(k))
}

fn bx(q: Q) -> Box<Q> {
    Box::new(q)
}

fn props(q: Q) -> Q {
    Q::Props { inner: bx(q), name: None }
}

fn incl(q: Q) -> Q {
    Q::Include(bx(q))
}

fn pipe(q: Q, dir: Dir) -> Q {
    Q::Pipe { inner: bx(q), dir, limit: u32::MAX, t: None }
}

fn batch(from: u128, len: u128) -> Vec<Item> {
    let mut items = vec![];
    for k in from..from + len {
        items.push(Item::V(v(k), "a".into()));
    }
    for k in from..from + len {
        items.push(Item::E(e(k, from)));
        items.push(Item::VP(v(k), "s".into(), n((k % 3) as u64)));
    }
    items
}

/// How a race is made: operations that meet in the same places.
fn make(r: &mut Rand, i: usize) -> Race {
    let nthreads = *pick(r, &[2, 2, 3, 3, 4]);
    let each = r.gen_range(2..6);
    let idx = || Op::Index("s".into());
    let mut setup = vec![];
    let mut threads: Vec<Vec<Op>> = vec![vec![]; nthreads];
    match i % 7 {
        // anything
        0 | 1 => {
            let w = small_world(r);
            let mut m = Model::new();
            let base = Mix { get: 0, sync: 0, cv: 6, bulk: 2, ..Mix::BASE };
            for _ in 0..r.gen_range(2..9) {
                let o = tame(gen::op(r, &w, &m, &base));
                gen::guess(&mut m, &o);
                setup.push(o);
            }
            let mix = Mix { get: 8, sync: 0, bulk: 3, cvt: 1, del: 5, vdel: 0.4, ..Mix::BASE };
            for t in threads.iter_mut() {
                for _ in 0..each {
                    t.push(tame(gen::op(r, &w, &m, &mix)));
                }
            }
        }
        // values moved on from one to the next, which only one thread at a time can do
        2 => {
            let elements = r.gen_range(1..4);
            setup.push(Op::Bulk(batch(0, elements)));
            if chance(r, 0.9) {
                setup.push(idx());
            }
            for (t, ops) in threads.iter_mut().enumerate() {
                for _ in 0..each {
                    let from = n(r.gen_range(0..3));
                    ops.push(match r.gen_range(0..8) {
                        0..=3 => Op::Set(Q::VVal("s".into(), from), "s".into(), n(r.gen_range(0..4))),
                        4 => Op::Set(Q::PVal { inner: bx(Q::AllV), name: "s".into(), value: from, equal: chance(r, 0.7) }, "s".into(), n(10 + t as u64)),
                        5 => Op::Delete(props(Q::VVal("s".into(), from))),
                        6 => Op::Get(incl(props(incl(Q::VProp("s".into()))))),
                        _ => Op::Get(props(incl(Q::VVal("s".into(), from)))),
                    });
                }
            }
        }
        // whole batches, which are there or not
        3 => {
            let len = r.gen_range(3..25);
            if chance(r, 0.5) {
                setup.push(Op::Bulk(batch(0, len)));
            }
            if chance(r, 0.5) {
                setup.push(idx());
            }
            for ops in threads.iter_mut() {
                for _ in 0..each {
                    let from = r.gen_range(0..3) * len;
                    ops.push(match r.gen_range(0..9) {
                        0 | 1 => Op::Bulk(batch(from, len)),
                        2 => Op::Delete(Q::RangeV { limit: r.gen_range(1..30), t: None, start: Some(v(from)) }),
                        3 => Op::Delete(Q::AllE),
                        4 => Op::Get(Q::Count(bx(Q::AllV))),
                        5 => Op::Get(Q::Count(bx(incl(Q::AllE)))),
                        6 => Op::Get(pipe(incl(pipe(incl(Q::AllV), Dir::Out)), Dir::In)),
                        7 => Op::Set(Q::AllV, "s".into(), n(r.gen_range(0..5))),
                        _ => Op::Get(props(incl(Q::AllV))),
                    });
                }
            }
        }
        // vertices that come and go under their edges
        4 => {
            for k in 0..3 {
                setup.push(Op::CreateV(v(k), "a".into()));
            }
            for _ in 0..r.gen_range(0..3) {
                setup.push(Op::CreateE(e(r.gen_range(0..3), r.gen_range(0..3))));
            }
            for ops in threads.iter_mut() {
                for _ in 0..each {
                    let (a, b) = (r.gen_range(0..3), r.gen_range(0..3));
                    ops.push(match r.gen_range(0..10) {
                        0 | 1 => Op::CreateE(e(a, b)),
                        2 => Op::CreateV(v(a), (*pick(r, &["a", "b", "c"])).into()),
                        3 => Op::Delete(Q::SpecV(vec![v(a)])),
                        4 => Op::Delete(pipe(Q::SpecV(vec![v(a)]), Dir::Out)),
                        5 => Op::Delete(pipe(pipe(Q::SpecV(vec![v(a)]), Dir::Out), Dir::In)),
                        6 => Op::Set(Q::SpecE(vec![e(a, b)]), "s".into(), n(a as u64)),
                        7 => Op::Get(pipe(incl(pipe(incl(Q::SpecV(vec![v(a), v(b)])), Dir::Out)), Dir::In)),
                        8 => Op::Get(props(incl(Q::AllE))),
                        _ => Op::CreateVT("t".into()),
                    });
                }
            }
        }
        // the index set up while properties change
        5 => {
            setup.push(Op::Bulk(batch(0, r.gen_range(1..6))));
            for (t, ops) in threads.iter_mut().enumerate() {
                for k in 0..each {
                    let a = r.gen_range(0..4);
                    ops.push(match r.gen_range(0..8) {
                        _ if t == 0 && k == 0 => idx(),
                        0 => idx(),
                        1 | 2 => Op::Set(Q::SpecV(vec![v(a)]), "s".into(), n(r.gen_range(0..3))),
                        3 => Op::Set(Q::SpecE(vec![e(a, 0)]), "s".into(), n(r.gen_range(0..3))),
                        4 => Op::Delete(props(Q::SpecV(vec![v(a)]))),
                        5 => Op::Get(Q::VProp("s".into())),
                        6 => Op::Get(props(Q::EProp("s".into()))),
                        _ => Op::Get(Q::VVal("s".into(), n(r.gen_range(0..3)))),
                    });
                }
            }
        }
        // syncs in the middle of it
        _ => {
            setup.push(Op::Bulk(batch(0, r.gen_range(1..5))));
            for ops in threads.iter_mut() {
                for _ in 0..each {
                    let a = r.gen_range(0..4);
                    ops.push(match r.gen_range(0..7) {
                        0..=2 => Op::Sync,
                        3 => Op::Bulk(batch(r.gen_range(0..8), 3)),
                        4 => Op::Set(Q::AllV, "s".into(), n(r.gen_range(0..9))),
                        5 => Op::Delete(Q::SpecV(vec![v(a)])),
                        _ => Op::Get(props(incl(Q::AllV))),
                    });
                }
            }
        }
    }
    Race { setup, threads, noise: r.gen() }
}

struct Linear {
    grpc: bool,
}

impl Part for Linear {
    type Case = Race;
    fn name(&self) -> &'static str {
        if self.grpc {
            "memory-grpc"
        } else {
            "memory"
        }
    }
    fn threads(&self) -> usize {
        4
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (45, 300)
    }
    fn gen(&self, r: &mut Rand, i: usize) -> Race {
        make(r, i)
    }
    fn run(&self, c: &Race, seen: &mut Seen) -> R {
        if !judgeable(c) {
            return Ok(());
        }
        for round in 0..rounds() {
            let dir = Scratch::new();
            let path = dir.path("image");
            let db = MemoryDatastore::create_msgpack_db(&path);
            if self.grpc {
                let rem = Remote::noisy(db, None, 3, c.threads.len(), c.noise.rotate_left(round as u32) | 1);
                let exec = |t: usize, op: &Op| {
                    let mut cl = rem.clients[t].clone();
                    rem.wait(call(&mut cl, op)).unwrap_or_else(|f| Out::Panic(f.msg))
                };
                linear(&rem.db, Some(&path), c, round, &exec, seen)?;
            } else {
                linear(&db, Some(&path), c, round, &|_, op| apply(&db, op), seen)?;
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Race, seen: &Seen) -> bool {
        seen.has("write-over-read") || seen.has("write-over-write")
    }
}

// ---- RocksDB: elements one at a time ----

/// Operations whose effect and answer concern one element, one batch or one scan.
fn make_single(r: &mut Rand, i: usize) -> Race {
    let nthreads = *pick(r, &[2, 3, 3, 4]);
    let each = r.gen_range(2..7);
    let mut setup = vec![];
    for k in 0..3 {
        if chance(r, 0.7) {
            setup.push(Op::CreateV(v(k), "a".into()));
        }
    }
    if chance(r, 0.6) {
        setup.push(Op::Index("s".into()));
    }
    let span = if i % 2 == 0 { 2 } else { 3 };
    let mut threads: Vec<Vec<Op>> = vec![vec![]; nthreads];
    for (t, ops) in threads.iter_mut().enumerate() {
        for k in 0..each {
            let (a, b) = (r.gen_range(0..span), r.gen_range(0..span));
            let own = n((t * 100 + k) as u64);
            ops.push(match r.gen_range(0..14) {
                0 | 1 => Op::CreateV(v(a), format!("t{t}k{k}")),
                2 | 3 => Op::CreateE(e(a, b)),
                4 | 5 => Op::Delete(Q::SpecV(vec![v(a)])),
                6 => Op::Delete(Q::SpecE(vec![e(a, b)])),
                7 | 8 => Op::Set(Q::SpecV(vec![v(a)]), "s".into(), own),
                9 => Op::Set(Q::SpecE(vec![e(a, b)]), "s".into(), own),
                10 => Op::Bulk(batch(a, 2)),
                11 => Op::Get(Q::SpecV(vec![v(a)])),
                12 => Op::Get(Q::Count(bx(Q::AllE))),
                _ => Op::Get(Q::AllV),
            });
        }
    }
    Race { setup, threads, noise: r.gen() }
}

struct Single;

impl Part for Single {
    type Case = Race;
    fn name(&self) -> &'static str {
        "rocksdb-single"
    }
    fn threads(&self) -> usize {
        4
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 200)
    }
    fn gen(&self, r: &mut Rand, i: usize) -> Race {
        make_single(r, i)
    }
    fn run(&self, c: &Race, seen: &mut Seen) -> R {
        if !judgeable(c) {
            return Ok(());
        }
        for round in 0..rounds() {
            let s = Rdb::new();
            linear(s.db(), None, c, round, &|_, op| apply(s.db(), op), seen)?;
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Race, seen: &Seen) -> bool {
        seen.has("write-over-read") || seen.has("write-over-write")
    }
}

// ---- RocksDB: any operations, judged afterwards ----

struct Quiet;

impl Part for Quiet {
    type Case = Race;
    fn name(&self) -> &'static str {
        "rocksdb-afterwards"
    }
    fn threads(&self) -> usize {
        3
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 200)
    }
    fn gen(&self, r: &mut Rand, i: usize) -> Race {
        let mut c = make(r, i);
        // more of it
        for _ in 0..r.gen_range(0..3) {
            let more = make(r, i);
            for (t, ops) in more.threads.into_iter().enumerate() {
                match c.threads.get_mut(t) {
                    Some(x) => x.extend(ops),
                    None => c.threads.push(ops),
                }
            }
            c.setup.extend(more.setup);
        }
        // bulk insertions and new vertices bring elements back without regard to what else goes on; edges of
        // batches are only sure of their ends while nobody deletes those
        let deletes = c.threads.iter().flatten().any(|o| matches!(o, Op::Delete(q) if !matches!(unroll(q).stages.last(), Some((Stage::Props(_), _)))));
        if deletes && chance(r, 0.3) {
            for ops in c.threads.iter_mut() {
                ops.retain(|o| !matches!(o, Op::Delete(_)));
            }
        }
        c
    }
    fn run(&self, c: &Race, seen: &mut Seen) -> R {
        if !judgeable(c) {
            return Ok(());
        }
        for round in 0..rounds() {
            let s = Rdb::new();
            afterwards(&s, c, round, seen)?;
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Race, seen: &Seen) -> bool {
        seen.has("write-over-write")
    }
}

fn afterwards(s: &Rdb, c: &Race, round: u64, seen: &mut Seen) -> R {
    let db = s.db();
    let mut start = Model::new();
    for op in &c.setup {
        let out = apply(db, op);
        match can(&start, &None, op, &out) {
            Some((m, _)) => start = m,
            None => return fail("setup", format!("{op:?} gave {out:?}")),
        }
    }
    let evs = race(c, round, &|_, op| apply(db, op));
    overlap(c, &evs, seen);
    let st = |f: Fail| Fail { kind: f.kind, msg: format!("after the race: {}\n{}", f.msg, story(c, &evs, &[])) };
    let mut h = Ref(db, "rocksdb");
    let mut m = dump(&mut h).map_err(st)?;
    m.idx = start.idx.clone();
    let done: Vec<(&Op, &Out)> = c.threads.iter().zip(&evs).flat_map(|(o, e)| o.iter().zip(e.iter().map(|e| &e.out))).collect();
    for (op, out) in &done {
        let ok = match (op, out) {
            (Op::Index(name), Out::Unit) => {
                m.idx.insert(name.clone());
                true
            }
            (Op::CreateV(..) | Op::CreateE(_), Out::Bool(_)) => true,
            (Op::CreateVT(_), Out::Id(_)) => true,
            (Op::Set(..) | Op::Delete(_) | Op::Bulk(_) | Op::Sync, Out::Unit) => true,
            (Op::Get(_), Out::Outs(_)) => true,
            (Op::Set(..) | Op::Delete(_) | Op::Get(_), Out::Err(EK::NotIndexed, _)) => true,
            _ => false,
        };
        ensure!(ok, "outcome", "{op:?} gave {out:?}\n{}", story(c, &evs, &[]));
    }
    for e in &m.e {
        ensure!(m.v.contains_key(&e.o) && m.v.contains_key(&e.i), "dangling", "after the race edge {e:?} lacks an endpoint\n{}", story(c, &evs, &[]));
    }
    // both directions, counts, indexes, and nothing left of elements that are gone
    let x = mentions(&c.setup.iter().chain(c.threads.iter().flatten()).cloned().collect::<Vec<_>>());
    let names: Vec<String> = x.names.iter().cloned().collect();
    let vals: Vec<J> = x.vals.iter().take(6).cloned().collect();
    check_all(&mut h, &m, &names, &vals).map_err(st)?;
    probe(db, &m, &x).map_err(st)?;
    // nothing from nowhere
    let mut types: BTreeMap<Uuid, BTreeSet<String>> = BTreeMap::new();
    let mut vals: BTreeMap<String, BTreeSet<J>> = BTreeMap::new();
    start.v.iter().for_each(|(id, t)| {
        types.entry(*id).or_default().insert(t.clone());
    });
    for op in c.setup.iter().chain(done.iter().map(|d| d.0)) {
        match op {
            Op::CreateV(id, t) => {
                types.entry(*id).or_default().insert(t.clone());
            }
            Op::Set(_, name, j) => {
                vals.entry(name.clone()).or_default().insert(j.clone());
            }
            Op::Bulk(items) => items.iter().for_each(|i| match i {
                Item::V(id, t) => {
                    types.entry(*id).or_default().insert(t.clone());
                }
                Item::VP(_, n, j) | Item::EP(_, n, j) => {
                    vals.entry(n.clone()).or_default().insert(j.clone());
                }
                _ => {}
            }),
            _ => {}
        }
    }
    for (op, out) in &done {
        if let (Op::CreateVT(t), Out::Id(id)) = (op, out) {
            types.entry(*id).or_default().insert(t.clone());
        }
    }
    for (id, t) in &m.v {
        ensure!(types.get(id).is_some_and(|ts| ts.contains(t)), "from-nowhere", "vertex {id} of type {t} was never written\n{}", story(c, &evs, &[]));
    }
    for (name, j) in m.vp.iter().map(|(k, j)| (&k.1, j)).chain(m.ep.iter().map(|(k, j)| (&k.1, j))) {
        ensure!(vals.get(name).is_some_and(|js| js.contains(j)), "from-nowhere", "value {j:?} of {name:?} was never written\n{}", story(c, &evs, &[]));
    }
    // nothing lost
    if !done.iter().any(|d| matches!(d.0, Op::Delete(_))) {
        seen.tag("no-deletes");
        let mut made: BTreeMap<Uuid, usize> = BTreeMap::new();
        for (op, out) in &done {
            match (op, out) {
                (Op::CreateV(id, _), Out::Bool(b)) => {
                    ensure!(m.v.contains_key(id), "lost", "vertex {id} is gone\n{}", story(c, &evs, &[]));
                    *made.entry(*id).or_default() += *b as usize;
                }
                (Op::CreateVT(_), Out::Id(id)) => ensure!(m.v.contains_key(id), "lost", "vertex {id} is gone\n{}", story(c, &evs, &[])),
                (Op::CreateE(e), Out::Bool(true)) => ensure!(m.e.contains(e), "lost", "edge {e:?} is gone\n{}", story(c, &evs, &[])),
                (Op::Bulk(items), Out::Unit) => {
                    for i in items {
                        let there = match i {
                            Item::V(id, _) => m.v.contains_key(id),
                            Item::E(e) => m.e.contains(e),
                            Item::VP(id, n, _) => m.vp.contains_key(&(*id, n.clone())),
                            Item::EP(e, n, _) => m.ep.contains_key(&(e.clone(), n.clone())),
                        };
                        ensure!(there, "lost", "{i:?} is gone\n{}", story(c, &evs, &[]));
                    }
                }
                _ => {}
            }
        }
        for (id, k) in made {
            let most = if start.v.contains_key(&id) { 0 } else { 1 };
            ensure!(k <= most, "created-twice", "{k} threads were told that they created vertex {id}\n{}", story(c, &evs, &[]));
        }
        for (id, t) in &start.v {
            ensure!(m.v.get(id) == Some(t), "lost", "vertex {id} of type {t} became {:?}\n{}", m.v.get(id), story(c, &evs, &[]));
        }
    }
    Ok(())
}

// ---- RocksDB: groups written at once ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Groups {
    size: u8,
    groups: u8,
    writers: u8,
    steps: u8,
    noise: u64,
}

struct Atomic;

impl Part for Atomic {
    type Case = Groups;
    fn name(&self) -> &'static str {
        "rocksdb-groups"
    }
    fn threads(&self) -> usize {
        3
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (40, 100)
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Groups {
        Groups { size: r.gen_range(2..20), groups: r.gen_range(1..4), writers: r.gen_range(1..4), steps: r.gen_range(2..8), noise: r.gen() }
    }
    fn run(&self, c: &Groups, seen: &mut Seen) -> R {
        for round in 0..rounds() {
            groups(c, round, seen)?;
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Groups, seen: &Seen) -> bool {
        seen.has("between")
    }
}

/// Each writer owns groups of vertices, which it inserts and deletes at once, so their number is always a
/// multiple of the size; all set a property of a common group, whose members end up the same.
fn groups(c: &Groups, round: u64, seen: &mut Seen) -> R {
    let size = (c.size % 40).max(1) as u128;
    let (writers, steps) = ((c.writers % 6).max(1) as u128, (c.steps % 16) as u128);
    let s = Rdb::new();
    let db = s.db();
    let common: Vec<Uuid> = (0..size).map(v).collect();
    let put = |from: u128| Op::Bulk((from..from + size).flat_map(|k| [Item::V(v(k), "g".into()), Item::E(e(k, k))]).collect());
    if let Out::Err(k, m) = apply(db, &put(0)) {
        return fail("setup", format!("{k:?} {m}"));
    }
    apply(db, &Op::Index("s".into()));
    let mut threads: Vec<Vec<Op>> = vec![];
    for w in 1..=writers {
        let mut ops = vec![];
        for k in 0..steps {
            let from = 1000 * w + 100 * (k % (c.groups.max(1) as u128));
            ops.push(match k % 3 {
                0 => put(from),
                1 => Op::Set(Q::SpecV(common.clone()), "s".into(), n((w * 100 + k) as u64)),
                _ => Op::Delete(Q::RangeV { limit: size as u32, t: None, start: Some(v(1000 * w + 100 * ((k - 2) % (c.groups.max(1) as u128)))) }),
            });
        }
        threads.push(ops);
    }
    for k in 0..2 {
        threads.push((0..steps * 3).map(|j| Op::Get(Q::Count(bx(if (j + k) % 2 == 0 { Q::AllV } else { Q::AllE })))).collect());
    }
    let rc = Race { setup: vec![], threads, noise: c.noise };
    let evs = race(&rc, round, &|_, op| apply(db, op));
    let mut counts = BTreeSet::new();
    for (ops, es) in rc.threads.iter().zip(&evs) {
        for (op, ev) in ops.iter().zip(es) {
            match (op, &ev.out) {
                (Op::Get(_), Out::Outs(o)) => match o.as_slice() {
                    [O::N(k)] => {
                        counts.insert(*k);
                        ensure!(*k as u128 % size == 0, "half", "{op:?} gave {k} while whole groups of {size} were inserted and deleted\n{}", story(&rc, &evs, &[]));
                    }
                    o => return fail("outcome", format!("{op:?} gave {o:?}")),
                },
                (Op::Get(_), o) => return fail("outcome", format!("{op:?} gave {o:?}")),
                (_, Out::Unit) => {}
                (_, o) => return fail("outcome", format!("{op:?} gave {o:?}")),
            }
        }
    }
    if counts.len() > 1 {
        seen.tag("between");
    }
    let m = dump(&mut Ref(db, "rocksdb"))?;
    let held: BTreeSet<Option<&J>> = common.iter().map(|id| m.vp.get(&(*id, "s".to_string()))).collect();
    ensure!(held.len() == 1, "mixed", "one property set for the whole group at a time ended with {held:?}\n{}", story(&rc, &evs, &[]));
    let mut full = m.clone();
    full.idx.insert("s".into());
    check_all(&mut Ref(db, "rocksdb"), &full, &[], &[])
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C18",
        level: "exploration",
        rule: "a write overlapped an operation of another thread in real time (groups: a count fell between two writes)",
        assumptions: &["schedules are those of the operating system, disturbed by random pauses at allocations, after lock hand-overs and at writes"],
        parts: vec![
            part(Linear { grpc: false }, 24000, 600000),
            part(Linear { grpc: true }, 4000, 100000),
            part(Single, 5000, 100000),
            part(Quiet, 3000, 60000),
            part(Atomic, 600, 15000),
        ],
        dbg_share: 0.0,
        known: no_known,
    }]
}
