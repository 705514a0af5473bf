//! C21: failures of the storage while a request is carried out.
use crate::driver::*;
use crate::ensure;
use crate::fault::{self, Reads};
use crate::gen::{self, chance, Mix, Rand};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use indradb::{self as db, Database, Datastore, DynIter, MemoryDatastore, Transaction};
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::Arc;
use uuid::Uuid;

use super::graph::Kind;
use super::remote::{same_answer, Remote};

// ---- a datastore that can fail ----

const MARK: &str = "injected storage failure";

/// Makes one call or item of a datastore fail.
#[derive(Default)]
pub struct Ctl {
    left: AtomicI64,
    on: AtomicBool,
    /// what failed once fails from then on
    sticky: AtomicBool,
    /// iterators end after an error
    ends: AtomicBool,
    /// the failing call panics
    panics: AtomicBool,
    fired: AtomicBool,
    ticks: AtomicI64,
}

impl Ctl {
    fn tick(&self) -> db::Result<()> {
        self.ticks.fetch_add(1, Ordering::SeqCst);
        if !self.on.load(Ordering::SeqCst) {
            return Ok(());
        }
        let n = self.left.fetch_sub(1, Ordering::SeqCst);
        if n == 0 || n < 0 && self.sticky.load(Ordering::SeqCst) {
            self.fired.store(true, Ordering::SeqCst);
            if self.panics.load(Ordering::SeqCst) {
                panic!("{MARK}");
            }
            return Err(db::Error::Datastore(MARK.into()));
        }
        Ok(())
    }
}

/// Wraps a datastore. `BULK`: with its own bulk insertion and sync, otherwise the interface's defaults.
pub struct Faulty<D, const BULK: bool> {
    inner: D,
    ctl: Arc<Ctl>,
}

struct Items<'a, T> {
    inner: DynIter<'a, T>,
    ctl: Arc<Ctl>,
    done: bool,
}

impl<T> Iterator for Items<'_, T> {
    type Item = db::Result<T>;
    fn next(&mut self) -> Option<db::Result<T>> {
        if self.done {
            return None;
        }
        if let Err(e) = self.ctl.tick() {
            // the item itself is lost
            self.done = self.inner.next().is_none() || self.ctl.ends.load(Ordering::SeqCst) || self.ctl.sticky.load(Ordering::SeqCst);
            return Some(Err(e));
        }
        self.inner.next()
    }
}

pub struct OwnBulk<'a, D: Datastore + 'a>(D::Transaction<'a>, Arc<Ctl>);
pub struct DefaultBulk<'a, D: Datastore + 'a>(D::Transaction<'a>, Arc<Ctl>);

macro_rules! items {
    ($(fn $f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        $(fn $f(&'a self, $($a: $t),*) -> db::Result<DynIter<'a, $r>> {
            self.1.tick()?;
            Ok(Box::new(Items { inner: self.0.$f($($a),*)?, ctl: self.1.clone(), done: false }))
        })*
    };
}
macro_rules! found {
    ($(fn $f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        $(fn $f(&'a self, $($a: $t),*) -> db::Result<Option<DynIter<'a, $r>>> {
            self.1.tick()?;
            Ok(match self.0.$f($($a),*)? {
                None => None,
                Some(inner) => Some(Box::new(Items { inner, ctl: self.1.clone(), done: false })),
            })
        })*
    };
}
macro_rules! writes {
    ($(fn $f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        $(fn $f(&mut self, $($a: $t),*) -> db::Result<$r> {
            self.1.tick()?;
            self.0.$f($($a),*)
        })*
    };
}
macro_rules! transaction {
    ($ty:ident { $($own:tt)* }) => {
        impl<'a, D: Datastore + 'a> Transaction<'a> for $ty<'a, D> {
            fn vertex_count(&self) -> u64 {
                self.0.vertex_count()
            }
            fn edge_count(&self) -> u64 {
                self.0.edge_count()
            }
            items! {
                fn all_vertices() -> db::Vertex;
                fn range_vertices(o: Uuid) -> db::Vertex;
                fn specific_vertices(ids: Vec<Uuid>) -> db::Vertex;
                fn all_edges() -> db::Edge;
                fn range_edges(o: db::Edge) -> db::Edge;
                fn range_reversed_edges(o: db::Edge) -> db::Edge;
                fn specific_edges(e: Vec<db::Edge>) -> db::Edge;
                fn all_vertex_properties_for_vertex(v: &db::Vertex) -> (db::Identifier, db::Json);
                fn all_edge_properties_for_edge(e: &db::Edge) -> (db::Identifier, db::Json);
            }
            found! {
                fn vertex_ids_with_property(n: db::Identifier) -> Uuid;
                fn vertex_ids_with_property_value(n: db::Identifier, v: &db::Json) -> Uuid;
                fn edges_with_property(n: db::Identifier) -> db::Edge;
                fn edges_with_property_value(n: db::Identifier, v: &db::Json) -> db::Edge;
            }
            fn vertex_property(&self, v: &db::Vertex, n: db::Identifier) -> db::Result<Option<db::Json>> {
                self.1.tick()?;
                self.0.vertex_property(v, n)
            }
            fn edge_property(&self, e: &db::Edge, n: db::Identifier) -> db::Result<Option<db::Json>> {
                self.1.tick()?;
                self.0.edge_property(e, n)
            }
            writes! {
                fn delete_vertices(v: Vec<db::Vertex>) -> ();
                fn delete_edges(e: Vec<db::Edge>) -> ();
                fn delete_vertex_properties(p: Vec<(Uuid, db::Identifier)>) -> ();
                fn delete_edge_properties(p: Vec<(db::Edge, db::Identifier)>) -> ();
                fn create_vertex(v: &db::Vertex) -> bool;
                fn create_edge(e: &db::Edge) -> bool;
                fn index_property(n: db::Identifier) -> ();
                fn set_vertex_properties(v: Vec<Uuid>, n: db::Identifier, j: &db::Json) -> ();
                fn set_edge_properties(e: Vec<db::Edge>, n: db::Identifier, j: &db::Json) -> ();
            }
            $($own)*
        }
    };
}
transaction!(OwnBulk {
    writes! {
        fn bulk_insert(i: Vec<db::BulkInsertItem>) -> ();
    }
    fn sync(&self) -> db::Result<()> {
        self.1.tick()?;
        self.0.sync()
    }
});
transaction!(DefaultBulk {});

impl<D: Datastore> Datastore for Faulty<D, true> {
    type Transaction<'a>
        = OwnBulk<'a, D>
    where
        Self: 'a;
    fn transaction(&self) -> OwnBulk<'_, D> {
        OwnBulk(self.inner.transaction(), self.ctl.clone())
    }
}
impl<D: Datastore> Datastore for Faulty<D, false> {
    type Transaction<'a>
        = DefaultBulk<'a, D>
    where
        Self: 'a;
    fn transaction(&self) -> DefaultBulk<'_, D> {
        DefaultBulk(self.inner.transaction(), self.ctl.clone())
    }
}

// ---- running requests with a fault at each place ----

/// Where and how a request fails.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct How {
    pub sticky: bool,
    /// iterators end after an error; for files: data is damaged rather than not read
    pub other: bool,
}

/// Something whose storage can be made to fail.
trait Failing: Store {
    /// Applies an operation with the `n`th access failing. Returns also the number of accesses, and whether
    /// the fault happened.
    fn faulted(&mut self, n: i64, how: How, op: &Op) -> (Out, i64, bool);
    /// What a failure says.
    fn says(&self) -> &'static str {
        ""
    }
    /// Whether the operation may leave its leading items.
    fn piecewise(&self, _op: &Op) -> bool {
        false
    }
    /// The finding the operation is known to show, if any.
    fn known(&self, _op: &Op) -> bool {
        false
    }
}

struct Stub<S> {
    store: S,
    ctl: Arc<Ctl>,
    bulk: bool,
    says: &'static str,
}

impl<S: Store> Store for Stub<S> {
    fn apply(&mut self, op: &Op) -> Out {
        self.store.apply(op)
    }
    fn name(&self) -> &'static str {
        self.store.name()
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        self.store.txn_probe(m, x)
    }
}

impl<S: Store> Failing for Stub<S> {
    fn faulted(&mut self, n: i64, how: How, op: &Op) -> (Out, i64, bool) {
        let c = &self.ctl;
        c.left.store(n, Ordering::SeqCst);
        c.sticky.store(how.sticky, Ordering::SeqCst);
        c.ends.store(how.other, Ordering::SeqCst);
        c.fired.store(false, Ordering::SeqCst);
        c.ticks.store(0, Ordering::SeqCst);
        c.on.store(true, Ordering::SeqCst);
        let out = self.store.apply(op);
        self.ctl.on.store(false, Ordering::SeqCst);
        (out, self.ctl.ticks.load(Ordering::SeqCst), self.ctl.fired.load(Ordering::SeqCst))
    }
    fn says(&self) -> &'static str {
        self.says
    }
    fn piecewise(&self, op: &Op) -> bool {
        !self.bulk && matches!(op, Op::Bulk(_))
    }
}

impl<D: Datastore> Store for Wrapped<D> {
    fn apply(&mut self, op: &Op) -> Out {
        apply(&self.0, op)
    }
    fn name(&self) -> &'static str {
        "embedded"
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        probe(&self.0, m, x)
    }
}

struct Wrapped<D: Datastore>(Database<D>);

/// RocksDB with its table files' reads failing.
struct Tables(Rdb);

impl Store for Tables {
    fn apply(&mut self, op: &Op) -> Out {
        self.0.apply(op)
    }
    fn name(&self) -> &'static str {
        "rocksdb"
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        self.0.txn_probe(m, x)
    }
}

pub fn is_element_count(op: &Op) -> bool {
    match op {
        Op::Get(q) => {
            let c = unroll(q);
            matches!(c.leaf, Q::AllV | Q::AllE) && c.stages.len() == 1 && matches!(c.stages[0], (Stage::Count, false))
        }
        _ => false,
    }
}

impl Failing for Tables {
    fn faulted(&mut self, n: i64, how: How, op: &Op) -> (Out, i64, bool) {
        // so that what is in the log is written to tables, and nothing of them is cached
        if let Err(e) = self.0.open(0) {
            return (Out::Err(EK::Other, e), 0, false);
        }
        let reads = Reads { at: n, sticky: how.sticky, damage: how.other, suffix: ".sst" };
        fault::with_reads(reads, || self.0.apply(op))
    }
    fn known(&self, op: &Op) -> bool {
        is_element_count(op)
    }
}

/// Applies the next write with a fault; everything else as it is.
struct Once<'a> {
    s: &'a mut dyn Failing,
    at: Option<(i64, How)>,
    out: Option<(Out, bool)>,
}

impl Store for Once<'_> {
    fn apply(&mut self, op: &Op) -> Out {
        match (op, self.at) {
            (Op::Get(_), _) | (_, None) => self.s.apply(op),
            (_, Some((n, how))) => {
                self.at = None;
                let (out, _, fired) = self.s.faulted(n, how, op);
                self.out = Some((out.clone(), fired));
                out
            }
        }
    }
    fn name(&self) -> &'static str {
        self.s.name()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    /// what is there
    pub ops: Vec<Op>,
    /// what fails, again and again
    pub probes: Vec<Op>,
    pub how: How,
    /// elements besides, so that a table takes several blocks
    pub fill: u16,
}

impl FaultCase {
    fn filler(&self) -> Op {
        let id = |n: u16| Uuid::from_u128(0x0100_0000_0000_0000_0000_0000_0000_0000 * (1 + n as u128 % 250) + n as u128);
        let text = |n: u16| J(serde_json::Value::String(format!("{n}{}", "-".repeat(n as usize % 40))));
        let mut items = vec![];
        for n in 0..self.fill {
            items.push(Item::V(id(n), "fill".into()));
            let e = E { o: id(n / 50), t: "fill".into(), i: id(n) };
            items.push(Item::E(e.clone()));
            items.push(Item::VP(id(n), "fill".into(), text(n)));
            items.push(Item::EP(e, "fill".into(), text(n % 7)));
        }
        Op::Bulk(items)
    }
}

/// The places to fail at, of so many.
fn places(n: i64) -> Vec<i64> {
    const ALL: i64 = 16;
    if n <= ALL {
        return (0..n).collect();
    }
    let mut v: Vec<i64> = (0..ALL / 2).chain((0..ALL / 2).map(|k| n - 1 - k * (n - ALL / 2) / (ALL / 2))).collect();
    v.sort();
    v.dedup();
    v
}

fn failed_well(s: &dyn Failing, op: &Op, k: i64, out: &Out) -> R {
    match out {
        Out::Err(EK::Datastore | EK::Io | EK::Remote, m) if m.contains(s.says()) => Ok(()),
        Out::Panic(p) => fail("panic", format!("[{}] {op:?} panicked when access {k} of the storage failed: {p}", s.name())),
        o => fail("misreported", format!("[{}] {op:?}: access {k} of the storage failed, but this was reported as {o:?}", s.name())),
    }
}

fn exercise(s: &mut dyn Failing, m: &mut Model, c: &FaultCase, x: &Mentions, seen: &mut Seen) -> R {
    let names: Vec<String> = x.names.iter().cloned().collect();
    let vals: Vec<J> = x.vals.iter().take(6).cloned().collect();
    for (pk, op) in c.probes.iter().enumerate() {
        let at = |f: Fail| Fail { kind: f.kind, msg: format!("at probe {pk}: {}", f.msg) };
        let known = s.known(op);
        if let Op::Get(q) = op {
            let (clean, n, fired) = s.faulted(i64::MAX, c.how, op);
            ensure!(!fired, "harness", "a fault where there was none");
            for k in places(n) {
                let (out, _, fired) = s.faulted(k, c.how, op);
                if !fired || known {
                    continue;
                }
                seen.tag("read-failed");
                if same_answer(q, &out, &clean) && !matches!(out, Out::Panic(_)) {
                    seen.tag("unaffected");
                    continue;
                }
                if let Out::Outs(_) = out {
                    return at_(pk, fail("wrong-answer", format!("[{}] query {q:?}\n  answered {out:?}\n  though access {k} of {n} of the storage failed; the answer is {clean:?}", s.name())));
                }
                failed_well(s, op, k, &out).map_err(at)?;
            }
            // nothing is left of it
            let _ = check_get(s, m, q, seen).map_err(at)?;
            continue;
        }
        for k in places(400) {
            let mut m2 = m.clone();
            let mut once = Once { s, at: Some((k, c.how)), out: None };
            let r = step(&mut once, &mut m2, op, seen);
            let Some((out, fired)) = once.out.take() else { return at_(pk, r) };
            if !fired {
                r.map_err(at)?;
                *m = m2;
                break;
            }
            seen.tag("write-failed");
            if r.is_ok() && !matches!(out, Out::Err(..)) {
                seen.tag("unaffected");
                *m = m2;
                break;
            }
            if !matches!(out, Out::Err(..) | Out::Panic(_)) {
                return at_(pk, r);
            }
            if !(r.is_ok() && matches!(out, Out::Err(..))) {
                failed_well(s, op, k, &out).map_err(at)?;
            }
            let mut same = check_all(s, m, &names, &vals).and_then(|_| s.txn_probe(m, x));
            if let (true, Op::Bulk(items)) = (s.piecewise(op), op) {
                let mut part = m.clone();
                for i in &m.sanitise(items) {
                    if same.is_ok() {
                        break;
                    }
                    part.apply_item(i);
                    if check_all(s, &part, &names, &vals).is_ok() {
                        seen.tag("piece");
                        same = s.txn_probe(&part, x);
                        *m = part.clone();
                    }
                }
            }
            same.map_err(|f| Fail { kind: f.kind, msg: format!("at probe {pk}: after {op:?} failed ({out:?}) because access {k} of the storage did: {}", f.msg) })?;
        }
    }
    check_all(s, m, &names, &vals)?;
    s.txn_probe(m, x)
}

fn at_(pk: usize, r: R) -> R {
    r.map_err(|f| Fail { kind: f.kind, msg: format!("at probe {pk}: {}", f.msg) })
}

fn case(r: &mut Rand, mix: &Mix, sizes: (usize, usize), files: bool) -> FaultCase {
    let n_ids = r.gen_range(3..7);
    let w = gen::world(r, n_ids);
    let n = r.gen_range(sizes.0 / 2..sizes.0);
    let ops = gen::history(r, &w, mix, n);
    let mut m = Model::new();
    ops.iter().for_each(|o| gen::guess(&mut m, o));
    let probing = Mix { get: 14, sync: if files { 0 } else { mix.sync }, ..*mix };
    let mut probes = vec![];
    for _ in 0..r.gen_range(sizes.1 / 2..=sizes.1) {
        let o = gen::op(r, &w, &m, &probing);
        gen::guess(&mut m, &o);
        probes.push(o);
    }
    FaultCase { ops, probes, how: How { sticky: chance(r, 0.4), other: chance(r, 0.4) }, fill: 0 }
}

fn said(c: &FaultCase) -> Mentions {
    mentions(&c.ops.iter().chain(&c.probes).cloned().collect::<Vec<_>>())
}

#[derive(Clone, Copy, PartialEq)]
enum Under {
    Memory,
    Default,
    Rocks,
    Grpc,
}

struct Calls(Under);

fn stub<D: Datastore, const B: bool>(inner: D) -> (Database<Faulty<D, B>>, Arc<Ctl>)
where
    Faulty<D, B>: Datastore,
{
    let ctl = Arc::new(Ctl::default());
    (Database::new(Faulty { inner, ctl: ctl.clone() }), ctl)
}

impl Part for Calls {
    type Case = FaultCase;
    fn name(&self) -> &'static str {
        match self.0 {
            Under::Memory => "calls-memory",
            Under::Default => "calls-default-bulk",
            Under::Rocks => "calls-rocksdb",
            Under::Grpc => "calls-grpc",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> FaultCase {
        let mut mix = Mix { bulk: 4, cvt: 1, sync: if self.0 == Under::Default { 0 } else { 1 }, wild: chance(r, 0.2), ..Mix::BASE };
        if mix.wild {
            mix.qdepth = 2;
        }
        case(r, &mix, if self.0 == Under::Grpc { (16, 5) } else { (24, 10) }, false)
    }
    fn run(&self, c: &FaultCase, seen: &mut Seen) -> R {
        fn go<S: Store>(store: S, ctl: Arc<Ctl>, bulk: bool, says: &'static str, c: &FaultCase, seen: &mut Seen) -> R {
            let mut s = Stub { store, ctl, bulk, says };
            let mut m = Model::new();
            for op in &c.ops {
                step(&mut s, &mut m, op, &mut Seen::default())?;
            }
            exercise(&mut s, &mut m, c, &said(c), seen)
        }
        match self.0 {
            Under::Memory => {
                let (d, ctl) = stub::<_, true>(MemoryDatastore::new_db().datastore);
                go(Wrapped(d), ctl, true, MARK, c, seen)
            }
            Under::Default => {
                let (d, ctl) = stub::<_, false>(MemoryDatastore::new_db().datastore);
                match d.sync() {
                    Err(db::Error::Unsupported) => {}
                    r => return fail("default-sync", format!("a datastore without sync of its own gave {r:?}")),
                }
                go(Wrapped(d), ctl, false, MARK, c, seen)
            }
            Under::Rocks => {
                let (d, _dir) = Rdb::new().split();
                let (d, ctl) = stub::<_, true>(d.datastore);
                go(Wrapped(d), ctl, true, MARK, c, seen)
            }
            Under::Grpc => {
                let (d, ctl) = stub::<_, true>(MemoryDatastore::new_db().datastore);
                go(Remote::new(d, None, 0, 1), ctl, true, MARK, c, seen)
            }
        }
    }
    fn nontrivial(&self, _c: &FaultCase, seen: &Seen) -> bool {
        seen.has("read-failed") && seen.has("write-failed")
    }
}

/// C17: a datastore's call panics while the server carries out a request.
pub struct Panics;

impl Part for Panics {
    type Case = FaultCase;
    fn name(&self) -> &'static str {
        "panics"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> FaultCase {
        let mix = Mix { bulk: 4, cvt: 1, sync: 1, ..Mix::BASE };
        case(r, &mix, (16, 6), false)
    }
    fn run(&self, c: &FaultCase, seen: &mut Seen) -> R {
        // not the memory datastore, whose lock would be poisoned
        let (d, dir) = Rdb::new().split();
        let (d, ctl) = stub::<_, true>(d.datastore);
        ctl.panics.store(true, Ordering::SeqCst);
        let mut s = Stub { store: Remote::new(d, Some(dir), 0, 1), ctl, bulk: true, says: "" };
        let mut m = Model::new();
        for op in &c.ops {
            step(&mut s, &mut m, op, &mut Seen::default())?;
        }
        let x = said(c);
        let names: Vec<String> = x.names.iter().cloned().collect();
        for (pk, op) in c.probes.iter().enumerate() {
            let n = match op {
                // the server's share: the query is made again without it
                Op::Get(_) => s.faulted(i64::MAX, c.how, op).1 / 2,
                _ => 400,
            };
            let mut done = false;
            for k in places(n) {
                let (out, fired) = if let Op::Get(_) = op {
                    let (out, _, fired) = s.faulted(k, c.how, op);
                    (out, fired)
                } else {
                    let mut m2 = m.clone();
                    let mut once = Once { s: &mut s, at: Some((k, c.how)), out: None };
                    let r = step(&mut once, &mut m2, op, seen);
                    let Some((out, fired)) = once.out.take() else { return at_(pk, r) };
                    if !fired {
                        at_(pk, r)?;
                        m = m2;
                        done = true;
                    }
                    (out, fired)
                };
                if !fired {
                    break;
                }
                seen.tag(if matches!(op, Op::Get(_)) { "read-failed" } else { "write-failed" });
                ensure!(matches!(out, Out::Err(EK::Remote, _) | Out::Panic(_)), "misreported", "at probe {pk}: call {k} of {n} panicked while the server carried out {op:?}, and the client was told {out:?}");
                at_(pk, check_all(&mut s, &m, &names, &[]))?;
            }
            if !done {
                at_(pk, step(&mut s, &mut m, op, seen))?;
            }
        }
        check_all(&mut s, &m, &names, &[])?;
        s.txn_probe(&m, &x)
    }
    fn nontrivial(&self, _c: &FaultCase, seen: &Seen) -> bool {
        seen.has("read-failed") && seen.has("write-failed")
    }
}

struct Files;

impl Part for Files {
    type Case = FaultCase;
    fn name(&self) -> &'static str {
        "table-reads"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> FaultCase {
        let mix = Mix { bulk: 4, sync: 1, ..Mix::BASE };
        let mut c = case(r, &mix, (30, 6), true);
        if chance(r, 0.4) {
            c.fill = r.gen_range(150..400);
            if chance(r, 0.5) {
                c.ops.push(Op::Index("fill".into()));
            }
            let hub = Uuid::from_u128(0x0100_0000_0000_0000_0000_0000_0000_0000);
            let pipe = |d| Q::Pipe { inner: Box::new(Q::SpecV(vec![hub])), dir: d, limit: u32::MAX, t: None };
            c.probes.push(match r.gen_range(0..8) {
                0 => Op::Get(Q::AllV),
                1 => Op::Get(Q::Props { inner: Box::new(Q::AllV), name: None }),
                2 => Op::Get(Q::Props { inner: Box::new(pipe(Dir::Out)), name: Some("fill".into()) }),
                3 => Op::Get(pipe(Dir::In)),
                4 => Op::Get(Q::VProp("fill".into())),
                5 => Op::Delete(Q::SpecV(vec![hub])),
                6 => Op::Index("fill".into()),
                _ => Op::Get(Q::EVal("fill".into(), J(serde_json::json!("3---")))),
            });
        }
        c
    }
    fn run(&self, c: &FaultCase, seen: &mut Seen) -> R {
        let mut r = Rdb::new();
        let mut m = Model::new();
        for op in [c.filler()].iter().chain(&c.ops) {
            step(&mut r, &mut m, op, &mut Seen::default())?;
        }
        exercise(&mut Tables(r), &mut m, c, &said(c), seen)
    }
    fn nontrivial(&self, _c: &FaultCase, seen: &Seen) -> bool {
        seen.has("read-failed")
    }
}

/// Opening a database and reading an image while files cannot be read.
struct Opening(Kind);

impl Part for Opening {
    type Case = FaultCase;
    fn name(&self) -> &'static str {
        match self.0 {
            Kind::Mem => "image-reads",
            Kind::Rdb => "opening-reads",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> FaultCase {
        let mix = Mix { bulk: 4, ..Mix::BASE };
        let mut c = case(r, &mix, (24, 0), true);
        c.how.other = self.0 == Kind::Mem && chance(r, 0.2);
        c
    }
    fn run(&self, c: &FaultCase, seen: &mut Seen) -> R {
        let x = said(c);
        let names: Vec<String> = x.names.iter().cloned().collect();
        let mut m = Model::new();
        match self.0 {
            Kind::Mem => {
                let dir = Scratch::new();
                let path = dir.path("image");
                let mut s = Wrapped(MemoryDatastore::create_msgpack_db(&path));
                for op in c.ops.iter().chain([&Op::Sync]) {
                    step(&mut s, &mut m, op, &mut Seen::default())?;
                }
                for k in 0..64 {
                    let reads = Reads { at: k, sticky: c.how.sticky, damage: false, suffix: "image" };
                    let (r, _, fired) = fault::with_reads(reads, || guarded(|| MemoryDatastore::read_msgpack_db(&path)));
                    match r {
                        Err(p) => return fail("panic", format!("reading an image panicked when read {k} failed: {p}")),
                        Ok(Err(_)) if fired => seen.tag("read-failed"),
                        Ok(Err(e)) => return fail("image-unreadable", format!("the image cannot be read: {e}")),
                        Ok(Ok(d)) => {
                            let mut s = Wrapped(d);
                            check_all(&mut s, &m, &names, &[]).map_err(|f| Fail { kind: f.kind, msg: format!("reading the image (read {k} failed: {fired}): {}", f.msg) })?;
                        }
                    }
                    if !fired {
                        break;
                    }
                }
                Ok(())
            }
            Kind::Rdb => {
                let mut r = Rdb::new();
                for op in &c.ops {
                    step(&mut r, &mut m, op, &mut Seen::default())?;
                }
                // twice, so that there is nothing left in the log
                r.open(0).and_then(|_| r.open(0)).map_err(|e| Fail { kind: "reopen".into(), msg: e })?;
                r.db = None;
                let mut k = 0;
                loop {
                    let reads = Reads { at: k, sticky: c.how.sticky, damage: false, suffix: "" };
                    let (o, _, fired) = fault::with_reads(reads, || r.open(k as u8 % 2));
                    match o {
                        Err(p) if p.starts_with("panic") => return fail("panic", format!("opening panicked when read {k} failed: {p}")),
                        Err(_) if fired => seen.tag("read-failed"),
                        Err(e) => return fail("reopen", format!("the database cannot be opened: {e}")),
                        Ok(()) => {
                            if let Err(f) = check_all(&mut r, &m, &names, &[]) {
                                // a database that opened may still report that it cannot read
                                if f.kind != "query-error" {
                                    return Err(Fail { kind: f.kind, msg: format!("opened while read {k} failed ({fired}): {}", f.msg) });
                                }
                            }
                        }
                    }
                    if !fired {
                        break;
                    }
                    r.open(0).map_err(|e| Fail { kind: "reopen".into(), msg: format!("after read {k} failed while opening: {e}") })?;
                    check_all(&mut r, &m, &names, &[]).map_err(|f| Fail { kind: f.kind, msg: format!("after read {k} failed while opening: {}", f.msg) })?;
                    r.db = None;
                    k += 1 + k / 8;
                }
                Ok(())
            }
        }
    }
    fn nontrivial(&self, _c: &FaultCase, seen: &Seen) -> bool {
        seen.has("read-failed")
    }
}

pub fn known() -> Vec<(String, String)> {
    let mut r = Rdb::new();
    let mut m = Model::new();
    let id = |n: u128| Uuid::from_u128(n);
    let ops: Vec<Op> = (1..4)
        .map(|n| Op::CreateV(id(n), "t".into()))
        .chain((1..4).map(|n| Op::CreateE(E { o: id(1), t: "t".into(), i: id(n) })))
        .collect();
    for op in &ops {
        if step(&mut r, &mut m, op, &mut Seen::default()).is_err() {
            return vec![];
        }
    }
    let mut t = Tables(r);
    let mut wrong = false;
    for leaf in [Q::AllV, Q::AllE] {
        let op = Op::Get(Q::Count(Box::new(leaf)));
        let (out, _, fired) = t.faulted(0, How { sticky: true, other: false }, &op);
        wrong |= fired && matches!(out, Out::Outs(o) if o != vec![O::N(3)]);
    }
    if wrong {
        vec![("element-count".into(), "on RocksDB the count of all vertices or of all edges is too small, without an error, when reading them fails".into())]
    } else {
        vec![]
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C21",
        level: "fault_enumeration",
        rule: "a case in which at least one read (in the parts on calls also one write) was made to fail",
        assumptions: &[
            "a failing read is one that a datastore reports as an error, or that the operating system reports for a file (EIO) or answers with a damaged block; reads of RocksDB's log while opening are not made to fail",
        ],
        parts: vec![
            part(Calls(Under::Memory), 5000, 60000),
            part(Calls(Under::Default), 2500, 40000),
            part(Calls(Under::Rocks), 500, 8000),
            part(Calls(Under::Grpc), 500, 6000),
            part(Files, 250, 6000),
            part(Opening(Kind::Mem), 400, 8000),
            part(Opening(Kind::Rdb), 120, 2000),
        ],
        dbg_share: 0.0,
        known,
    }]
}
