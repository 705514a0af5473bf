//! C19 and C20: plugins, and the server and client as processes.
use crate::driver::*;
use crate::ensure;
use crate::gen::{self, chance, pick, Mix, Rand};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use indradb::util::{extract_edge_properties, extract_edges, extract_vertex_properties, extract_vertices};
use indradb::{Database, Datastore, MemoryDatastore};
use indradb_plugin_host as host;
use indradb_proto as p;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Read;
use std::os::fd::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;
use tonic::transport::Channel;
use tonic::Code;
use uuid::Uuid;

use super::graph::Kind;
use super::remote::call;

const PATIENCE: Duration = Duration::from_secs(40);

fn bin(name: &str) -> PathBuf {
    PathBuf::from(std::env::var("HARNESS_REPO_BIN").expect("HARNESS_REPO_BIN")).join(name)
}

fn plugin_lib() -> PathBuf {
    PathBuf::from(std::env::var("HARNESS_PLUGIN").expect("HARNESS_PLUGIN"))
}

// ---- processes ----

/// A command that dies with this process.
fn command(exe: &Path) -> Command {
    let mut c = Command::new(exe);
    c.stdin(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

/// A running server.
pub(super) struct Proc {
    pub(super) child: Child,
    /// as it announced it
    pub(super) addr: String,
    pub(super) net: Net,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn wait_end(child: &mut Child) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return Some(s),
            _ if t.elapsed() > PATIENCE => return None,
            _ => std::thread::sleep(Duration::from_millis(1)),
        }
    }
}

/// A free loopback address of one of many, so that closed connections do not use up the ports.
pub(super) fn any_address() -> String {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let n = NEXT.fetch_add(1, Ordering::Relaxed) + std::process::id() as usize * 101;
    format!("127.{}.{}.{}:0", n / 62500 % 250 + 1, n / 250 % 250 + 1, n % 250 + 1)
}

/// How a start ended.
enum Start {
    Up(Box<Proc>),
    /// It ended by itself: how, and what it wrote.
    Refused(ExitStatus, String),
}

/// Starts the server and waits until it answers or has ended.
fn start(args: &[String], envs: &[(String, String)], dir: &Path) -> R<Start> {
    let errs = dir.join("stderr");
    let mut c = command(&bin("indradb-server"));
    if let Ok(s) = std::env::var("HARNESS_SHIM") {
        c.env("LD_PRELOAD", s);
    }
    c.args(args).envs(envs.iter().map(|(k, v)| (k, v)));
    c.stdout(Stdio::piped()).stderr(std::fs::File::create(&errs).unwrap());
    let mut child = c.spawn().expect("run the server");
    let mut out = child.stdout.take().unwrap();
    let t = Instant::now();
    let mut line = vec![];
    // its first line
    while !line.contains(&b'\n') {
        let mut f = libc::pollfd { fd: out.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut f, 1, 1000) };
        if f.revents != 0 {
            let mut buf = [0u8; 256];
            match out.read(&mut buf) {
                Ok(n) if n > 0 => line.extend(&buf[..n]),
                _ => break,
            }
        }
        if t.elapsed() > PATIENCE {
            let _ = child.kill();
            let _ = child.wait();
            return fail("hang", format!("the server {args:?} neither announced itself nor ended"));
        }
    }
    let text = |line: &[u8]| format!("{}{}", String::from_utf8_lossy(line), std::fs::read_to_string(&errs).unwrap_or_default());
    if line.contains(&b'\n') {
        let addr = String::from_utf8_lossy(&line).lines().next().unwrap().to_string();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        loop {
            let r = rt.block_on(async {
                tokio::time::timeout(PATIENCE, async {
                    let e: tonic::transport::Endpoint = match addr.clone().try_into() {
                        Ok(e) => e,
                        Err(e) => return Err(format!("not an address: {addr:?}: {e}")),
                    };
                    let mut c = p::Client::new(e.clone()).await.map_err(|e| e.to_string())?;
                    c.ping().await.map_err(|e| e.to_string())?;
                    let raw = p::ProtoClient::connect(e).await.map_err(|e| e.to_string())?;
                    Ok((c, raw))
                })
                .await
                .unwrap_or(Err("no answer to a ping".into()))
            });
            match r {
                Ok((client, raw)) => return Ok(Start::Up(Box::new(Proc { child, addr, net: Net { rt, client, raw } }))),
                Err(e) => {
                    if let Ok(Some(s)) = child.try_wait() {
                        return Ok(Start::Refused(s, text(&line)));
                    }
                    if t.elapsed() > PATIENCE || e.starts_with("not an address") {
                        let _ = child.kill();
                        let _ = child.wait();
                        return fail("no-service", format!("the server {args:?} runs, but does not answer at {addr}: {e}"));
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
        }
    }
    match wait_end(&mut child) {
        Some(s) => Ok(Start::Refused(s, text(&line))),
        None => {
            let _ = child.kill();
            let _ = child.wait();
            fail("hang", format!("the server {args:?} closed its output, but did not end"))
        }
    }
}

pub(super) fn up(args: &[String], envs: &[(String, String)], dir: &Path) -> R<Box<Proc>> {
    match start(args, envs, dir)? {
        Start::Up(p) => Ok(p),
        Start::Refused(s, m) => fail("start", format!("the server {args:?} did not start: {s}: {m}")),
    }
}

impl Proc {
    fn end(mut self, signal: i32) -> R {
        unsafe {
            libc::kill(self.child.id() as i32, signal);
        }
        match wait_end(&mut self.child) {
            Some(_) => Ok(()),
            None => fail("hang", format!("the server did not end on signal {signal}")),
        }
    }
    fn alive(&mut self) -> R {
        if let Ok(Some(s)) = self.child.try_wait() {
            return fail("died", format!("the server ended: {s}"));
        }
        Ok(())
    }
}

/// A connection to a server process.
pub(super) struct Net {
    rt: Runtime,
    client: p::Client,
    raw: p::ProtoClient<Channel>,
}

impl Net {
    fn wait<T>(&self, f: impl std::future::Future<Output = T>) -> R<T> {
        match self.rt.block_on(async { tokio::time::timeout(PATIENCE, f).await }) {
            Ok(t) => Ok(t),
            Err(_) => fail("hang", "no answer within 40 s"),
        }
    }
}

impl Store for Net {
    fn apply(&mut self, op: &Op) -> Out {
        let mut c = self.client.clone();
        match self.wait(call(&mut c, op)) {
            Ok(o) => o,
            Err(_) => Out::Panic("no answer within 40 s".into()),
        }
    }
    fn name(&self) -> &'static str {
        "server"
    }
}

// ---- C19: the map ----

/// Numbers of vertices around where something may change.
fn count(r: &mut Rand) -> usize {
    if chance(r, 0.02) {
        return *pick(r, &[4095, 4096, 4097, 5001, 8192, 8193, 10000, 10001, 16384, 16385, 20000, 20001]);
    }
    match r.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => *pick(r, &[999, 1000, 1001, 1999, 2000, 2001]),
        3 => r.gen_range(1000..5000),
        4 => r.gen_range(2..12),
        _ => r.gen_range(2..1000),
    }
}

fn threads(r: &mut Rand) -> Option<usize> {
    match r.gen_range(0..8) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        3 => Some(r.gen_range(30..70)),
        _ => Some(r.gen_range(2..17)),
    }
}

/// The vertex of a number: ids all over the place, several types.
fn vertex_of(k: usize, salt: u64) -> V {
    let mut x = (k as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ salt;
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    let id = if salt % 3 == 0 { Uuid::from_u128(k as u128) } else { Uuid::from_u128(((x as u128) << 64) | k as u128) };
    (id, ["", "a", "ab", "é"][(x >> 40) as usize % 4].into())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MapCase {
    n: usize,
    salt: u64,
    threads: Option<usize>,
    /// numbers of the vertices whose call fails
    failing: Vec<usize>,
    /// numbers of the vertices whose call panics
    #[serde(default)]
    panicking: Vec<usize>,
    /// vertices deleted before
    deleted: Vec<usize>,
    /// every so many calls of a thread one is slow
    pause: u64,
}

struct MapPart {
    kind: Kind,
}

struct Recorder {
    threads: Option<usize>,
    failing: HashSet<Uuid>,
    panicking: HashSet<Uuid>,
    pause: u64,
    calls: Mutex<Vec<(Uuid, String)>>,
    begun: AtomicUsize,
    done: AtomicUsize,
}

impl Recorder {
    fn note(&self, v: indradb::Vertex) -> Result<(), host::Error> {
        let k = self.begun.fetch_add(1, Ordering::SeqCst) as u64;
        if self.pause > 0 && k % self.pause == 0 {
            std::thread::sleep(Duration::from_micros(200));
        }
        self.calls.lock().unwrap().push((v.id, v.t.as_str().to_string()));
        let r = if self.failing.contains(&v.id) { Err(host::Error::Other(format!("failed at {}", v.id).into())) } else { Ok(()) };
        self.done.fetch_add(1, Ordering::SeqCst);
        if self.panicking.contains(&v.id) {
            panic!("injected panic of a map operation");
        }
        r
    }
}

struct Counted(Recorder);
struct Plain(Recorder);

impl host::util::VertexMapper for Counted {
    fn num_threads(&self) -> usize {
        self.0.threads.unwrap_or(1)
    }
    fn map(&self, v: indradb::Vertex) -> Result<(), host::Error> {
        self.0.note(v)
    }
}

// leaves the number of threads to the host
impl host::util::VertexMapper for Plain {
    fn map(&self, v: indradb::Vertex) -> Result<(), host::Error> {
        self.0.note(v)
    }
}

/// What a map did.
struct Mapped {
    calls: Vec<(Uuid, String)>,
    begun: usize,
    done: usize,
    err: Option<String>,
}

fn run_map<'a>(txn: &(dyn indradb::Transaction<'a> + 'a), threads: Option<usize>, failing: HashSet<Uuid>, panicking: HashSet<Uuid>, pause: u64) -> Mapped {
    let rec = Recorder { threads, failing, panicking, pause, calls: Mutex::new(vec![]), begun: AtomicUsize::new(0), done: AtomicUsize::new(0) };
    let read = |r: &Recorder, e: Result<(), host::Error>| {
        // before anything else: what had been done when the map returned
        let (done, begun) = (r.done.load(Ordering::SeqCst), r.begun.load(Ordering::SeqCst));
        Mapped { calls: r.calls.lock().unwrap().clone(), begun, done, err: e.err().map(|e| e.to_string()) }
    };
    // a panic is passed on, or reported as an error
    let run = |f: &dyn Fn() -> Result<(), host::Error>| guarded(f).unwrap_or_else(|p| Err(host::Error::Other(p.into())));
    if threads.is_some() {
        let m = Arc::new(Counted(rec));
        let e = run(&|| host::util::map(txn, m.clone()));
        read(&m.0, e)
    } else {
        let m = Arc::new(Plain(rec));
        let e = run(&|| host::util::map(txn, m.clone()));
        read(&m.0, e)
    }
}

/// The calls are right: `vs` are the vertices, `failing` those whose call fails.
fn judge_map(x: &Mapped, vs: &BTreeMap<Uuid, String>, failing: &HashSet<Uuid>, panicking: &HashSet<Uuid>, seen: &mut Seen) -> R {
    ensure!(x.done == x.begun && x.done == x.calls.len(), "unfinished", "the map returned when {} of {} begun calls had finished", x.done, x.begun);
    let mut once = BTreeMap::new();
    for (id, t) in &x.calls {
        match vs.get(id) {
            None => return fail("stranger", format!("called for {id} of type {t:?}, which is not in the database")),
            Some(w) => ensure!(w == t, "type", "called for {id} with type {t:?}, it is of type {w:?}"),
        }
        *once.entry(*id).or_insert(0) += 1;
    }
    if let Some((id, n)) = once.iter().find(|(_, n)| **n > 1) {
        return fail("twice", format!("called {n} times for {id}"));
    }
    let failed: Vec<Uuid> = once.keys().filter(|id| failing.contains(id)).cloned().collect();
    let panicked = once.keys().filter(|id| panicking.contains(id)).count();
    match &x.err {
        None => {
            ensure!(panicked == 0, "panic-unreported", "{panicked} calls panicked, but the map succeeded");
            ensure!(failed.is_empty(), "no-error", "{} calls failed, but the map did not", failed.len());
            if let Some(id) = vs.keys().find(|id| !once.contains_key(id)) {
                return fail("missed", format!("not called for {id}, only for {} of {} vertices", once.len(), vs.len()));
            }
        }
        Some(e) => {
            ensure!(panicked > 0 || !failed.is_empty(), "error", "no call failed, but the map did: {e}");
            ensure!(panicked > 0 || failed.iter().any(|id| *e == format!("failed at {id}")), "other-error", "the map's error {e:?} is none of the calls'");
            seen.tag("failed");
        }
    }
    if vs.len() > 1000 {
        seen.tag("many");
    }
    if x.calls.len() > 1 {
        seen.tag("mapped");
    }
    Ok(())
}

fn fill<D: Datastore>(db: &Database<D>, vs: &BTreeMap<Uuid, String>, deleted: &[Uuid]) -> R<BTreeMap<Uuid, String>> {
    let items: Vec<Item> = vs.iter().map(|(id, t)| Item::V(*id, t.clone())).collect();
    for op in [Op::Bulk(items), Op::Delete(Q::SpecV(deleted.to_vec()))] {
        let o = apply(db, &op);
        ensure!(matches!(o, Out::Unit), "outcome", "filling the database gave {o:?}");
    }
    let mut vs = vs.clone();
    deleted.iter().for_each(|d| {
        vs.remove(d);
    });
    Ok(vs)
}

impl Part for MapPart {
    type Case = MapCase;
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Mem => "map-memory",
            Kind::Rdb => "map-rocksdb",
        }
    }
    fn gen(&self, r: &mut Rand, i: usize) -> MapCase {
        let n = if i < 9 { [0, 1, 999, 1000, 1001, 2500, 8193, 4097, 20001][i] } else { count(r) };
        let some = |r: &mut Rand, p: f64| -> Vec<usize> {
            if n == 0 || !chance(r, p) {
                return vec![];
            }
            match r.gen_range(0..4) {
                0 => vec![r.gen_range(0..n)],
                1 => vec![if chance(r, 0.5) { 0 } else { n - 1 }],
                2 => (0..r.gen_range(1..20)).map(|_| r.gen_range(0..n)).collect(),
                _ => (0..n).filter(|_| chance(r, 0.5)).take(400).collect(),
            }
        };
        MapCase { n, salt: r.gen(), threads: threads(r), failing: some(r, 0.5), panicking: some(r, 0.15), deleted: some(r, 0.2), pause: *pick(r, &[0, 0, 1, 7, 50]) * if n > 5000 { 200 } else if n > 300 { 20 } else { 1 } }
    }
    fn run(&self, c: &MapCase, seen: &mut Seen) -> R {
        let vs: BTreeMap<Uuid, String> = (0..c.n.min(70000)).map(|k| vertex_of(k, c.salt)).map(|v| (v.0, v.1)).collect();
        let failing: HashSet<Uuid> = c.failing.iter().map(|k| vertex_of(*k, c.salt).0).collect();
        let panicking: HashSet<Uuid> = c.panicking.iter().take(50).map(|k| vertex_of(*k, c.salt).0).collect();
        let deleted: Vec<Uuid> = c.deleted.iter().map(|k| vertex_of(*k, c.salt).0).collect();
        let t = c.threads.map(|t| t.min(200));
        match self.kind {
            Kind::Mem => {
                let db = MemoryDatastore::new_db();
                let vs = fill(&db, &vs, &deleted)?;
                let x = run_map(&db.datastore.transaction(), t, failing.clone(), panicking.clone(), c.pause);
                judge_map(&x, &vs, &failing, &panicking, seen)
            }
            Kind::Rdb => {
                let r = Rdb::new();
                let vs = fill(r.db(), &vs, &deleted)?;
                let x = run_map(&r.db().datastore.transaction(), t, failing.clone(), panicking.clone(), c.pause);
                judge_map(&x, &vs, &failing, &panicking, seen)
            }
        }
    }
    fn nontrivial(&self, _c: &MapCase, seen: &Seen) -> bool {
        seen.has("mapped")
    }
    fn sample(&self, c: &MapCase) -> Value {
        json!({"n": c.n, "threads": c.threads, "failing": c.failing.len(), "deleted": c.deleted.len()})
    }
}

/// A transaction whose vertices are those given, with errors among them.
struct Broken {
    vs: Vec<Option<V>>,
    /// asking for the vertices fails at once
    at_once: bool,
}

macro_rules! none {
    ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        $(fn $f(&'a self, $($a: $t),*) -> indradb::Result<$r> { let _ = ($($a,)*); Err(indradb::Error::Unsupported) })*
    };
}

impl<'a> indradb::Transaction<'a> for Broken {
    fn vertex_count(&self) -> u64 {
        self.vs.len() as u64
    }
    fn all_vertices(&'a self) -> indradb::Result<indradb::DynIter<'a, indradb::Vertex>> {
        if self.at_once {
            return Err(indradb::Error::Unsupported);
        }
        Ok(Box::new(self.vs.iter().map(|v| match v {
            Some(v) => Ok(vertex(v.0, &v.1)),
            None => Err(indradb::Error::NotIndexed),
        })))
    }
    none! {
        range_vertices(o: Uuid) -> indradb::DynIter<'a, indradb::Vertex>;
        specific_vertices(i: Vec<Uuid>) -> indradb::DynIter<'a, indradb::Vertex>;
        vertex_ids_with_property(n: indradb::Identifier) -> Option<indradb::DynIter<'a, Uuid>>;
        vertex_ids_with_property_value(n: indradb::Identifier, v: &indradb::Json) -> Option<indradb::DynIter<'a, Uuid>>;
        all_edges() -> indradb::DynIter<'a, indradb::Edge>;
        range_edges(o: indradb::Edge) -> indradb::DynIter<'a, indradb::Edge>;
        range_reversed_edges(o: indradb::Edge) -> indradb::DynIter<'a, indradb::Edge>;
        specific_edges(e: Vec<indradb::Edge>) -> indradb::DynIter<'a, indradb::Edge>;
        edges_with_property(n: indradb::Identifier) -> Option<indradb::DynIter<'a, indradb::Edge>>;
        edges_with_property_value(n: indradb::Identifier, v: &indradb::Json) -> Option<indradb::DynIter<'a, indradb::Edge>>;
        all_vertex_properties_for_vertex(v: &indradb::Vertex) -> indradb::DynIter<'a, (indradb::Identifier, indradb::Json)>;
        all_edge_properties_for_edge(e: &indradb::Edge) -> indradb::DynIter<'a, (indradb::Identifier, indradb::Json)>;
    }
    fn edge_count(&self) -> u64 {
        0
    }
    fn vertex_property(&self, _: &indradb::Vertex, _: indradb::Identifier) -> indradb::Result<Option<indradb::Json>> {
        Err(indradb::Error::Unsupported)
    }
    fn edge_property(&self, _: &indradb::Edge, _: indradb::Identifier) -> indradb::Result<Option<indradb::Json>> {
        Err(indradb::Error::Unsupported)
    }
    fn delete_vertices(&mut self, _: Vec<indradb::Vertex>) -> indradb::Result<()> {
        Err(indradb::Error::Unsupported)
    }
    fn delete_edges(&mut self, _: Vec<indradb::Edge>) -> indradb::Result<()> {
        Err(indradb::Error::Unsupported)
    }
    fn delete_vertex_properties(&mut self, _: Vec<(Uuid, indradb::Identifier)>) -> indradb::Result<()> {
        Err(indradb::Error::Unsupported)
    }
    fn delete_edge_properties(&mut self, _: Vec<(indradb::Edge, indradb::Identifier)>) -> indradb::Result<()> {
        Err(indradb::Error::Unsupported)
    }
    fn create_vertex(&mut self, _: &indradb::Vertex) -> indradb::Result<bool> {
        Err(indradb::Error::Unsupported)
    }
    fn create_edge(&mut self, _: &indradb::Edge) -> indradb::Result<bool> {
        Err(indradb::Error::Unsupported)
    }
    fn index_property(&mut self, _: indradb::Identifier) -> indradb::Result<()> {
        Err(indradb::Error::Unsupported)
    }
    fn set_vertex_properties(&mut self, _: Vec<Uuid>, _: indradb::Identifier, _: &indradb::Json) -> indradb::Result<()> {
        Err(indradb::Error::Unsupported)
    }
    fn set_edge_properties(&mut self, _: Vec<indradb::Edge>, _: indradb::Identifier, _: &indradb::Json) -> indradb::Result<()> {
        Err(indradb::Error::Unsupported)
    }
}

/// A map over a datastore that fails while it is read.
struct BrokenPart;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BrokenCase {
    map: MapCase,
    errors: Vec<usize>,
    at_once: bool,
}

impl Part for BrokenPart {
    type Case = BrokenCase;
    fn name(&self) -> &'static str {
        "map-read-errors"
    }
    fn gen(&self, r: &mut Rand, i: usize) -> BrokenCase {
        let map = MapPart { kind: Kind::Mem }.gen(r, i);
        let errors = (0..r.gen_range(0..4)).map(|_| if chance(r, 0.2) { map.n } else { r.gen_range(0..=map.n) }).collect();
        BrokenCase { map, errors, at_once: chance(r, 0.1) }
    }
    fn run(&self, c: &BrokenCase, seen: &mut Seen) -> R {
        let mut vs: Vec<Option<V>> = (0..c.map.n.min(20000)).map(|k| Some(vertex_of(k, c.map.salt))).collect();
        let all: BTreeMap<Uuid, String> = vs.iter().flatten().map(|v| (v.0, v.1.clone())).collect();
        for e in &c.errors {
            let k = (*e).min(vs.len());
            vs.insert(k, None);
        }
        let failing: HashSet<Uuid> = c.map.failing.iter().map(|k| vertex_of(*k, c.map.salt).0).collect();
        let broken = c.at_once || vs.iter().any(|v| v.is_none());
        let t = Broken { vs, at_once: c.at_once };
        let mut x = run_map(&t, c.map.threads.map(|t| t.min(200)), failing.clone(), HashSet::new(), c.map.pause);
        if broken {
            match &x.err {
                None => return fail("no-error", "the vertices could not all be read, but the map did not fail"),
                Some(e) => {
                    seen.tag("read-error");
                    let own = [indradb::Error::NotIndexed, indradb::Error::Unsupported].map(|e| host::Error::IndraDB(e).to_string());
                    if own.contains(e) {
                        // judge the calls alone
                        let failed = x.calls.iter().find(|c| failing.contains(&c.0)).map(|c| c.0);
                        let v = if failed.is_some() { all.clone() } else { x.calls.iter().cloned().collect() };
                        for (id, t) in &x.calls {
                            ensure!(all.get(id) == Some(t), "stranger", "called for {id} of type {t:?}");
                        }
                        x.err = failed.map(|id| format!("failed at {id}"));
                        return judge_map(&x, &v, &failing, &HashSet::new(), seen);
                    }
                }
            }
        }
        judge_map(&x, &all, &failing, &HashSet::new(), seen)
    }
    fn nontrivial(&self, _c: &BrokenCase, seen: &Seen) -> bool {
        seen.has("read-error")
    }
    fn sample(&self, c: &BrokenCase) -> Value {
        json!({"n": c.map.n, "threads": c.map.threads, "failing": c.map.failing.len(), "errors": c.errors, "at_once": c.at_once})
    }
}

// ---- C19: plugins in a server ----

/// A step of the checks' own plugin.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum St {
    CreateV(Uuid, String),
    CreateE(E),
    SetV(Vec<Uuid>, String, J),
    SetE(Vec<E>, String, J),
    DelV(Vec<Uuid>),
    DelE(Vec<E>),
    DelVP(Vec<(Uuid, String)>),
    DelEP(Vec<(E, String)>),
    Index(String),
    VProp(Uuid, String),
    EProp(E, String),
    With(String),
    WithVal(String, J),
    Dump,
    OfType(String),
    There(Vec<E>),
    Map(usize, Vec<Uuid>, u64),
}

fn ej(e: &E) -> Value {
    json!([e.o.to_string(), e.t, e.i.to_string()])
}

fn vj(id: &Uuid) -> Value {
    json!(id.to_string())
}

impl St {
    /// Without what the transaction leaves open: writes to elements that are not there.
    fn sane(&self, m: &Model) -> St {
        let live = |x: &[Uuid]| x.iter().filter(|i| m.v.contains_key(i)).cloned().collect::<Vec<_>>();
        let there = |x: &[E]| x.iter().filter(|e| m.e.contains(e)).cloned().collect::<Vec<_>>();
        match self {
            St::SetV(v, n, j) => St::SetV(live(v), n.clone(), j.clone()),
            St::SetE(v, n, j) => St::SetE(there(v), n.clone(), j.clone()),
            St::DelV(v) => St::DelV(live(v)),
            St::DelE(v) => St::DelE(there(v)),
            St::DelVP(v) => St::DelVP(v.iter().filter(|x| m.vp.contains_key(x)).cloned().collect()),
            St::DelEP(v) => St::DelEP(v.iter().filter(|x| m.ep.contains_key(x)).cloned().collect()),
            s => s.clone(),
        }
    }
    fn json(&self) -> Value {
        let ids = |v: &[Uuid]| v.iter().map(vj).collect::<Vec<_>>();
        let es = |v: &[E]| v.iter().map(ej).collect::<Vec<_>>();
        match self {
            St::CreateV(id, t) => json!(["create-vertex", vj(id), t]),
            St::CreateE(e) => json!(["create-edge", ej(e)]),
            St::SetV(v, n, j) => json!(["set-vertices", ids(v), n, j.0]),
            St::SetE(v, n, j) => json!(["set-edges", es(v), n, j.0]),
            St::DelV(v) => json!(["delete-vertices", ids(v)]),
            St::DelE(v) => json!(["delete-edges", es(v)]),
            St::DelVP(v) => json!(["delete-vertex-properties", v.iter().map(|(i, n)| json!([vj(i), n])).collect::<Vec<_>>()]),
            St::DelEP(v) => json!(["delete-edge-properties", v.iter().map(|(e, n)| json!([ej(e), n])).collect::<Vec<_>>()]),
            St::Index(n) => json!(["index", n]),
            St::VProp(i, n) => json!(["vertex-property", vj(i), n]),
            St::EProp(e, n) => json!(["edge-property", ej(e), n]),
            St::With(n) => json!(["with-property", n]),
            St::WithVal(n, j) => json!(["with-value", n, j.0]),
            St::Dump => json!(["dump"]),
            St::OfType(t) => json!(["of-type", t]),
            St::There(v) => json!(["edges-there", es(v)]),
            St::Map(t, f, p) => json!(["map", t, ids(f), p]),
        }
    }
    /// Applies the step to the model and compares the plugin's answer.
    fn judge(&self, m: &mut Model, got: &Value, seen: &mut Seen) -> R {
        let want = |w: Value| -> R {
            ensure!(J(got.clone()) == J(w.clone()), "plugin-answer", "{self:?} answered {got}, expected {w}");
            Ok(())
        };
        match self {
            St::CreateV(id, t) => want(json!(m.create_v(*id, t))),
            St::CreateE(e) => want(json!(m.create_e(e))),
            St::SetV(v, n, j) => {
                for id in v {
                    m.vp.insert((*id, n.clone()), j.clone());
                }
                want(Value::Null)
            }
            St::SetE(v, n, j) => {
                for e in v {
                    m.ep.insert((e.clone(), n.clone()), j.clone());
                }
                want(Value::Null)
            }
            St::DelV(v) => {
                v.iter().for_each(|id| m.del_v(*id));
                want(Value::Null)
            }
            St::DelE(v) => {
                v.iter().for_each(|e| m.del_e(e));
                want(Value::Null)
            }
            St::DelVP(v) => {
                v.iter().for_each(|k| {
                    m.vp.remove(k);
                });
                want(Value::Null)
            }
            St::DelEP(v) => {
                v.iter().for_each(|k| {
                    m.ep.remove(k);
                });
                want(Value::Null)
            }
            St::Index(n) => {
                m.idx.insert(n.clone());
                want(Value::Null)
            }
            St::VProp(i, n) => want(m.vp.get(&(*i, n.clone())).map_or(Value::Null, |j| json!([j.0]))),
            St::EProp(e, n) => want(m.ep.get(&(e.clone(), n.clone())).map_or(Value::Null, |j| json!([j.0]))),
            St::With(n) => {
                if !m.idx.contains(n) {
                    return want(json!([null, null]));
                }
                seen.tag("plugin-index");
                self.found(m, got, Q::VProp(n.clone()), Q::EProp(n.clone()))
            }
            St::WithVal(n, j) => {
                if !m.idx.contains(n) {
                    return want(json!([null, null]));
                }
                seen.tag("plugin-index");
                self.found(m, got, Q::VVal(n.clone(), j.clone()), Q::EVal(n.clone(), j.clone()))
            }
            St::Dump => {
                let bad = || Fail { kind: "plugin-answer".into(), msg: format!("{self:?} answered {got}") };
                let vs = got[0].as_array().ok_or_else(bad)?;
                let es = got[1].as_array().ok_or_else(bad)?;
                let props = |v: &Value| -> Vec<(String, J)> { v.as_array().map_or(vec![], |a| a.iter().map(|p| (p[0].as_str().unwrap_or("?").to_string(), J(p[1].clone()))).collect()) };
                let mut x = Model { idx: m.idx.clone(), ..Model::new() };
                for v in vs {
                    let id = Uuid::parse_str(v[0].as_str().ok_or_else(bad)?).map_err(|_| bad())?;
                    ensure!(x.create_v(id, v[1].as_str().ok_or_else(bad)?), "plugin-answer", "the plugin saw {id} twice");
                    x.vp.extend(props(&v[2]).into_iter().map(|(n, j)| ((id, n), j)));
                }
                for v in es {
                    let e = as_edge(v).ok_or_else(bad)?;
                    ensure!(x.e.insert(e.clone()), "plugin-answer", "the plugin saw {e:?} twice");
                    x.ep.extend(props(&v[3]).into_iter().map(|(n, j)| ((e.clone(), n), j)));
                }
                ensure!(x == *m, "plugin-view", "the plugin saw\n  {x:?}\n  instead of\n  {m:?}");
                ensure!(got[2] == json!(m.v.len()) && got[3] == json!(m.e.len()), "plugin-view", "the plugin counted {} vertices and {} edges, there are {} and {}", got[2], got[3], m.v.len(), m.e.len());
                Ok(())
            }
            St::OfType(t) => {
                let vs: Vec<Uuid> = m.v.iter().filter(|(_, x)| *x == t).map(|(id, _)| *id).collect();
                let es: Vec<&E> = m.e.iter().filter(|e| e.t == *t).collect();
                if vs.len() + es.len() > 0 {
                    seen.tag("plugin-type");
                }
                let sorted = |v: &Value| {
                    let mut a: Vec<String> = v.as_array().map_or(vec![], |a| a.iter().map(|x| x.to_string()).collect());
                    a.sort();
                    a
                };
                let w = json!([vs.iter().map(vj).collect::<Vec<_>>(), es.into_iter().map(ej).collect::<Vec<_>>()]);
                ensure!(sorted(&got[0]) == sorted(&w[0]) && sorted(&got[1]) == sorted(&w[1]), "plugin-type", "the plugin found {got} of type {t:?}, expected {w}");
                Ok(())
            }
            St::There(v) => {
                let o: Option<Vec<E>> = got.as_array().and_then(|a| a.iter().map(as_edge).collect());
                match o {
                    Some(o) => m.check_leaf(&Q::SpecE(v.clone()), &O::E(o)),
                    None => fail("plugin-answer", format!("{self:?} answered {got}")),
                }
            }
            St::Map(_, failing, _) => {
                let bad = || Fail { kind: "plugin-answer".into(), msg: format!("{self:?} answered {got}") };
                let mut calls = vec![];
                for c in got[0].as_array().ok_or_else(bad)? {
                    calls.push((Uuid::parse_str(c[0].as_str().ok_or_else(bad)?).map_err(|_| bad())?, c[1].as_str().ok_or_else(bad)?.to_string()));
                }
                let x = Mapped {
                    calls,
                    begun: got[1].as_u64().ok_or_else(bad)? as usize,
                    done: got[2].as_u64().ok_or_else(bad)? as usize,
                    err: got[3].as_str().map(|s| s.to_string()),
                };
                judge_map(&x, &m.v, &failing.iter().cloned().collect(), &HashSet::new(), seen)
            }
        }
    }
    fn found(&self, m: &Model, got: &Value, qv: Q, qe: Q) -> R {
        let vs: Option<BTreeSet<Uuid>> = got[0].as_array().and_then(|a| a.iter().map(|x| x.as_str().and_then(|s| Uuid::parse_str(s).ok())).collect());
        let es: Option<BTreeSet<E>> = got[1].as_array().and_then(|a| a.iter().map(as_edge).collect());
        let (Some(vs), Some(es)) = (vs, es) else { return fail("plugin-index", format!("{self:?} answered {got}, but the property is indexed")) };
        let (O::V(wv), O::E(we)) = (m.leaf(&qv), m.leaf(&qe)) else { unreachable!() };
        let (wv, we): (BTreeSet<Uuid>, BTreeSet<E>) = (wv.iter().map(|v| v.0).collect(), we.into_iter().collect());
        ensure!(vs == wv && es == we, "plugin-index", "{self:?} answered {got}, expected {wv:?} and {we:?}");
        Ok(())
    }
}

fn as_edge(v: &Value) -> Option<E> {
    Some(E { o: Uuid::parse_str(v[0].as_str()?).ok()?, t: v[1].as_str()?.into(), i: Uuid::parse_str(v[2].as_str()?).ok()? })
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum PAct {
    Op(Op),
    Call(Vec<St>),
    /// the greeting; no argument if none
    Hello(Option<J>),
    Count,
    Echo(Option<J>),
    Unknown(String),
    Fail(String, String),
    BadArg(String, String),
}

struct PluginPart {
    kind: Kind,
}

/// How a server on the datastore is asked for.
fn store_args(k: Kind, dir: &Path) -> Vec<String> {
    match k {
        Kind::Mem => vec!["memory".into()],
        Kind::Rdb => vec!["rocksdb".into(), dir.join("db").to_string_lossy().into_owned(), "--max-open-files".into(), "64".into()],
    }
}

fn link(from: &Path, to: &Path) {
    std::os::unix::fs::symlink(from, to).unwrap_or_else(|e| panic!("link {to:?}: {e}"));
}

fn st(r: &mut Rand, w: &gen::World, m: &Model) -> St {
    let ids = |r: &mut Rand| (0..r.gen_range(0..4)).map(|_| w.live_id(r, m)).collect::<Vec<_>>();
    let es = |r: &mut Rand| (0..r.gen_range(0..4)).map(|_| w.live_edge(r, m)).collect::<Vec<_>>();
    match r.gen_range(0..34) {
        0..=3 => St::CreateV(w.id(r), w.vt(r)),
        4..=7 => St::CreateE(w.any_edge(r, m)),
        8..=10 => St::SetV(ids(r), w.nm(r), w.val(r)),
        11..=13 => St::SetE(es(r), w.nm(r), w.val(r)),
        14 => St::DelV(ids(r)),
        15 => St::DelE(es(r)),
        16 => St::DelVP(m.vp.keys().filter(|_| chance(r, 0.4)).cloned().collect()),
        17 => St::DelEP(m.ep.keys().filter(|_| chance(r, 0.4)).cloned().collect()),
        18 => St::Index(w.nm(r)),
        19 => St::VProp(w.live_id(r, m), w.nm(r)),
        20 => St::EProp(w.live_edge(r, m), w.nm(r)),
        21 | 22 => St::With(w.inm(r, m, 0.2)),
        23 | 24 => {
            let n = w.inm(r, m, 0.2);
            let j = w.held(r, m, &n);
            St::WithVal(n, j)
        }
        25..=27 => St::Dump,
        28 | 29 => St::OfType(if chance(r, 0.5) { w.vt(r) } else { w.et(r) }),
        30 => St::There(es(r)),
        _ => St::Map(*pick(r, &[0, 1, 2, 8, 17]), if chance(r, 0.4) { ids(r) } else { vec![] }, *pick(r, &[0, 1, 5])),
    }
}

impl Part for PluginPart {
    type Case = Vec<PAct>;
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Mem => "server-memory",
            Kind::Rdb => "server-rocksdb",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Self::Case {
        let w = gen::world(r, 5);
        let mix = Mix { index: 2, get: 4, vdel: 0.1, ..Mix::BASE };
        let mut m = Model::new();
        let mut out = vec![];
        let n = r.gen_range(6..25);
        for k in 0..n {
            let a = match r.gen_range(0..20) {
                _ if k < 3 => PAct::Op(gen::op(r, &w, &m, &mix)),
                0..=6 => PAct::Op(gen::op(r, &w, &m, &mix)),
                7..=14 => {
                    let mut sts = vec![];
                    for _ in 0..r.gen_range(1..7) {
                        let s = st(r, &w, &m).sane(&m);
                        // (the model at this point only guides)
                        let _ = s.judge(&mut m, &Value::Null, &mut Seen::default());
                        sts.push(s);
                    }
                    out.push(PAct::Call(sts));
                    continue;
                }
                15 => PAct::Hello(if chance(r, 0.2) { None } else { Some(w.val(r)) }),
                16 => PAct::Count,
                17 => PAct::Echo(if chance(r, 0.3) { None } else { Some(w.val(r)) }),
                18 => PAct::Unknown((*pick(r, &["", "Echo", "echo ", "hello", "hello_world2", "naive-vertex-count", "register", "é"])).into()),
                _ => {
                    if chance(r, 0.5) {
                        PAct::Fail((*pick(r, &["argument", "json", "indradb", "other"])).into(), gen::string(r))
                    } else {
                        PAct::BadArg((*pick(r, &["echo", "steps", "hello_world", "nothing"])).into(), (*pick(r, &["", "{", "nul", "[1,]", "1 2", "'a'", "\"", "NaN"])).into())
                    }
                }
            };
            if let PAct::Op(o) = &a {
                gen::guess(&mut m, o);
            }
            out.push(a);
        }
        out
    }
    fn run(&self, c: &Self::Case, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        std::fs::create_dir(dir.path("p")).unwrap();
        for (k, f) in [bin("libindradb_plugin_hello_world.so"), bin("libindradb_plugin_naive_vertex_count.so"), plugin_lib()].iter().enumerate() {
            link(f, &dir.path(&format!("p/{k}.so")));
        }
        let mut args = vec!["-a".to_string(), any_address(), "-p".to_string(), dir.path("p/*.so").to_string_lossy().into_owned()];
        args.extend(store_args(self.kind, &dir.0));
        let mut p = up(&args, &[], &dir.0)?;
        let ops: Vec<Op> = c.iter().filter_map(|a| if let PAct::Op(o) = a { Some(o.clone()) } else { None }).collect();
        let x = mentions(&ops);
        let names: Vec<String> = x.names.iter().cloned().collect();
        let vals: Vec<J> = x.vals.iter().take(3).cloned().collect();
        let mut m = Model::new();
        for (k, a) in c.iter().enumerate() {
            let at = |f: Fail| Fail { kind: f.kind, msg: format!("at action {k} ({a:?}): {}", f.msg) };
            plugin_act(&mut p, &mut m, a, seen).map_err(at)?;
            p.alive().map_err(at)?;
            if !matches!(a, PAct::Op(_)) {
                check_all(&mut p.net, &m, &names, &vals).map_err(at)?;
            }
        }
        check_all(&mut p.net, &m, &names, &vals)
    }
    fn nontrivial(&self, _c: &Self::Case, seen: &Seen) -> bool {
        seen.has("plugin-write") && seen.has("mapped")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 600)
    }
}

fn execute(p: &mut Proc, name: &str, arg: Option<String>) -> R<Result<Value, tonic::Status>> {
    let req = p::ExecutePluginRequest { name: name.into(), arg: arg.map(|value| p::Json { value }) };
    let mut raw = p.net.raw.clone();
    match p.net.wait(raw.execute_plugin(req))? {
        Ok(r) => match r.into_inner().value {
            None => Ok(Ok(Value::Null)),
            Some(j) => match serde_json::from_str(&j.value) {
                Ok(v) => Ok(Ok(v)),
                Err(e) => fail("answer", format!("plugin {name:?} answered {:?}: {e}", j.value)),
            },
        },
        Err(s) => Ok(Err(s)),
    }
}

/// As `execute`, through the client's own method.
fn execute_client(p: &mut Proc, name: &str, arg: &J) -> R<Result<Value, String>> {
    let mut c = p.net.client.clone();
    match p.net.wait(c.execute_plugin(name, json(arg)))? {
        Ok(j) => Ok(Ok((*j.0).clone())),
        Err(e) => Ok(Err(e.to_string())),
    }
}

fn refused(what: &str, r: R<Result<Value, tonic::Status>>) -> R {
    match r? {
        Ok(v) => fail("accepted", format!("{what} answered {v}")),
        Err(s) => {
            // an answer of the server, not of a transport that lost it
            ensure!(!matches!(s.code(), Code::Unavailable | Code::Ok | Code::Cancelled) && !s.message().contains("transport"), "code", "{what} was answered with {s:?}");
            Ok(())
        }
    }
}

fn equals(what: &str, r: R<Result<Value, impl std::fmt::Debug>>, want: Value) -> R {
    match r? {
        Ok(v) if J(v.clone()) == J(want.clone()) => Ok(()),
        o => fail("plugin-result", format!("{what} gave {o:?}, expected {want}")),
    }
}

fn plugin_act(p: &mut Proc, m: &mut Model, a: &PAct, seen: &mut Seen) -> R {
    match a {
        PAct::Op(o) => step(&mut p.net, m, o, seen),
        PAct::Call(sts) => {
            // what is there when a step's turn comes
            let mut x = m.clone();
            let mut sane = vec![];
            for s in sts {
                let s = s.sane(&x);
                let _ = s.judge(&mut x, &Value::Null, &mut Seen::default());
                sane.push(s);
            }
            let arg = J(Value::Array(sane.iter().map(|s| s.json()).collect()));
            match execute_client(p, "steps", &arg)? {
                Err(e) => fail("plugin-failed", format!("the plugin failed: {e}")),
                Ok(v) => {
                    let n = v.as_array().map_or(0, |a| a.len());
                    ensure!(n == sane.len(), "plugin-result", "{} steps were answered with {v}", sane.len());
                    for (k, s) in sane.iter().enumerate() {
                        let was = m.clone();
                        s.judge(m, &v[k], seen)?;
                        if *m != was {
                            seen.tag("plugin-write");
                        }
                    }
                    Ok(())
                }
            }
        }
        PAct::Hello(None) => equals("the greeting of nothing", execute(p, "hello_world", None), json!("hello, null")),
        PAct::Hello(Some(j)) => equals("the greeting", execute_client(p, "hello_world", j), json!(format!("hello, {}", j.0))),
        PAct::Count => equals("the count", execute_client(p, "naive_vertex_count", &J(Value::Null)), json!(m.v.len())),
        PAct::Echo(None) => equals("the echo of nothing", execute(p, "echo", None), json!([null])),
        PAct::Echo(Some(j)) => equals("the echo", execute_client(p, "echo", j), json!([j.0])),
        PAct::Unknown(n) => {
            if ["echo", "steps", "hello_world", "naive_vertex_count"].contains(&n.as_str()) {
                return Ok(());
            }
            seen.tag("unknown");
            refused("a plugin nobody has", execute(p, n, None))
        }
        PAct::Fail(k, s) => {
            seen.tag("plugin-error");
            refused("a failing plugin", execute(p, "steps", Some(json!([["fail", k, s]]).to_string())))
        }
        PAct::BadArg(n, s) => {
            if serde_json::from_str::<Value>(s).is_ok() {
                return Ok(());
            }
            seen.tag("bad-argument");
            refused("an argument that is no JSON", execute(p, n, Some(s.clone())))
        }
    }
}

// ---- C19: libraries ----

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Lib {
    Hello,
    Count,
    Steps,
    /// no library at all
    Text,
    /// a library that declares no plugins
    Foreign,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LibCase {
    kind: Kind,
    /// directory (0: the top one), first letter, library
    files: Vec<(u8, char, Lib)>,
    pattern: u8,
    /// what the checks' own library claims to be made for: compiler, interface
    claims: (Option<String>, Option<u8>),
    vertices: usize,
}

struct LibPart;

fn foreign() -> Option<&'static Path> {
    ["/lib/x86_64-linux-gnu/libm.so.6", "/usr/lib/x86_64-linux-gnu/libm.so.6", "/lib64/libm.so.6"].iter().map(Path::new).find(|p| p.exists())
}

impl LibCase {
    fn path(&self, k: usize) -> String {
        let (d, c, _) = &self.files[k];
        let d = match d % 3 {
            0 => "",
            1 => "x/",
            _ => "x/y/",
        };
        format!("{d}{c}{k}.so")
    }
    /// The pattern, and whether it means the file.
    fn pattern(&self) -> (&'static str, fn(&str) -> bool) {
        match self.pattern % 8 {
            0 | 1 => ("*.so", |f| !f.contains('/')),
            2 => ("**/*.so", |_| true),
            3 => ("x/*.so", |f| f.starts_with("x/") && !f.starts_with("x/y/")),
            4 => ("a*.so", |f| f.starts_with('a')),
            5 => ("[ab]?.so", |f| f.starts_with('a') || f.starts_with('b')),
            6 => ("*/y/*", |f| f.starts_with("x/y/")),
            _ => ("*.dll", |_| false),
        }
    }
}

impl Part for LibPart {
    type Case = LibCase;
    fn name(&self) -> &'static str {
        "libraries"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> LibCase {
        let bad = chance(r, 0.3);
        let files = (0..r.gen_range(0..6))
            .map(|_| {
                let l = match r.gen_range(0..if bad { 10 } else { 8 }) {
                    0 | 1 => Lib::Hello,
                    2 | 3 => Lib::Count,
                    4..=7 => Lib::Steps,
                    8 => Lib::Text,
                    _ => Lib::Foreign,
                };
                (if chance(r, 0.7) { 0 } else { r.gen_range(0..3) }, *pick(r, &['a', 'b', 'c']), l)
            })
            .collect();
        let own = host::VersionInfo::default();
        let claims = match r.gen_range(0..8) {
            0..=3 => (None, None),
            4 => (Some(own.rustc.clone()), Some(own.plugin_interface)),
            5 => (None, Some(*pick(r, &[0, own.plugin_interface - 1, own.plugin_interface + 1, 255]))),
            6 => (
                Some(match r.gen_range(0..5) {
                    0 => String::new(),
                    1 => own.rustc.to_uppercase(),
                    2 => own.rustc[..own.rustc.len() - 1].to_string(),
                    3 => format!("{} ", own.rustc),
                    _ => "rustc 1.55.0".into(),
                }),
                None,
            ),
            _ => (Some("rustc 1.0.0".into()), Some(7)),
        };
        LibCase { kind: if chance(r, 0.8) { Kind::Mem } else { Kind::Rdb }, files, pattern: r.gen(), claims, vertices: *pick(r, &[0, 1, 7, 50]) }
    }
    fn run(&self, c: &LibCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        std::fs::create_dir_all(dir.path("p/x/y")).unwrap();
        let own = host::VersionInfo::default();
        let other = c.claims.0.as_ref().is_some_and(|v| *v != own.rustc) || c.claims.1.is_some_and(|v| v != own.plugin_interface);
        let (pattern, means) = c.pattern();
        let mut have = BTreeSet::new();
        let mut refuse = false;
        for (k, f) in c.files.iter().enumerate() {
            let path = c.path(k);
            let to = dir.path(&format!("p/{path}"));
            let on = means(&path);
            match &f.2 {
                Lib::Hello => link(&bin("libindradb_plugin_hello_world.so"), &to),
                Lib::Count => link(&bin("libindradb_plugin_naive_vertex_count.so"), &to),
                Lib::Steps => link(&plugin_lib(), &to),
                Lib::Text => std::fs::write(&to, "not a library\n").unwrap(),
                Lib::Foreign => match foreign() {
                    Some(p) => link(p, &to),
                    None => continue,
                },
            }
            if on {
                match &f.2 {
                    Lib::Text | Lib::Foreign => refuse = true,
                    Lib::Steps if other => {
                        seen.tag("mismatch");
                        refuse = true
                    }
                    l => {
                        have.insert(format!("{l:?}"));
                    }
                }
            }
        }
        let mut args = vec!["-a".to_string(), any_address(), "--plugins".to_string(), dir.path("p").join(pattern).to_string_lossy().into_owned()];
        args.extend(store_args(c.kind, &dir.0));
        let mut envs = vec![];
        if let Some(v) = &c.claims.0 {
            envs.push(("VERIF_PLUGIN_RUSTC".to_string(), v.clone()));
        }
        if let Some(v) = &c.claims.1 {
            envs.push(("VERIF_PLUGIN_INTERFACE".to_string(), v.to_string()));
        }
        let s = start(&args, &envs, &dir.0)?;
        let mut p = match (s, refuse) {
            (Start::Up(_), true) => return fail("bad-library", "the server runs with a library it must refuse"),
            (Start::Refused(s, m), true) => {
                seen.tag("refused");
                ensure!(!s.success(), "exit", "the server refused a library, but ended with success: {m}");
                return Ok(());
            }
            (Start::Refused(s, m), false) => return fail("start", format!("the server did not start: {s}: {m}")),
            (Start::Up(p), false) => p,
        };
        let items: Vec<Item> = (0..c.vertices).map(|k| vertex_of(k, 5)).map(|v| Item::V(v.0, v.1)).collect();
        let mut m = Model::new();
        step(&mut p.net, &mut m, &Op::Bulk(items), &mut Seen::default())?;
        for (lib, name, arg, want) in [
            ("Hello", "hello_world", json!({"a": [1, null]}), json!("hello, {\"a\":[1,null]}")),
            ("Count", "naive_vertex_count", json!(null), json!(c.vertices)),
            ("Steps", "echo", json!("x"), json!(["x"])),
            ("None", "echo2", json!("x"), json!(null)),
        ] {
            let r = execute(&mut p, name, Some(arg.to_string()));
            if have.contains(lib) {
                equals(name, r, want)?;
                seen.tag("called");
            } else {
                refused(&format!("plugin {name:?}, which was not loaded,"), r)?;
            }
        }
        p.alive()?;
        check_all(&mut p.net, &m, &[], &[])
    }
    fn nontrivial(&self, _c: &LibCase, seen: &Seen) -> bool {
        seen.has("refused") || seen.has("called")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 600)
    }
}

// ---- C20: the command line and restarts ----

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Cmd {
    Ping,
    SetV(String, Option<Uuid>),
    SetE(E),
    SetVP(Uuid, String, J),
    SetEP(E, String, J),
    CountV,
    CountE,
    GetV(Uuid),
    GetE(E),
    GetVP(Uuid, Option<String>),
    GetEP(E, Option<String>),
    DelV(Uuid),
    DelE(E),
    DelVP(Uuid, String),
    DelEP(E, String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Act {
    /// a client command; the number varies how its arguments are written
    Cli(Cmd, u8),
    /// a client command with one argument (the first number: which) replaced by nonsense (the second)
    Bad(Cmd, u8, u8),
    Rpc(Op),
    /// the server is ended (the first number: how) and started again (the second: how)
    Restart(u8, u8),
    /// operations one after the other until the server, killed so many microseconds later, no longer answers
    Storm(Vec<Op>, u32),
    /// a second server at the same address or on the same database
    Second(bool),
    /// a client command while no server runs
    Alone(Cmd),
    /// the server is ended and what it stored damaged (how, and where); started then, it ends with a failure and
    /// touches nothing; after the damage is undone it starts again
    Damage(u8, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Config {
    Default,
    Memory,
    Persist,
    Rocksdb,
}

struct Restarts {
    name: &'static str,
    config: Config,
}

fn write_id(id: &Uuid, how: u8) -> String {
    match how % 8 {
        1 => id.simple().to_string(),
        2 => id.urn().to_string(),
        3 => id.braced().to_string(),
        4 => id.to_string().to_uppercase(),
        _ => id.to_string(),
    }
}

fn write_json(j: &J, how: u8) -> String {
    match how % 4 {
        1 => serde_json::to_string_pretty(&j.0).unwrap(),
        2 => format!(" \t{} \n", j.0),
        _ => j.0.to_string(),
    }
}

impl Cmd {
    /// Words of the command, its named option, its arguments with what they are ('i'd, 'n'ame, 'j'son).
    #[allow(clippy::type_complexity)]
    fn parts(&self, how: u8) -> (Vec<&'static str>, Option<(&'static str, char, String)>, Vec<(char, String)>) {
        let e = |e: &E| vec![('i', write_id(&e.o, how)), ('n', e.t.clone()), ('i', write_id(&e.i, how >> 3))];
        let v = |id: &Uuid| vec![('i', write_id(id, how))];
        let plus = |mut a: Vec<(char, String)>, b: Vec<(char, String)>| {
            a.extend(b);
            a
        };
        let name = |n: &Option<String>| n.as_ref().map(|n| ("name", 'n', n.clone()));
        match self {
            Cmd::Ping => (vec!["ping"], None, vec![]),
            Cmd::SetV(t, id) => (vec!["set", "vertex"], id.map(|id| ("id", 'i', write_id(&id, how))), vec![('n', t.clone())]),
            Cmd::SetE(x) => (vec!["set", "edge"], None, e(x)),
            Cmd::SetVP(id, n, j) => (vec!["set", "vertex-property"], None, plus(v(id), vec![('n', n.clone()), ('j', write_json(j, how))])),
            Cmd::SetEP(x, n, j) => (vec!["set", "edge-property"], None, plus(e(x), vec![('n', n.clone()), ('j', write_json(j, how))])),
            Cmd::CountV => (vec!["count", "vertex"], None, vec![]),
            Cmd::CountE => (vec!["count", "edge"], None, vec![]),
            Cmd::GetV(id) => (vec!["get", "vertex"], None, v(id)),
            Cmd::GetE(x) => (vec!["get", "edge"], None, e(x)),
            Cmd::GetVP(id, n) => (vec!["get", "vertex-property"], name(n), v(id)),
            Cmd::GetEP(x, n) => (vec!["get", "edge-property"], name(n), e(x)),
            Cmd::DelV(id) => (vec!["delete", "vertex"], None, v(id)),
            Cmd::DelE(x) => (vec!["delete", "edge"], None, e(x)),
            Cmd::DelVP(id, n) => (vec!["delete", "vertex-property"], None, plus(v(id), vec![('n', n.clone())])),
            Cmd::DelEP(x, n) => (vec!["delete", "edge-property"], None, plus(e(x), vec![('n', n.clone())])),
        }
    }
    fn args(&self, how: u8) -> Vec<String> {
        self.assemble(self.parts(how))
    }
    #[allow(clippy::type_complexity)]
    fn assemble(&self, (words, option, args): (Vec<&'static str>, Option<(&'static str, char, String)>, Vec<(char, String)>)) -> Vec<String> {
        let mut out: Vec<String> = words.iter().map(|s| s.to_string()).collect();
        if let Some((n, _, v)) = option {
            // an empty value can only be given on its own, one that looks like an option only so
            if v.is_empty() {
                out.push(format!("--{n}"));
                out.push(v);
            } else {
                out.push(format!("--{n}={v}"));
            }
        }
        if !args.is_empty() {
            out.push("--".into());
        }
        out.extend(args.into_iter().map(|a| a.1));
        out
    }
    /// With an argument replaced by something that is none; nothing if the command has no argument.
    fn spoilt(&self, which: u8, what: u8) -> Option<Vec<String>> {
        let (words, mut option, mut args) = self.parts(0);
        let n = args.len() + option.is_some() as usize;
        if n == 0 {
            return None;
        }
        let k = which as usize % n;
        let nonsense = |c: char, old: &str| -> String {
            match c {
                'i' => match what % 7 {
                    0 => String::new(),
                    1 => "x".into(),
                    2 => old[..old.len() - 1].to_string(),
                    3 => format!("{old}0"),
                    4 => format!("g{}", &old[1..]),
                    5 => format!("{old} "),
                    _ => "00000000-0000-0000-0000_000000000000".into(),
                },
                'n' => match what % 5 {
                    0 => "$".into(),
                    1 => " ".into(),
                    2 => "a".repeat(256),
                    3 => "é".repeat(128),
                    _ => format!("{}.", old.chars().take(20).collect::<String>()),
                },
                _ => (*["", "{", "nul", "'a'", "1 2", "[1,]", "{\"a\":}", "NaN", "\"\u{1}\""].get(what as usize % 9).unwrap()).into(),
            }
        };
        if k < args.len() {
            args[k].1 = nonsense(args[k].0, &args[k].1);
        } else {
            let o = option.as_mut().unwrap();
            o.2 = nonsense(o.1, &o.2);
        }
        Some(self.assemble((words, option, args)))
    }
    /// The operation it stands for.
    fn op(&self) -> Option<Op> {
        let v = |id: &Uuid| Q::SpecV(vec![*id]);
        let e = |e: &E| Q::SpecE(vec![e.clone()]);
        let props = |q: Q, n: &Option<String>| Q::Props { inner: Box::new(q), name: n.clone() };
        Some(match self {
            Cmd::Ping | Cmd::SetV(_, None) => return None,
            Cmd::SetV(t, Some(id)) => Op::CreateV(*id, t.clone()),
            Cmd::SetE(e) => Op::CreateE(e.clone()),
            Cmd::SetVP(id, n, j) => Op::Set(v(id), n.clone(), j.clone()),
            Cmd::SetEP(x, n, j) => Op::Set(e(x), n.clone(), j.clone()),
            Cmd::CountV => Op::Get(Q::Count(Box::new(Q::AllV))),
            Cmd::CountE => Op::Get(Q::Count(Box::new(Q::AllE))),
            Cmd::GetV(id) => Op::Get(v(id)),
            Cmd::GetE(x) => Op::Get(e(x)),
            Cmd::GetVP(id, n) => Op::Get(props(v(id), n)),
            Cmd::GetEP(x, n) => Op::Get(props(e(x), n)),
            Cmd::DelV(id) => Op::Delete(v(id)),
            Cmd::DelE(x) => Op::Delete(e(x)),
            Cmd::DelVP(id, n) => Op::Delete(props(v(id), &Some(n.clone()))),
            Cmd::DelEP(x, n) => Op::Delete(props(e(x), &Some(n.clone()))),
        })
    }
}

/// Runs the client: whether it succeeded, and its output.
fn client(addr: &str, args: &[String]) -> R<(bool, String, String)> {
    let mut c = command(&bin("indradb-client"));
    c.arg(addr).args(args).stdout(Stdio::piped()).stderr(Stdio::piped());
    let o = c.spawn().expect("run the client").wait_with_output().unwrap();
    if let Some(s) = o.status.signal() {
        return fail("client-crash", format!("the client {args:?} ended by signal {s}: {}", String::from_utf8_lossy(&o.stderr)));
    }
    Ok((o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned()))
}

fn vertices(s: &mut dyn Store) -> R<BTreeSet<(Uuid, String)>> {
    match one(s, &Q::AllV)? {
        O::V(v) => Ok(v.into_iter().map(|v| (v.0, v.1)).collect()),
        o => fail("outcome", format!("all vertices are {o:?}")),
    }
}

/// Runs a command and compares output, exit status and effect.
fn cli(p: &mut Proc, m: &mut Model, c: &Cmd, how: u8, seen: &mut Seen) -> R {
    let args = c.args(how);
    // asked before, the answer in the server's own order
    let op = c.op();
    let before = match &op {
        Some(Op::Get(q)) => {
            check_get(&mut p.net, m, q, &mut Seen::default())?.ok();
            Some(one(&mut p.net, q)?)
        }
        _ => None,
    };
    let (ok, out, err) = client(&p.addr, &args)?;
    let says = |want: &str| -> R {
        ensure!(ok, "command-failed", "{args:?} failed: {err}");
        ensure!(out == want, "command-output", "{args:?} printed {out:?}, expected {want:?}");
        Ok(())
    };
    let was = m.clone();
    match c {
        Cmd::Ping => says("ok\n")?,
        Cmd::SetV(t, None) => {
            ensure!(ok, "command-failed", "{args:?} failed: {err}");
            let now = vertices(&mut p.net)?;
            let new: Vec<_> = now.iter().filter(|v| !m.v.contains_key(&v.0)).cloned().collect();
            ensure!(new.len() == 1 && new[0].1 == *t, "command-effect", "{args:?} created {new:?}");
            says(&format!("{:?}\n", vertex(new[0].0, t)))?;
            m.create_v(new[0].0, t);
        }
        Cmd::SetV(t, Some(id)) => {
            if m.create_v(*id, t) {
                says(&format!("{:?}\n", vertex(*id, t)))?
            } else {
                seen.tag("refused");
                ensure!(!ok, "accepted", "{args:?} succeeded, though the id is taken");
            }
        }
        Cmd::SetE(e) => {
            if m.create_e(e) {
                says(&format!("{:?}\n", edge(e)))?
            } else {
                seen.tag("refused");
                ensure!(!ok, "accepted", "{args:?} succeeded, though an endpoint is missing");
            }
        }
        Cmd::CountV => says(&format!("{}\n", m.v.len()))?,
        Cmd::CountE => says(&format!("{}\n", m.e.len()))?,
        Cmd::GetV(_) | Cmd::GetE(_) | Cmd::GetVP(..) | Cmd::GetEP(..) => {
            let o = before.unwrap();
            if o.len() > 0 {
                seen.tag("printed");
            }
            let outs = vec![output(&o)];
            says(&match c {
                Cmd::GetV(_) => format!("{:?}\n", extract_vertices(outs)),
                Cmd::GetE(_) => format!("{:?}\n", extract_edges(outs)),
                Cmd::GetVP(..) => format!("{:?}\n", extract_vertex_properties(outs)),
                _ => format!("{:?}\n", extract_edge_properties(outs)),
            })?
        }
        Cmd::SetVP(..) | Cmd::SetEP(..) | Cmd::DelV(_) | Cmd::DelE(_) | Cmd::DelVP(..) | Cmd::DelEP(..) => {
            gen::guess(m, op.as_ref().unwrap());
            says("")?
        }
    }
    if *m != was {
        seen.tag("cli-write");
    }
    Ok(())
}

impl Restarts {
    fn args(&self, dir: &Path, how: u8) -> Vec<String> {
        let path = |n: &str| dir.join(n).to_string_lossy().into_owned();
        let mut a = match how % 4 {
            0 => vec!["--address".to_string(), any_address()],
            1 => vec![format!("--address={}", any_address())],
            _ => vec!["-a".to_string(), any_address()],
        };
        match self.config {
            Config::Default => {}
            Config::Memory => a.push("memory".into()),
            Config::Persist => match how / 4 % 2 {
                0 => a.extend(["memory".into(), "--persist-path".into(), path("image")]),
                _ => a.extend(["memory".into(), format!("--persist-path={}", path("image"))]),
            },
            Config::Rocksdb => {
                a.push("rocksdb".into());
                match how / 4 % 5 {
                    0 => {}
                    1 => a.push("--max-open-files=-1".into()),
                    2 => a.extend(["--max-open-files".into(), "20".into()]),
                    _ => a.extend(["--max-open-files".into(), "64".into()]),
                }
                a.push(path("db"));
            }
        }
        a
    }
    /// What a restarted server holds.
    fn kept(&self, m: &Model, image: &Model) -> Model {
        match self.config {
            Config::Default | Config::Memory => Model::new(),
            Config::Persist => image.clone(),
            Config::Rocksdb => m.clone(),
        }
    }
    /// Damages what is stored, so that it can no longer be read: gives the file's path and what it held.
    fn damage(&self, dir: &Path, how: u8, at: u32) -> Option<(PathBuf, Vec<u8>)> {
        let spoil = |p: PathBuf, with: &dyn Fn(&[u8]) -> Option<Vec<u8>>| {
            let old = std::fs::read(&p).ok()?;
            match with(&old) {
                Some(new) => std::fs::write(&p, new).unwrap(),
                None => std::fs::remove_file(&p).unwrap(),
            }
            Some((p, old))
        };
        let shorter = |b: &[u8]| Some(b[..b.len() * (at as usize % 65536) / 65536].to_vec());
        match self.config {
            Config::Persist => spoil(dir.join("image"), &|b| match how % 5 {
                0 => Some(vec![]),
                1 => Some(std::iter::once(0xc1).chain(b.iter().skip(1).copied()).collect()),
                2 => Some(vec![b'x'; b.len()]),
                _ => shorter(b),
            }),
            Config::Rocksdb => {
                let files: BTreeSet<String> = std::fs::read_dir(dir.join("db")).ok()?.map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
                let tables: Vec<&String> = files.iter().filter(|f| f.ends_with(".sst")).collect();
                let manifest = files.iter().rfind(|f| f.starts_with("MANIFEST"))?;
                let db = dir.join("db");
                match how % 6 {
                    0 => spoil(db.join("CURRENT"), &|_| Some(b"nothing".to_vec())),
                    1 => spoil(db.join(manifest), &|_| Some(vec![])),
                    2 => spoil(db.join(manifest), &|_| None),
                    _ if tables.is_empty() => spoil(db.join("CURRENT"), &|_| Some(b"MANIFEST-999999\n".to_vec())),
                    3 => spoil(db.join(tables[at as usize % tables.len()]), &|_| None),
                    _ => spoil(db.join(tables[at as usize % tables.len()]), &shorter),
                }
            }
            _ => None,
        }
    }
    fn repair(&self, dir: &Path, how: u8) -> R {
        let db = dir.join("db").to_string_lossy().into_owned();
        let mut c = command(&bin("indradb-server"));
        c.args(["-a", &any_address(), "rocksdb", if how & 1 == 0 { "--repair" } else { "-r" }, &db]);
        c.stdout(Stdio::piped()).stderr(Stdio::piped());
        let o = c.spawn().expect("run the server").wait_with_output().unwrap();
        ensure!(o.status.success(), "repair", "the repair ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr));
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RestartCase {
    start: u8,
    acts: Vec<Act>,
}

fn cmd(r: &mut Rand, w: &gen::World, m: &Model) -> Cmd {
    let opt = |r: &mut Rand, n: String| if chance(r, 0.3) { None } else { Some(n) };
    match r.gen_range(0..28) {
        0 => Cmd::Ping,
        1 => Cmd::SetV(w.vt(r), None),
        2..=5 => Cmd::SetV(w.vt(r), Some(w.id(r))),
        6..=9 => Cmd::SetE(w.any_edge(r, m)),
        10..=12 => Cmd::SetVP(w.live_id(r, m), w.nm(r), w.val(r)),
        13..=15 => Cmd::SetEP(w.live_edge(r, m), w.nm(r), w.val(r)),
        16 => Cmd::CountV,
        17 => Cmd::CountE,
        18 => Cmd::GetV(w.live_id(r, m)),
        19 => Cmd::GetE(w.live_edge(r, m)),
        20 => {
            let (n, id) = (w.nm(r), w.live_id(r, m));
            Cmd::GetVP(id, opt(r, n))
        }
        21 => {
            let (n, e) = (w.nm(r), w.live_edge(r, m));
            Cmd::GetEP(e, opt(r, n))
        }
        22 => Cmd::DelV(w.live_id(r, m)),
        23 => Cmd::DelE(w.live_edge(r, m)),
        24 => Cmd::DelVP(w.live_id(r, m), w.nm(r)),
        25 => Cmd::DelEP(w.live_edge(r, m), w.nm(r)),
        26 => {
            // of one that has some
            if m.ep.is_empty() {
                return Cmd::CountE;
            }
            let k = r.gen_range(0..m.ep.len());
            let (e, n) = m.ep.keys().nth(k).unwrap().clone();
            let n = if chance(r, 0.5) { n } else { w.nm(r) };
            Cmd::GetEP(e, opt(r, n))
        }
        _ => {
            if let Some(((id, n), _)) = m.vp.iter().next() {
                Cmd::GetVP(*id, opt(r, n.clone()))
            } else {
                Cmd::CountV
            }
        }
    }
}

/// An argument a process can be given.
fn sayable(c: &Cmd) -> bool {
    c.args(0).iter().all(|a| !a.contains('\0') && a.len() < 60_000)
}

impl Part for Restarts {
    type Case = RestartCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> RestartCase {
        let w = gen::world(r, 4);
        let mix = Mix { index: 2, get: 3, sync: if self.config == Config::Persist { 4 } else { 1 }, vdel: 0.1, ..Mix::BASE };
        let calm = Mix { get: 0, ..mix };
        let (mut m, mut image) = (Model::new(), Model::new());
        let mut acts = vec![];
        for _ in 0..r.gen_range(8..30) {
            let a = match r.gen_range(0..30) {
                0..=13 => Act::Cli(cmd(r, &w, &m), r.gen()),
                14 | 15 => Act::Bad(cmd(r, &w, &m), r.gen(), r.gen()),
                16..=23 => Act::Rpc(gen::op(r, &w, &m, &mix)),
                24 | 25 => Act::Restart(r.gen(), r.gen()),
                26 | 27 => {
                    let mut x = m.clone();
                    let ops = (0..r.gen_range(1..25))
                        .map(|_| {
                            let o = gen::op(r, &w, &x, &calm);
                            gen::guess(&mut x, &o);
                            o
                        })
                        .collect();
                    Act::Storm(ops, *pick(r, &[0, 300, 1000, 3000, 8000, 20000]) + r.gen_range(0..500))
                }
                28 => Act::Second(r.gen()),
                _ if chance(r, 0.6) => Act::Damage(r.gen(), r.gen()),
                _ => Act::Alone(cmd(r, &w, &m)),
            };
            match &a {
                Act::Cli(c, _) => c.op().iter().for_each(|o| gen::guess(&mut m, o)),
                Act::Rpc(Op::Sync) => image = m.clone(),
                Act::Rpc(o) => gen::guess(&mut m, o),
                Act::Restart(..) | Act::Storm(..) | Act::Alone(_) | Act::Damage(..) => m = self.kept(&m, &image),
                _ => {}
            }
            acts.push(a);
        }
        RestartCase { start: r.gen(), acts }
    }
    fn run(&self, c: &RestartCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let ops: Vec<Op> = c
            .acts
            .iter()
            .flat_map(|a| match a {
                Act::Rpc(o) => vec![o.clone()],
                Act::Storm(o, _) => o.clone(),
                Act::Cli(c, _) => c.op().into_iter().collect(),
                _ => vec![],
            })
            .collect();
        let x = mentions(&ops);
        let names: Vec<String> = x.names.iter().cloned().collect();
        let vals: Vec<J> = x.vals.iter().take(3).cloned().collect();
        let mut m = Model::new();
        // what the last acknowledged sync wrote
        let mut image = Model::new();
        let args = self.args(&dir.0, c.start);
        let mut p = up(&args, &[], &dir.0)?;
        for (k, a) in c.acts.iter().enumerate() {
            let at = |f: Fail| Fail { kind: f.kind, msg: format!("at action {k} ({a:?}): {}", f.msg) };
            match a {
                Act::Cli(c, how) => {
                    if sayable(c) {
                        cli(&mut p, &mut m, c, *how, seen).map_err(at)?
                    }
                }
                Act::Bad(c, which, what) => {
                    if !sayable(c) {
                        continue;
                    }
                    if let Some(args) = c.spoilt(*which, *what) {
                        let (ok, out, _) = client(&p.addr, &args).map_err(at)?;
                        if ok {
                            return at_fail(at, "accepted", format!("{args:?} succeeded and printed {out:?}"));
                        }
                        seen.tag("nonsense");
                        check_all(&mut p.net, &m, &names, &vals).map_err(at)?;
                    }
                }
                Act::Rpc(o) => {
                    step(&mut p.net, &mut m, o, seen).map_err(at)?;
                    if matches!(o, Op::Sync) {
                        image = m.clone();
                    }
                }
                Act::Restart(stop, how) => {
                    p.end([libc::SIGKILL, libc::SIGTERM, libc::SIGINT][*stop as usize % 3]).map_err(at)?;
                    if !m.v.is_empty() {
                        seen.tag("restart-with-data");
                    }
                    m = self.kept(&m, &image);
                    if self.config == Config::Rocksdb && *stop >= 200 {
                        self.repair(&dir.0, *how).map_err(at)?;
                        seen.tag("repair");
                    }
                    p = up(&self.args(&dir.0, *how), &[], &dir.0).map_err(at)?;
                    check_all(&mut p.net, &m, &names, &vals).map_err(at)?;
                }
                Act::Alone(c) => {
                    let addr = p.addr.clone();
                    p.end(libc::SIGKILL).map_err(at)?;
                    if sayable(c) {
                        let (ok, out, _) = client(&addr, &c.args(0)).map_err(at)?;
                        if ok {
                            return at_fail(at, "accepted", format!("without a server, the client succeeded and printed {out:?}"));
                        }
                    }
                    m = self.kept(&m, &image);
                    p = up(&self.args(&dir.0, 0), &[], &dir.0).map_err(at)?;
                    check_all(&mut p.net, &m, &names, &vals).map_err(at)?;
                }
                Act::Damage(how, x) => {
                    p.end(libc::SIGKILL).map_err(at)?;
                    m = self.kept(&m, &image);
                    if let Some((file, was)) = self.damage(&dir.0, *how, *x) {
                        let damaged = std::fs::read(&file).ok();
                        match start(&self.args(&dir.0, *how / 8), &[], &dir.0).map_err(at)? {
                            Start::Refused(s, _) if !s.success() => seen.tag("unreadable-refused"),
                            Start::Refused(s, m) => return at_fail(at, "exit", format!("on {file:?} damaged, the server ended with {s}: {m}")),
                            Start::Up(_) => return at_fail(at, "unreadable", format!("the server runs on {file:?} damaged")),
                        }
                        if std::fs::read(&file).ok() != damaged {
                            return at_fail(at, "unreadable", format!("a server that could not read {file:?} changed it"));
                        }
                        std::fs::write(&file, was).unwrap();
                    }
                    p = up(&self.args(&dir.0, 0), &[], &dir.0).map_err(at)?;
                    check_all(&mut p.net, &m, &names, &vals).map_err(at)?;
                }
                Act::Storm(ops, after) => {
                    let pid = p.child.id() as i32;
                    let after = Duration::from_micros(*after as u64);
                    let killer = std::thread::spawn(move || {
                        std::thread::sleep(after);
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                    });
                    // the last acknowledged state, and the one after the operation in flight
                    let mut next: Option<(Model, Model)> = None;
                    for o in ops {
                        let o = match o {
                            Op::CreateVT(_) | Op::Get(_) | Op::Reopen(_) => continue,
                            Op::Bulk(i) => Op::Bulk(m.sanitise(i)),
                            Op::Set(q, n, j) => Op::Set(gen::determined(q), n.clone(), j.clone()),
                            Op::Delete(q) => Op::Delete(gen::determined(q)),
                            o => o.clone(),
                        };
                        if let Op::Set(q, ..) | Op::Delete(q) = &o {
                            let (_, det, _) = m.eval(&unroll(q));
                            if !det {
                                continue;
                            }
                        }
                        let mut x = m.clone();
                        gen::guess(&mut x, &o);
                        let xi = if matches!(o, Op::Sync) { m.clone() } else { image.clone() };
                        let got = p.net.apply(&o);
                        match got {
                            Out::Unit | Out::Bool(_) => {
                                m = x;
                                image = xi;
                                seen.tag("storm-acknowledged");
                            }
                            // (a refusal, or the end)
                            Out::Err(..) => {
                                let mut c = p.net.client.clone();
                                if !p.net.wait(c.ping()).is_ok_and(|r| r.is_ok()) {
                                    next = Some((x, xi));
                                    break;
                                }
                            }
                            o => return at_fail(at, "outcome", format!("{o:?}")),
                        }
                    }
                    killer.join().unwrap();
                    let _ = wait_end(&mut p.child);
                    drop(p);
                    p = up(&self.args(&dir.0, 0), &[], &dir.0).map_err(at)?;
                    let a = self.kept(&m, &image);
                    match next {
                        None => check_all(&mut p.net, &a, &names, &vals).map_err(at)?,
                        Some((x, xi)) => {
                            seen.tag("killed-in-flight");
                            let b = self.kept(&x, &xi);
                            match check_all(&mut p.net, &a, &names, &vals) {
                                Ok(()) => {}
                                Err(f) => {
                                    if check_all(&mut p.net, &b, &names, &vals).is_err() {
                                        return Err(at(f));
                                    }
                                    image = xi;
                                }
                            }
                            m = if check_all(&mut p.net, &a, &names, &vals).is_ok() { a } else { b };
                            continue;
                        }
                    }
                    m = a;
                }
                Act::Second(address) => {
                    let mut args = self.args(&dir.0, 3);
                    if *address {
                        args[1] = p.addr.trim_start_matches("grpc://").to_string();
                    } else if self.config != Config::Rocksdb {
                        continue;
                    }
                    match start(&args, &[], &dir.0).map_err(at)? {
                        Start::Refused(s, _) if !s.success() => seen.tag("second"),
                        Start::Refused(s, m) => return at_fail(at, "exit", format!("a second server ended with {s}: {m}")),
                        Start::Up(_) => return at_fail(at, "second", "a second server runs at the same place".into()),
                    }
                    check_all(&mut p.net, &m, &names, &vals).map_err(at)?;
                }
            }
            p.alive().map_err(at)?;
        }
        check_all(&mut p.net, &m, &names, &vals)?;
        // and once more from what is stored
        p.end(libc::SIGKILL)?;
        m = self.kept(&m, &image);
        let mut p = up(&self.args(&dir.0, 0), &[], &dir.0)?;
        check_all(&mut p.net, &m, &names, &vals)
    }
    fn nontrivial(&self, _c: &RestartCase, seen: &Seen) -> bool {
        seen.has("cli-write") && seen.has("restart-with-data")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (90, 500)
    }
}

fn at_fail(at: impl Fn(Fail) -> Fail, kind: &str, msg: String) -> R {
    fail(kind, msg).map_err(at)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C19",
            level: "exploration",
            rule: "map: more than one call; read errors: one was met; server: a plugin changed the data and a map made more than one call; libraries: a plugin answered or a library was refused",
            assumptions: &["plugins do not panic outside of map operations", "the checks' own plugin library is built from the working tree with the same compiler as the server"],
            parts: vec![
                part(MapPart { kind: Kind::Mem }, 4000, 60000),
                part(MapPart { kind: Kind::Rdb }, 500, 8000),
                part(BrokenPart, 4000, 60000),
                part(PluginPart { kind: Kind::Mem }, 300, 6000),
                part(PluginPart { kind: Kind::Rdb }, 100, 2500),
                part(LibPart, 300, 6000),
            ],
            dbg_share: 0.0,
            known: no_known,
        },
        Check {
            id: "C20",
            level: "exploration",
            rule: "a client command changed data, and the server was restarted when it had data; crowd: several clients had requests acknowledged and one had a request in flight when the server was killed",
            assumptions: &["arguments of at most 60 kB without null characters", "values whose text form this serde_json build reads back exactly (C13's known finding)", "a killed process loses nothing it gave to the kernel"],
            parts: vec![
                part(Restarts { name: "memory", config: Config::Memory }, 60, 1500),
                part(Restarts { name: "default", config: Config::Default }, 30, 600),
                part(Restarts { name: "persist", config: Config::Persist }, 150, 4000),
                part(Restarts { name: "rocksdb", config: Config::Rocksdb }, 150, 4000),
                part(super::crowd::CrowdPart { persist: true }, 300, 8000),
                part(super::crowd::CrowdPart { persist: false }, 300, 8000),
            ],
            dbg_share: 0.0,
            known: no_known,
        },
    ]
}
