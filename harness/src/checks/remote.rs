//! C17: a client and a server around a database, against the database itself.
use crate::driver::*;
use crate::ensure;
use crate::gen::{self, chance, pick, Mix, Rand};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use crate::wire::*;
use indradb::{Database, Datastore, MemoryDatastore, RocksdbDatastore};
use indradb_proto as p;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::future::Future;
use std::net::SocketAddr;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::net::TcpListener;
use tokio::runtime::Runtime;
use tonic::transport::{Channel, Endpoint};
use tonic::{Code, Status};
use uuid::Uuid;

use super::graph::Kind;
use super::wide::{At, Wide};

/// What must not take longer than this is taken to hang.
const PATIENCE: Duration = Duration::from_secs(30);

/// A server around a database, and clients of it.
pub struct Remote<D: Datastore + Send + Sync + 'static> {
    pub rt: Runtime,
    pub db: Arc<Database<D>>,
    pub addr: SocketAddr,
    pub clients: Vec<p::Client>,
    pub raw: p::ProtoClient<Channel>,
    turn: usize,
    /// where a query's answer through the server and the embedded one differ
    pub diff: Option<String>,
    _dir: Option<Scratch>,
}

/// A listener at one of many loopback addresses: the closed connections of thousands of cases would use up the
/// ports of one.
pub async fn listen() -> TcpListener {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let mut last = None;
    for _ in 0..200 {
        let n = NEXT.fetch_add(1, Ordering::Relaxed) + std::process::id() as usize * 101;
        let ip = std::net::Ipv4Addr::new(127, (n / 62500 % 250) as u8 + 1, (n / 250 % 250) as u8 + 1, (n % 250) as u8 + 1);
        match TcpListener::bind((ip, 0)).await {
            Ok(l) => return l,
            Err(e) => last = Some(e),
        }
        tokio::time::sleep(Duration::from_millis(50)).await;
    }
    panic!("no port to listen at: {last:?}");
}

pub fn endpoint(a: SocketAddr) -> Endpoint {
    Endpoint::from_shared(format!("http://{a}")).unwrap()
}

pub fn client_err(e: p::ClientError) -> Out {
    match e {
        p::ClientError::Grpc { inner } => status_err(inner),
        p::ClientError::Transport { inner } => Out::Err(EK::Other, format!("transport: {inner}")),
        p::ClientError::Conversion { inner } => Out::Err(EK::Other, format!("the client could not read the answer: {inner}")),
        e => Out::Err(EK::Other, e.to_string()),
    }
}

pub fn status_err(s: Status) -> Out {
    if s.message().contains("panicked") {
        return Out::Panic(s.message().to_string());
    }
    match s.code() {
        // the request is well-formed, and the server is there
        Code::InvalidArgument | Code::Unavailable | Code::Unimplemented | Code::Cancelled | Code::Ok => Out::Err(EK::Other, format!("{:?}: {}", s.code(), s.message())),
        c => Out::Err(EK::Remote, format!("{c:?}: {}", s.message())),
    }
}

/// Inherited by the connections; without it every answer waits 40 ms for a delayed acknowledgement.
pub fn no_delay(l: &TcpListener) {
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(l.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_NODELAY, &on as *const _ as *const libc::c_void, 4);
    }
}

pub async fn call(c: &mut p::Client, op: &Op) -> Out {
    raw_call(c, op).await.unwrap_or_else(client_err)
}

pub async fn raw_call(c: &mut p::Client, op: &Op) -> Result<Out, p::ClientError> {
    let unit = |()| Out::Unit;
    Ok(match op {
        Op::CreateV(id, t) => Out::Bool(c.create_vertex(&vertex(*id, t)).await?),
        Op::CreateVT(t) => Out::Id(c.create_vertex_from_type(ident(t)).await?),
        Op::CreateE(e) => Out::Bool(c.create_edge(&edge(e)).await?),
        Op::Set(q, n, j) => unit(c.set_properties(query(q), ident(n), &json(j)).await?),
        Op::Delete(q) => unit(c.delete(query(q)).await?),
        Op::Bulk(items) => unit(c.bulk_insert(items.iter().map(item).collect()).await?),
        Op::Index(n) => unit(c.index_property(ident(n)).await?),
        Op::Sync => unit(c.sync().await?),
        Op::Get(q) => Out::Outs(c.get(query(q)).await?.iter().map(from_out).collect()),
        Op::Reopen(_) => unit(c.ping().await?),
    })
}

impl<D: Datastore + Send + Sync + 'static> Remote<D> {
    pub fn new(db: Database<D>, dir: Option<Scratch>, threads: usize, clients: usize) -> Remote<D> {
        Remote::noisy(db, dir, threads, clients, 0)
    }
    /// With schedule noise on the server's threads, unless zero.
    pub fn noisy(db: Database<D>, dir: Option<Scratch>, threads: usize, clients: usize, noise: u64) -> Remote<D> {
        let rt = if threads == 0 {
            tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(threads).on_thread_start(move || crate::noise::on(noise)).enable_all().build().unwrap()
        };
        let db = Arc::new(db);
        let (addr, clients, raw) = rt.block_on(async {
            let l = listen().await;
            let a = l.local_addr().unwrap();
            no_delay(&l);
            tokio::spawn(p::run_server(db.clone(), l));
            let mut cs = vec![];
            for _ in 0..clients {
                cs.push(p::Client::new(endpoint(a)).await.expect("connect"));
            }
            (a, cs, p::ProtoClient::connect(endpoint(a)).await.expect("connect"))
        });
        Remote { rt, db, addr, clients, raw, turn: 0, diff: None, _dir: dir }
    }
    pub fn wait<T>(&self, f: impl Future<Output = T>) -> R<T> {
        self.rt.block_on(async {
            match tokio::time::timeout(PATIENCE, f).await {
                Ok(t) => Ok(t),
                Err(_) => fail("hang", "no answer within 30 s"),
            }
        })
    }
}

impl<D: Datastore + Send + Sync + 'static> Store for Remote<D>
where
    Database<D>: Send + Sync,
{
    fn apply(&mut self, op: &Op) -> Out {
        self.turn += 1;
        let n = self.turn % self.clients.len();
        let mut c = self.clients[n].clone();
        let out = match self.wait(call(&mut c, op)) {
            Ok(o) => o,
            Err(_) => Out::Panic("no answer within 30 s".into()),
        };
        if let Op::Get(q) = op {
            // the same question to the same database, not through the server
            let e = apply(&*self.db, op);
            if !same_answer(q, &out, &e) && self.diff.is_none() {
                self.diff = Some(format!("query {q:?}\n  through the server: {out:?}\n  embedded:           {e:?}"));
            }
        }
        out
    }
    fn name(&self) -> &'static str {
        "grpc"
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        probe(&*self.db, m, x)
    }
}

/// Whether two answers to one query are the same, as far as the query determines it.
pub fn same_answer(q: &Q, a: &Out, b: &Out) -> bool {
    let c = unroll(q);
    if !is_index_leaf(&c.leaf) {
        return a.same(b);
    }
    match (a, b) {
        (Out::Outs(a), Out::Outs(b)) => {
            let limited = c.stages.iter().any(|(s, _)| matches!(s, Stage::Pipe { limit, .. } if *limit != u32::MAX));
            a.len() == b.len() && (limited || a.iter().zip(b).all(|(a, b)| a.sorted() == b.sorted()))
        }
        _ => a.same(b),
    }
}

pub enum Any {
    Mem(Remote<MemoryDatastore>),
    Rdb(Remote<RocksdbDatastore>),
}

pub fn remote(k: Kind, threads: usize, clients: usize) -> Any {
    match k {
        Kind::Mem => Any::Mem(Remote::new(MemoryDatastore::new_db(), None, threads, clients)),
        Kind::Rdb => {
            let r = Rdb::new();
            let (db, dir) = r.split();
            Any::Rdb(Remote::new(db, Some(dir), threads, clients))
        }
    }
}

macro_rules! on {
    ($any:expr, $r:ident => $e:expr) => {
        match $any {
            Any::Mem($r) => $e,
            Any::Rdb($r) => $e,
        }
    };
}

// ---- histories ----

struct Lock {
    name: &'static str,
    kind: Kind,
    mix: Mix,
}

fn serve<D: Datastore + Send + Sync + 'static>(s: &mut Remote<D>, ops: &[Op], seen: &mut Seen) -> R {
    let mut m = Model::new();
    let x = mentions(ops);
    let names: Vec<String> = x.names.iter().cloned().collect();
    let vals: Vec<J> = x.vals.iter().take(4).cloned().collect();
    for (k, op) in ops.iter().enumerate() {
        let at = |f: Fail| Fail { kind: f.kind, msg: format!("at operation {k}: {}", f.msg) };
        step(s, &mut m, op, seen).map_err(at)?;
        if let Some(d) = s.diff.take() {
            return fail("differs", format!("at operation {k}: {d}"));
        }
        if !matches!(op, Op::Get(_)) {
            // the data is as if the request had been made directly
            probe(&s.db, &m, &x).map_err(at)?;
        }
    }
    check_all(s, &m, &names, &vals)?;
    if let Some(d) = s.diff.take() {
        return fail("differs", d);
    }
    Ok(())
}

impl Part for Lock {
    type Case = (Vec<Op>, usize);
    fn name(&self) -> &'static str {
        self.name
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Self::Case {
        let (i, n) = (r.gen_range(3..8), r.gen_range(10..45));
        (world_history(r, &self.mix, i, n), if chance(r, 0.2) { 2 } else { 0 })
    }
    fn run(&self, (ops, threads): &Self::Case, seen: &mut Seen) -> R {
        on!(&mut remote(self.kind, *threads, 2), s => serve(s, ops, seen))
    }
    fn nontrivial(&self, _c: &Self::Case, seen: &Seen) -> bool {
        seen.has("nonempty-result") && seen.has("set") && seen.has("bulk")
    }
}

// ---- syncs ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SyncsCase {
    ops: Vec<Op>,
    /// for each sync, whether the image's directory is away
    away: Vec<bool>,
    threads: usize,
}

/// Syncs that succeed and that fail, on a server that keeps an image.
struct Syncs;

impl Part for Syncs {
    type Case = SyncsCase;
    fn name(&self) -> &'static str {
        "syncs"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> SyncsCase {
        let mix = Mix { get: 1, index: 2, bulk: 3, sync: 9, bulk_max: 60, ..Mix::BASE };
        let (i, n) = (r.gen_range(3..8), r.gen_range(8..30));
        let ops = world_history(r, &mix, i, n);
        let away = ops.iter().filter(|o| matches!(o, Op::Sync)).map(|_| chance(r, 0.4)).collect();
        SyncsCase { ops, away, threads: if chance(r, 0.3) { 2 } else { 0 } }
    }
    fn run(&self, c: &SyncsCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let (here, gone) = (dir.path("here"), dir.path("gone"));
        std::fs::create_dir(&here).unwrap();
        let path = here.join("image");
        let mut s = Remote::new(MemoryDatastore::create_msgpack_db(&path), None, c.threads, 2);
        let mut m = Model::new();
        let x = mentions(&c.ops);
        let names: Vec<String> = x.names.iter().cloned().collect();
        let mut away = c.away.iter();
        for (k, op) in c.ops.iter().enumerate() {
            let at = |f: Fail| Fail { kind: f.kind, msg: format!("at operation {k}: {}", f.msg) };
            if !matches!(op, Op::Sync) {
                step(&mut s, &mut m, op, seen).map_err(at)?;
                continue;
            }
            if *away.next().unwrap_or(&false) {
                std::fs::rename(&here, &gone).unwrap();
                let before = std::fs::read(gone.join("image")).ok();
                let out = s.apply(op);
                std::fs::rename(&gone, &here).unwrap();
                match out {
                    Out::Err(EK::Remote, _) => seen.tag("failed-sync"),
                    o => return fail("sync-failure", format!("at operation {k}: the directory of the image was away, but a sync through the server gave {o:?}")),
                }
                ensure!(std::fs::read(&path).ok() == before, "sync-failure", "at operation {k}: a failed sync changed the image");
            } else {
                step(&mut s, &mut m, op, seen).map_err(at)?;
                // what was acknowledged is there
                let mut i = super::durable::Img::load(&path).map_err(at)?;
                check_all(&mut i, &m, &names, &[]).and_then(|_| i.txn_probe(&m, &x)).map_err(|f| Fail { kind: format!("image-{}", f.kind), msg: format!("at operation {k}: right after a sync: {}", f.msg) })?;
                seen.tag("synced");
            }
            check_all(&mut s, &m, &names, &[]).map_err(at)?;
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &SyncsCase, seen: &Seen) -> bool {
        seen.has("failed-sync") && seen.has("synced")
    }
}

// ---- large transfers ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeCase {
    big: super::graph::BigCase,
    /// stages of a deep query, each with its input included or not
    deep: Vec<(Dir, bool)>,
    q: Vec<Q>,
}

struct Large {
    kind: Kind,
}

impl Part for Large {
    type Case = LargeCase;
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Mem => "memory-large",
            Kind::Rdb => "rocksdb-large",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> LargeCase {
        let n = r.gen_range(50..800);
        let big = super::graph::BigCase::new(r.gen(), n, r.gen_range(n / 2..n * 2), r.gen(), 0);
        let stages = r.gen_range(1..22);
        let deep = (0..stages).map(|_| (if r.gen() { Dir::Out } else { Dir::In }, r.gen())).collect();
        let mut m = Model::new();
        big.build().0.iter().for_each(|i| m.apply_item(i));
        let w = gen::world(r, 4);
        let q = (0..4).map(|_| gen::query(r, &w, &m, 3, false)).collect();
        LargeCase { big, deep, q }
    }
    fn run(&self, c: &LargeCase, seen: &mut Seen) -> R {
        on!(&mut remote(self.kind, 0, 1), s => large(s, c, seen))
    }
    fn nontrivial(&self, _c: &LargeCase, seen: &Seen) -> bool {
        seen.has("deep")
    }
    fn sample(&self, c: &LargeCase) -> serde_json::Value {
        json!({"graph": c.big, "deep": c.deep.len()})
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (40, 300)
    }
}

fn large<D: Datastore + Send + Sync + 'static>(s: &mut Remote<D>, c: &LargeCase, seen: &mut Seen) -> R {
    let mut m = Model::new();
    let (items, _) = c.big.build();
    step(s, &mut m, &Op::Bulk(items), seen)?;
    check_all(s, &m, &[], &[])?;
    let mut q = Q::RangeV { limit: 3, t: None, start: None };
    for (k, (dir, inc)) in c.deep.iter().enumerate() {
        if *inc {
            q = Q::Include(Box::new(q));
        }
        // vertices to edges to vertices ..., kept small
        q = Q::Pipe { inner: Box::new(q), dir: *dir, limit: 2 + k as u32 % 3, t: None };
    }
    for q in c.q.iter().chain([&q]) {
        // an answer of more than 4 MB is beyond the transport
        if m.cost(&unroll(q)) > 30_000 {
            continue;
        }
        let _ = check_get(s, &m, q, seen)?;
    }
    if c.deep.iter().filter(|d| d.1).count() > 4 {
        seen.tag("deep");
    }
    if let Some(d) = s.diff.take() {
        return fail("differs", d);
    }
    Ok(())
}

// ---- requests that are not valid ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Req {
    /// the request, the place in its message to spoil, and how
    Spoilt(Op, u32, u32),
    /// a plugin call whose argument is no JSON
    Plugin(String),
    /// a valid request
    Op(Op),
    /// a query whose answer is not read to the end
    Abandoned(Q),
    /// a property value or vertex list too long for a message
    Long(u8, u32),
    /// a query nested this deep
    Deep(u8),
    /// a bulk insertion of this many items of which one, at about this share of them, is spoilt in this way
    Many(u16, u8, u32),
    /// a bulk insertion that breaks off after this many items
    Broken(u16),
    /// the same so many times
    Again(u16, Box<Req>),
    /// as many queries at once, some of which are given up before they are answered
    AtOnce(u16, Q),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadCase {
    before: Vec<Op>,
    reqs: Vec<Req>,
}

struct Malformed {
    kind: Kind,
}

/// Sends the operation as a message that `spoil` was applied to; None if there was nothing to spoil.
async fn send_spoilt(c: &mut p::ProtoClient<Channel>, op: &Op, at: u32, how: u32) -> Option<Result<(), Status>> {
    /// Applies `f` to the `at`-th site among those `walk` visits.
    fn nth(at: u32, how: u32, walk: &mut dyn FnMut(&mut dyn FnMut(Site))) -> bool {
        let mut n = 0u32;
        walk(&mut |_| n += 1);
        if n == 0 {
            return false;
        }
        let mut k = 0;
        let mut done = false;
        walk(&mut |s| {
            if k == at % n {
                done = spoil(s, how);
            }
            k += 1;
        });
        done
    }
    let r = match op {
        Op::CreateV(id, t) => {
            let mut v = p_vertex(&(*id, t.clone()));
            if !nth(at, how, &mut |f| s_vertex(&mut v, f)) {
                return None;
            }
            c.create_vertex(v).await.map(|_| ())
        }
        Op::CreateVT(t) => {
            let mut n = Some(p_name(t));
            let how = how * 3 + 1;
            if !spoil(Site::Name(&mut n), how) {
                return None;
            }
            c.create_vertex_from_type(n?).await.map(|_| ())
        }
        Op::CreateE(e) => {
            let mut e = p_edge(e);
            if !nth(at, how, &mut |f| s_edge(&mut e, f)) {
                return None;
            }
            c.create_edge(e).await.map(|_| ())
        }
        Op::Set(q, n, j) => {
            let mut x = p::SetPropertiesRequest { q: Some(p_query(q)), name: Some(p_name(n)), value: Some(p_json(j)) };
            if !nth(at, how, &mut |f| s_set(&mut x, f)) {
                return None;
            }
            c.set_properties(x).await.map(|_| ())
        }
        Op::Delete(q) => {
            let mut x = p_query(q);
            if !nth(at, how, &mut |f| s_query(&mut x, f)) {
                return None;
            }
            c.delete(x).await.map(|_| ())
        }
        Op::Get(q) => {
            let mut x = p_query(q);
            if !nth(at, how, &mut |f| s_query(&mut x, f)) {
                return None;
            }
            match c.get(x).await {
                Err(e) => Err(e),
                Ok(s) => {
                    let mut s = s.into_inner();
                    loop {
                        match s.message().await {
                            Ok(None) => break Ok(()),
                            Ok(Some(_)) => {}
                            Err(e) => break Err(e),
                        }
                    }
                }
            }
        }
        Op::Bulk(items) => {
            let mut xs: Vec<p::BulkInsertItem> = items.iter().map(p_item).collect();
            if xs.is_empty() {
                return None;
            }
            let n = xs.len();
            if !nth(at / n as u32, how, &mut |f| s_item(&mut xs[at as usize % n], f)) {
                return None;
            }
            c.bulk_insert(tokio_stream::iter(xs)).await.map(|_| ())
        }
        Op::Index(n) => {
            let mut x = p::IndexPropertyRequest { name: Some(p_name(n)) };
            if !spoil(Site::Name(&mut x.name), how) {
                return None;
            }
            c.index_property(x).await.map(|_| ())
        }
        _ => return None,
    };
    Some(r)
}

/// The number of answers to a query.
async fn count_answers(mut c: p::ProtoClient<Channel>, q: p::Query) -> Result<usize, Status> {
    let mut s = c.get(q).await?.into_inner();
    let mut n = 0;
    while s.message().await?.is_some() {
        n += 1;
    }
    Ok(n)
}

impl Part for Malformed {
    type Case = BadCase;
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Mem => "memory-malformed",
            Kind::Rdb => "rocksdb-malformed",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> BadCase {
        let w = gen::world(r, 5);
        let n = r.gen_range(3..20);
        let before = gen::history(r, &w, &Mix { index: 2, bulk: 3, ..Mix::BASE }, n);
        let mut m = Model::new();
        before.iter().for_each(|o| gen::guess(&mut m, o));
        let mix = Mix { get: 4, cvt: 2, index: 2, bulk: 6, bulk_max: 25, ..Mix::BASE };
        let mut reqs = vec![];
        for _ in 0..r.gen_range(4..12) {
            let mut o = gen::op(r, &w, &m, &mix);
            reqs.push(match r.gen_range(0..40) {
                0..=24 => {
                    if let Op::Bulk(items) = &mut o {
                        // mostly things that would be seen if they were inserted
                        items.push(Item::V(Uuid::from_u128(r.gen()), w.vt(r)));
                        items.shuffle(r);
                    }
                    Req::Spoilt(o, r.gen(), r.gen())
                }
                25 => Req::Plugin((*pick(r, &["", "{", "nul", "[1,]", "1 2"])).into()),
                26..=34 => {
                    gen::guess(&mut m, &o);
                    Req::Op(o)
                }
                35..=37 => Req::Abandoned(gen::query(r, &w, &m, 3, false)),
                38 => Req::Deep(r.gen()),
                _ if chance(r, 0.12) => Req::Many(super::wide::size(r, 3000), r.gen(), r.gen()),
                _ if chance(r, 0.12) => Req::Broken(super::wide::size(r, 3000)),
                _ if chance(r, 0.05) => {
                    let times = *pick(r, &[30, 130, 300, 600, 1100]) + r.gen_range(0..20);
                    if r.gen() {
                        let q = match r.gen_range(0..4) {
                            0 => Req::Plugin("{".into()),
                            1 => Req::Abandoned(gen::query(r, &w, &m, 2, false)),
                            _ => Req::Spoilt(gen::op(r, &w, &m, &mix), r.gen(), r.gen()),
                        };
                        Req::Again(times, Box::new(q))
                    } else {
                        Req::AtOnce(times, gen::query(r, &w, &m, 2, false))
                    }
                }
                _ if chance(r, 0.03) => Req::Long(r.gen_range(0..4), r.gen_range(0..6_000_000)),
                _ => Req::Op(Op::Reopen(0)),
            });
        }
        BadCase { before, reqs }
    }
    fn run(&self, c: &BadCase, seen: &mut Seen) -> R {
        on!(&mut remote(self.kind, 0, 1), s => malformed(s, c, seen))
    }
    fn nontrivial(&self, _c: &BadCase, seen: &Seen) -> bool {
        seen.has("spoilt-3") && seen.has("served-on")
    }
}

fn malformed<D: Datastore + Send + Sync + 'static>(s: &mut Remote<D>, c: &BadCase, seen: &mut Seen) -> R {
    let mut all = c.before.clone();
    for q in &c.reqs {
        match q {
            Req::Spoilt(o, ..) | Req::Op(o) => all.push(o.clone()),
            _ => {}
        }
    }
    let x = mentions(&all);
    let mut m = Model::new();
    for op in &c.before {
        step(s, &mut m, op, seen)?;
    }
    let mut spoilt = 0;
    let reqs = c.reqs.iter().flat_map(|q| match q {
        Req::Again(n, q) => vec![&**q; *n as usize],
        q => vec![q],
    });
    if c.reqs.iter().any(|q| matches!(q, Req::Again(100.., _) | Req::AtOnce(100.., _))) {
        seen.tag("hundreds");
    }
    for (k, q) in reqs.enumerate() {
        let at = |f: Fail| Fail { kind: f.kind, msg: format!("at request {k} ({}): {}", short(q), f.msg) };
        let mut raw = s.raw.clone();
        match q {
            Req::Op(op) => {
                if let Op::Reopen(_) = op {
                    ensure!(matches!(s.apply(op), Out::Unit), "ping", "a ping failed");
                } else {
                    step(s, &mut m, op, seen).map_err(at)?;
                }
                if spoilt > 0 {
                    seen.tag("served-on");
                }
            }
            Req::Spoilt(op, a, how) => match s.wait(send_spoilt(&mut raw, op, *a, *how)).map_err(at)? {
                None => continue,
                Some(Ok(())) => return fail("accepted", format!("request {k}, spoilt at {a}/{how}, was accepted: {}", short(q))),
                Some(Err(e)) => {
                    ensure!(e.code() == Code::InvalidArgument, "code", "request {k}, spoilt at {a}/{how}, was answered with {:?} ({}), not InvalidArgument: {}", e.code(), e.message(), short(q));
                    spoilt += 1;
                    seen.tag(match op {
                        Op::Bulk(_) => "spoilt-bulk",
                        Op::Get(_) => "spoilt-get",
                        Op::Delete(_) => "spoilt-delete",
                        Op::Set(..) => "spoilt-set",
                        _ => "spoilt-other",
                    });
                }
            },
            Req::Again(..) => {}
            Req::AtOnce(n, q) => {
                let msg = p_query(q);
                let want = s.wait(count_answers(raw.clone(), msg.clone())).map_err(at)?;
                let all = s
                    .wait(async {
                        let mut set = tokio::task::JoinSet::new();
                        for k in 0..*n {
                            let (c, msg) = (raw.clone(), msg.clone());
                            let h = set.spawn(count_answers(c, msg));
                            if k % 3 == 2 {
                                tokio::task::yield_now().await;
                                h.abort();
                            }
                        }
                        let mut l = vec![];
                        while let Some(x) = set.join_next().await {
                            l.extend(x.ok());
                        }
                        l
                    })
                    .map_err(at)?;
                for x in all {
                    let same = match (&x, &want) {
                        (Ok(a), Ok(b)) => a == b,
                        (Err(a), Err(b)) => a.code() == b.code(),
                        _ => false,
                    };
                    ensure!(same, "at-once", "of {n} queries at once {q:?}, one gave {x:?} instead of {want:?}");
                }
            }
            Req::Plugin(arg) => {
                let x = p::ExecutePluginRequest { name: "p".into(), arg: Some(p::Json { value: arg.clone() }) };
                match s.wait(raw.execute_plugin(x)).map_err(at)? {
                    Ok(_) => return fail("accepted", format!("a plugin call with the argument {arg:?} succeeded")),
                    Err(e) => ensure!(e.code() == Code::InvalidArgument, "code", "a plugin call with the argument {arg:?} was answered with {:?}", e.code()),
                }
            }
            Req::Abandoned(q) => {
                let r = s.wait(async {
                    let mut a = raw.get(p_query(q)).await?.into_inner();
                    let _ = a.message().await;
                    Ok::<(), Status>(())
                });
                let _ = r.map_err(at)?;
                seen.tag("abandoned");
            }
            Req::Long(what, more) => {
                let n = 4 << 20;
                let len = n - 3_000_000 + (*more % 6_000_000) as usize;
                let id = Uuid::from_u128(0xabcdef);
                let r = match what % 4 {
                    0 => {
                        let q = Q::SpecV(vec![id]);
                        let x = p::SetPropertiesRequest { q: Some(p_query(&q)), name: Some(p_name("long")), value: Some(p_json(&J(json!("l".repeat(len))))) };
                        s.wait(raw.set_properties(x)).map_err(at)?.map(|_| ())
                    }
                    1 => {
                        let q = Q::SpecV((0..len / 24).map(|k| Uuid::from_u128(k as u128 + 7_000_000)).collect());
                        s.wait(raw.delete(p_query(&q))).map_err(at)?.map(|_| ())
                    }
                    2 => {
                        let items = vec![Item::V(Uuid::from_u128(0xabcdee), "long".into()), Item::VP(Uuid::from_u128(0xabcdee), "long".into(), J(json!("l".repeat(len.max(n + 1)))))];
                        let xs: Vec<_> = items.iter().map(p_item).collect();
                        let r = s.wait(raw.bulk_insert(tokio_stream::iter(xs))).map_err(at)?.map(|_| ());
                        if r.is_ok() {
                            // (the transport's limit could be another one) then all of it
                            items.iter().for_each(|i| m.apply_item(i));
                        }
                        probe(&s.db, &m, &x).map_err(at)?;
                        continue;
                    }
                    _ => {
                        let x = p::Identifier { value: "l".repeat(len) };
                        match s.wait(raw.create_vertex_from_type(x)).map_err(at)? {
                            Ok(_) => return fail("accepted", "a type of several megabytes was accepted"),
                            Err(e) => Err(e),
                        }
                    }
                };
                if len + 1000 < n && what % 4 < 2 {
                    if let Err(e) = r {
                        return fail("long-refused", format!("a request of less than 4 MB ({len} bytes, kind {what}) failed: {e}"));
                    }
                }
                seen.tag("long");
            }
            Req::Many(n, share, how) => {
                let n = (*n).max(1) as usize;
                let mut xs = many(n);
                let k = if share % 4 == 0 { n - 1 } else { n * *share as usize / 256 };
                let mut first = true;
                let mut done = false;
                s_item(&mut xs[k], &mut |s| {
                    if std::mem::take(&mut first) {
                        done = spoil(s, *how);
                    }
                });
                if !done {
                    continue;
                }
                match s.wait(raw.bulk_insert(tokio_stream::iter(xs))).map_err(at)? {
                    Ok(_) => return fail("accepted", format!("a bulk insertion of {n} items, with item {k} spoilt, was accepted")),
                    Err(e) => ensure!(e.code() == Code::InvalidArgument, "code", "a bulk insertion of {n} items, with item {k} spoilt, was answered with {:?} ({})", e.code(), e.message()),
                }
                spoilt += 1;
                if n > 1000 {
                    seen.tag("spoilt-many");
                }
            }
            Req::Broken(n) => {
                let xs = many(*n as usize);
                let r = s.wait(async {
                    // the items, and then nothing more
                    let items = tokio_stream::StreamExt::chain(tokio_stream::iter(xs), tokio_stream::pending());
                    tokio::time::timeout(Duration::from_millis(20), raw.bulk_insert(items)).await.is_ok()
                });
                ensure!(!r.map_err(at)?, "accepted", "a bulk insertion whose items have not ended was answered");
                // and the database is as it was a while later
                std::thread::sleep(Duration::from_millis(20));
                seen.tag("broken-off");
            }
            Req::Deep(d) => {
                let mut q = Q::AllV;
                for _ in 0..*d {
                    q = Q::Pipe { inner: Box::new(q), dir: Dir::Out, limit: 2, t: None };
                }
                let r = s.wait(async {
                    let mut a = raw.get(p_query(&q)).await?.into_inner();
                    while a.message().await?.is_some() {}
                    Ok::<(), Status>(())
                });
                let r = r.map_err(at)?;
                // how deep a message may nest is up to the transport; up to there the query is as good as any
                if *d < 45 {
                    if let Err(e) = r {
                        return fail("deep-refused", format!("a query with {d} pipes failed: {e}"));
                    }
                }
                seen.tag("nested");
            }
        }
        if !matches!(q, Req::Op(Op::Get(_))) {
            probe(&s.db, &m, &x).map_err(at)?;
        }
    }
    if spoilt >= 3 {
        seen.tag("spoilt-3");
    }
    let names: Vec<String> = x.names.iter().cloned().collect();
    check_all(s, &m, &names, &[])?;
    if let Some(d) = s.diff.take() {
        return fail("differs", d);
    }
    Ok(())
}

/// Items that nothing else is about.
fn many(n: usize) -> Vec<p::BulkInsertItem> {
    let id = |k: usize| Uuid::from_u128(0x6d61_6e79_0000 + k as u128);
    (0..n)
        .map(|k| {
            p_item(&match k % 4 {
                0 | 1 => Item::V(id(k), "many".into()),
                2 => Item::E(E { o: id(k - 2), t: "many".into(), i: id(k - 1) }),
                _ => Item::VP(id(k - 3), "many".into(), J(json!(k))),
            })
        })
        .collect()
}

fn short(q: &Req) -> String {
    let s = format!("{q:?}");
    s.chars().take(400).collect()
}

pub fn checks() -> Vec<Check> {
    let (mem, rdb) = (Kind::Mem, Kind::Rdb);
    let mix = Mix { get: 8, index: 2, bulk: 3, cvt: 2, bulk_max: 150, qdepth: 4, sync: 1, ..Mix::BASE };
    let wild = Mix { wild: true, bulk_max: 10, ..mix };
    vec![Check {
        id: "C17",
        level: "exploration",
        rule: "histories: a property set, a bulk insertion and a query with results; malformed: at least three spoilt requests and a valid one after them; large: more than four included inputs",
        assumptions: &["messages of at most 4 MB and queries of at most 45 stages, the transport's limits", "values whose text form this serde_json build reads back exactly (C13's known finding)"],
        parts: vec![
            part(Lock { name: "memory", kind: mem, mix }, 4000, 60000),
            part(Lock { name: "memory-refusals", kind: mem, mix: wild }, 2000, 30000),
            part(Lock { name: "rocksdb", kind: rdb, mix }, 1000, 20000),
            part(Syncs, 800, 20000),
                part(super::scripted::Scripted, 1500, 40000),
                part(super::faults::Panics, 250, 6000),
            part(Large { kind: mem }, 200, 4000),
            part(Large { kind: rdb }, 100, 2000),
            part(Wide { at: At::Net(mem), max: 1500 }, 150, 3000),
            part(Wide { at: At::Net(rdb), max: 1500 }, 50, 1500),
            part(super::long::Long { at: At::Net(mem), mix: crate::gen::Mix::BASE, max: 66000 }, 8, 300),
            part(super::long::Long { at: At::Net(rdb), mix: crate::gen::Mix::BASE, max: 66000 }, 8, 300),
            part(super::huge::Huge { at: At::Net(mem), max: 16384 }, 4, 50),
            part(super::huge::Huge { at: At::Net(rdb), max: 16384 }, 4, 50),
            part(Malformed { kind: mem }, 6000, 90000),
            part(Malformed { kind: rdb }, 1500, 25000),
        ],
        dbg_share: 0.0,
        known: no_known,
    }]
}
