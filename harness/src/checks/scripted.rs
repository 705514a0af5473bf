//! C17, the client's side: it sends exactly what it was asked to and reports exactly what it was answered. The
//! server is a stand-in that records requests and gives prepared answers: good ones, malformed ones, errors, and
//! answers that break off.
use super::remote::{endpoint, listen, raw_call};
use super::values::{native, Native, O2};
use crate::driver::Part;
use crate::ensure;
use crate::gen::{self, chance, pick, Mix, Rand};
use crate::hist::Seen;
use crate::model::Model;
use crate::store::{item, json};
use uuid::Uuid;
use crate::types::*;
use crate::wire::*;
use indradb_proto as p;
use p::indra_db_server::{IndraDb, IndraDbServer};
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio_stream::{Stream, StreamExt};
use tonic::{Code, Request, Response, Status, Streaming};

/// Which part of a message is broken, and how.
type Spoil = Option<(u32, u32)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Answer {
    /// the call ends with this status
    status: Option<(i32, String)>,
    created: bool,
    id: Uuid,
    outs: Vec<(O2, Spoil)>,
    /// how many outputs come before the status
    before: usize,
    value: Option<String>,
    /// for the id: what is wrong with it
    spoil: Option<u32>,
    /// items of a bulk insertion that are read before the status is sent
    read: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ask {
    Op(Op),
    Plugin(String, J),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    calls: Vec<(Ask, Answer)>,
    /// one client, or a clone of it for each call
    clones: bool,
}

#[derive(Clone, Debug)]
enum Got {
    Ping,
    Sync,
    CreateV(p::Vertex),
    CreateVT(p::Identifier),
    CreateE(p::Edge),
    Get(p::Query),
    Delete(p::Query),
    Set(p::SetPropertiesRequest),
    Bulk(Vec<p::BulkInsertItem>),
    Index(p::IndexPropertyRequest),
    Plugin(p::ExecutePluginRequest),
}

#[derive(Default)]
struct State {
    answer: Mutex<Option<Answer>>,
    got: Mutex<Vec<Got>>,
}

#[derive(Clone)]
struct Fake(Arc<State>);

fn status(s: &(i32, String)) -> Status {
    Status::new(Code::from_i32(s.0), s.1.clone())
}

fn spoilt(o: &O2, s: Spoil) -> p::QueryOutputValue {
    let mut m = p_out(&o.o());
    if let Some((which, how)) = s {
        let mut n = 0;
        s_out(&mut m, &mut |_| n += 1);
        let mut at = 0;
        s_out(&mut m, &mut |site| {
            if at == which % n {
                spoil(site, how);
            }
            at += 1;
        });
    }
    m
}

fn id_message(a: &Answer) -> p::Uuid {
    let mut v = a.id.as_bytes().to_vec();
    match a.spoil {
        Some(k) if k % 5 == 0 => v.clear(),
        Some(k) if k % 5 == 1 => v.truncate(15),
        Some(k) if k % 5 == 2 => v.push(0),
        Some(k) if k % 5 == 3 => v = v.repeat(2),
        Some(_) => v = a.id.to_string().into_bytes(),
        None => {}
    }
    p::Uuid { value: v }
}

impl Fake {
    fn take(&self, g: Got) -> Answer {
        self.0.got.lock().unwrap().push(g);
        self.0.answer.lock().unwrap().clone().expect("an answer")
    }
    fn unit(&self, g: Got) -> Result<Response<()>, Status> {
        match self.take(g).status {
            Some(s) => Err(status(&s)),
            None => Ok(Response::new(())),
        }
    }
    fn created(&self, g: Got) -> Result<Response<p::CreateResponse>, Status> {
        let a = self.take(g);
        match a.status {
            Some(s) => Err(status(&s)),
            None => Ok(Response::new(p::CreateResponse { created: a.created })),
        }
    }
}

#[tonic::async_trait]
impl IndraDb for Fake {
    async fn ping(&self, _: Request<()>) -> Result<Response<()>, Status> {
        self.unit(Got::Ping)
    }
    async fn sync(&self, _: Request<()>) -> Result<Response<()>, Status> {
        self.unit(Got::Sync)
    }
    async fn create_vertex(&self, r: Request<p::Vertex>) -> Result<Response<p::CreateResponse>, Status> {
        self.created(Got::CreateV(r.into_inner()))
    }
    async fn create_vertex_from_type(&self, r: Request<p::Identifier>) -> Result<Response<p::Uuid>, Status> {
        let a = self.take(Got::CreateVT(r.into_inner()));
        match &a.status {
            Some(s) => Err(status(s)),
            None => Ok(Response::new(id_message(&a))),
        }
    }
    async fn create_edge(&self, r: Request<p::Edge>) -> Result<Response<p::CreateResponse>, Status> {
        self.created(Got::CreateE(r.into_inner()))
    }
    type GetStream = Pin<Box<dyn Stream<Item = Result<p::QueryOutputValue, Status>> + Send + Sync + 'static>>;
    async fn get(&self, r: Request<p::Query>) -> Result<Response<Self::GetStream>, Status> {
        let a = self.take(Got::Get(r.into_inner()));
        let mut v: Vec<Result<p::QueryOutputValue, Status>> = a.outs.iter().map(|(o, s)| Ok(spoilt(o, *s))).collect();
        if let Some(s) = &a.status {
            if a.before == 0 {
                return Err(status(s));
            }
            v.truncate(a.before - 1);
            v.push(Err(status(s)));
        }
        Ok(Response::new(Box::pin(tokio_stream::iter(v))))
    }
    async fn delete(&self, r: Request<p::Query>) -> Result<Response<()>, Status> {
        self.unit(Got::Delete(r.into_inner()))
    }
    async fn set_properties(&self, r: Request<p::SetPropertiesRequest>) -> Result<Response<()>, Status> {
        self.unit(Got::Set(r.into_inner()))
    }
    async fn bulk_insert(&self, r: Request<Streaming<p::BulkInsertItem>>) -> Result<Response<()>, Status> {
        let mut s = r.into_inner();
        let early = {
            let a = self.0.answer.lock().unwrap();
            let a = a.as_ref().expect("an answer");
            a.status.as_ref().map(|_| a.read)
        };
        let mut items = vec![];
        while early.is_none_or(|n| items.len() < n) {
            match s.next().await {
                Some(i) => items.push(i?),
                None => break,
            }
        }
        self.unit(Got::Bulk(items))
    }
    async fn index_property(&self, r: Request<p::IndexPropertyRequest>) -> Result<Response<()>, Status> {
        self.unit(Got::Index(r.into_inner()))
    }
    async fn execute_plugin(&self, r: Request<p::ExecutePluginRequest>) -> Result<Response<p::ExecutePluginResponse>, Status> {
        let a = self.take(Got::Plugin(r.into_inner()));
        match a.status {
            Some(s) => Err(status(&s)),
            None => Ok(Response::new(p::ExecutePluginResponse { value: a.value.map(|value| p::Json { value }) })),
        }
    }
}

/// What the client made of it.
#[derive(Debug)]
enum Result_ {
    Unit,
    Bool(bool),
    Id(Uuid),
    Outs(Vec<O>),
    Json(J),
}

pub struct Scripted;

fn answer(r: &mut Rand) -> Answer {
    let out = |r: &mut Rand| loop {
        if let Native::Out(o) = native(r) {
            return o;
        }
    };
    let outs: Vec<(O2, Spoil)> = (0..*pick(r, &[0usize, 1, 1, 2, 3, 5]))
        .map(|_| {
            let s = chance(r, 0.1).then(|| (r.gen(), r.gen()));
            (out(r), s)
        })
        .collect();
    Answer {
        status: chance(r, 0.25).then(|| (r.gen_range(1..17), (*pick(r, &["", "no", "database: it is not there", "é\u{1F600}%\n\"x\"", "a b  c"])).to_string())),
        created: r.gen(),
        id: gen::rand_id(r),
        before: r.gen_range(0..outs.len() + 2),
        outs,
        value: match r.gen_range(0..6) {
            0 => None,
            1 => Some((*pick(r, &["", "{", "nul", "[1,]", "1 2", "'a'", "NaN", "\"", "{\"a\":}", "\"a\" x"])).to_string()),
            _ => Some(gen::value(r, 3).to_string()),
        },
        spoil: chance(r, 0.2).then(|| r.gen()),
        read: *pick(r, &[0usize, 0, 1, 2, 50, 101, 150]),
    }
}

impl Part for Scripted {
    type Case = Case;
    fn name(&self) -> &'static str {
        "client"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Case {
        let w = gen::world(r, 5);
        let mix = Mix { index: 3, bulk: 4, sync: 2, bulk_max: *pick(r, &[5, 20, 250]), wild: true, ..Mix::BASE };
        let n = r.gen_range(2..25);
        let h = gen::history(r, &w, &mix, n);
        let mut calls = vec![];
        for op in h {
            calls.push((Ask::Op(op), answer(r)));
            match r.gen_range(0..5) {
                0 => calls.push((Ask::Plugin(gen::string(r), J(gen::value(r, 2))), answer(r))),
                1 => {
                    let m = Model::new();
                    calls.push((Ask::Op(Op::Get(gen::query(r, &w, &m, 4, true))), answer(r)))
                }
                _ => {}
            }
        }
        Case { calls, clones: r.gen() }
    }
    fn run(&self, c: &Case, seen: &mut Seen) -> R {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let state = Arc::new(State::default());
        rt.block_on(async {
            let l = listen().await;
            let addr = l.local_addr().unwrap();
            super::remote::no_delay(&l);
            let fake = Fake(state.clone());
            let server = tonic::transport::Server::builder().add_service(IndraDbServer::new(fake)).serve_with_incoming(tokio_stream::wrappers::TcpListenerStream::new(l));
            let server = tokio::spawn(server);
            let mut client = p::Client::new(endpoint(addr)).await.expect("connect");
            for (ask, a) in &c.calls {
                *state.answer.lock().unwrap() = Some(a.clone());
                state.got.lock().unwrap().clear();
                let mut other = client.clone();
                let used = if c.clones { &mut other } else { &mut client };
                let said = match tokio::time::timeout(Duration::from_secs(30), ask_it(used, ask)).await {
                    Ok(x) => x,
                    Err(_) => return fail("hang", format!("{ask:?} answered by {a:?}: the client has not returned within 30 s")),
                };
                // a bulk insertion may be refused before its request was read
                let got = state.got.lock().unwrap().clone();
                sent(ask, a, &got)?;
                told(ask, a, said, seen)?;
            }
            server.abort();
            Ok(())
        })
    }
    fn nontrivial(&self, _c: &Case, seen: &Seen) -> bool {
        seen.has("read") && (seen.has("refused") || seen.has("malformed"))
    }
}

async fn ask_it(c: &mut p::Client, ask: &Ask) -> Result<Result_, p::ClientError> {
    Ok(match ask {
        Ask::Op(Op::Bulk(items)) => {
            c.bulk_insert(items.iter().map(item).collect()).await?;
            Result_::Unit
        }
        Ask::Op(op) => match raw_call(c, op).await? {
            Out::Unit => Result_::Unit,
            Out::Bool(b) => Result_::Bool(b),
            Out::Id(id) => Result_::Id(id),
            Out::Outs(o) => Result_::Outs(o),
            Out::Err(..) | Out::Panic(_) => unreachable!(),
        },
        Ask::Plugin(n, j) => Result_::Json(J((*c.execute_plugin(n, json(j)).await?.0).clone())),
    })
}

/// The request the server received is the one the client was asked to make.
fn sent(ask: &Ask, a: &Answer, got: &[Got]) -> R {
    let wrong = |want: String| fail("sent", format!("the client was asked for {want} and sent {got:?}"));
    ensure!(got.len() == 1, "sent", "for {ask:?} the client made {} requests: {got:?}", got.len());
    let g = &got[0];
    let same = |x: bool| if x { Ok(()) } else { wrong(format!("{ask:?}")) };
    match ask {
        Ask::Plugin(n, j) => same(matches!(g, Got::Plugin(r) if r.name == *n && r.arg.as_ref().is_some_and(|a| d_json(a).as_ref() == Ok(j)))),
        Ask::Op(op) => match op {
            Op::CreateV(id, t) => same(matches!(g, Got::CreateV(v) if d_vertex(v) == Ok((*id, t.clone())))),
            Op::CreateVT(t) => same(matches!(g, Got::CreateVT(i) if d_name(i).as_ref() == Ok(t))),
            Op::CreateE(e) => same(matches!(g, Got::CreateE(x) if d_edge(x).as_ref() == Ok(e))),
            Op::Set(q, n, j) => same(matches!(g, Got::Set(x) if d_set(x) == Ok((q.clone(), n.clone(), j.clone())))),
            Op::Delete(q) => same(matches!(g, Got::Delete(x) if d_query(x).as_ref() == Ok(q))),
            Op::Get(q) => same(matches!(g, Got::Get(x) if d_query(x).as_ref() == Ok(q))),
            Op::Bulk(items) => {
                let n = if a.status.is_some() { a.read.min(items.len()) } else { items.len() };
                let Got::Bulk(x) = g else { return wrong(format!("{ask:?}")) };
                let x: Vec<_> = x.iter().map(d_item).collect();
                ensure!(x.iter().zip(items).all(|(x, i)| x.as_ref() == Ok(i)) && x.len() == n, "sent", "of {items:?} the server read {x:?}, expected {n} items");
                Ok(())
            }
            Op::Index(n) => same(matches!(g, Got::Index(x) if d_index(x).as_ref() == Ok(n))),
            Op::Sync => same(matches!(g, Got::Sync)),
            Op::Reopen(_) => same(matches!(g, Got::Ping)),
        },
    }
}

/// What the client reported is what the server answered.
fn told(ask: &Ask, a: &Answer, said: Result<Result_, p::ClientError>, seen: &mut Seen) -> R {
    let is_get = matches!(ask, Ask::Op(Op::Get(_)));
    let outs: Vec<Result<O, Bad>> = if is_get { a.outs.iter().map(|(o, s)| d_out(&spoilt(o, *s))).collect() } else { vec![] };
    // what comes first in the stream is what stops it
    let upto = if a.status.is_some() && is_get { a.before.saturating_sub(1).min(outs.len()) } else { outs.len() };
    let malformed = match ask {
        Ask::Op(Op::Get(_)) => outs[..upto].iter().any(|o| o.is_err()),
        Ask::Op(Op::CreateVT(_)) => a.status.is_none() && a.spoil.is_some(),
        Ask::Plugin(..) => a.status.is_none() && a.value.as_ref().is_some_and(|v| serde_json::from_str::<serde_json::Value>(v).is_err()),
        _ => false,
    };
    if malformed {
        seen.tag("malformed");
        return match said {
            Err(_) => Ok(()),
            x => fail("malformed-answer", format!("{ask:?} was answered by {a:?}, which is malformed, and the client returned {x:?}")),
        };
    }
    if let Some((code, msg)) = &a.status {
        seen.tag("refused");
        return match said {
            Err(p::ClientError::Grpc { inner }) if inner.code() == Code::from_i32(*code) && inner.message() == msg => Ok(()),
            x => fail("status", format!("{ask:?} was answered by status {code} {msg:?}, and the client returned {x:?}")),
        };
    }
    let ok = match (ask, &said) {
        (Ask::Plugin(..), Ok(Result_::Json(j))) => {
            let want = a.value.as_ref().map_or(serde_json::Value::Null, |v| serde_json::from_str(v).unwrap());
            j.0 == want
        }
        (Ask::Op(Op::Get(_)), Ok(Result_::Outs(o))) => o.len() == outs.len() && o.iter().zip(&outs).all(|(x, y)| y.as_ref() == Ok(x)),
        (Ask::Op(Op::CreateV(..) | Op::CreateE(_)), Ok(Result_::Bool(b))) => *b == a.created,
        (Ask::Op(Op::CreateVT(_)), Ok(Result_::Id(id))) => *id == a.id,
        (Ask::Op(Op::Set(..) | Op::Delete(_) | Op::Bulk(_) | Op::Index(_) | Op::Sync | Op::Reopen(_)), Ok(Result_::Unit)) => true,
        _ => false,
    };
    if is_get && !outs.is_empty() {
        seen.tag("read");
    }
    ensure!(ok, "answer", "{ask:?} was answered by {a:?}, and the client returned {said:?}");
    Ok(())
}
