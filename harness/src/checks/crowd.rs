//! C20: several clients at once on a server that is killed and started again. Every client works on elements of its
//! own, so that what each of them should find afterwards is known without knowing how their requests interleaved.
use super::binaries::{any_address, up};
use super::concurrent::dump;
use super::remote::call;
use crate::driver::*;
use crate::ensure;
use crate::gen::{chance, guess, pick, Rand};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use indradb_proto as p;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use uuid::Uuid;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CrowdCase {
    /// for each client what it does, one request after the other
    lists: Vec<Vec<Op>>,
    /// after how many microseconds the server is killed, each time
    kills: Vec<u32>,
}

pub struct CrowdPart {
    pub persist: bool,
}

fn own(client: usize, n: u32) -> Uuid {
    Uuid::from_u128(((client as u128 + 1) << 64) | n as u128)
}

fn owner(id: Uuid) -> Option<usize> {
    ((id.as_u128() >> 64) as usize).checked_sub(1)
}

fn ids(r: &mut Rand, c: usize) -> Vec<Uuid> {
    (0..6).filter(|_| chance(r, 0.4)).map(|n| own(c, n)).collect()
}

fn edge(r: &mut Rand, c: usize) -> E {
    E { o: own(c, r.gen_range(0..6)), t: pick(r, &["a", "b"]).to_string(), i: own(c, r.gen_range(0..6)) }
}

fn some(r: &mut Rand, c: usize) -> Q {
    match r.gen_range(0..4) {
        0 => Q::SpecE((0..4).map(|_| edge(r, c)).collect()),
        1 => {
            let inner = Box::new(Q::SpecV(ids(r, c)));
            Q::Pipe { inner, dir: Dir::Out, limit: u32::MAX, t: None }
        }
        _ => Q::SpecV(ids(r, c)),
    }
}

fn name(r: &mut Rand) -> String {
    pick(r, &["p", "q"]).to_string()
}

fn value(r: &mut Rand) -> J {
    J(match r.gen_range(0..6) {
        0 => json!("x".repeat(r.gen_range(0..3000))),
        _ => json!(r.gen_range(0..4)),
    })
}

fn op(r: &mut Rand, c: usize, m: &Model) -> Op {
    let v = |r: &mut Rand| own(c, r.gen_range(0..6));
    match r.gen_range(0..20) {
        0..=4 => Op::CreateV(v(r), pick(r, &["t", "u"]).to_string()),
        5..=7 => Op::CreateE(edge(r, c)),
        8..=10 => Op::Set(some(r, c), name(r), value(r)),
        11 | 12 => match r.gen_range(0..3) {
            0 => Op::Delete(Q::Props { inner: Box::new(some(r, c)), name: Some(name(r)) }),
            _ => Op::Delete(some(r, c)),
        },
        13..=17 => {
            let items: Vec<Item> = (0..r.gen_range(1..40))
                .map(|_| match r.gen_range(0..4) {
                    0 => Item::V(v(r), pick(r, &["t", "u"]).to_string()),
                    1 => Item::E(edge(r, c)),
                    2 => Item::VP(v(r), name(r), value(r)),
                    _ => Item::EP(edge(r, c), name(r), value(r)),
                })
                .collect();
            Op::Bulk(m.sanitise(&items))
        }
        _ => Op::Sync,
    }
}

/// What a client has done so far.
#[derive(Default)]
struct Progress {
    acknowledged: AtomicU64,
    /// how many of its requests the last acknowledged sync must have written
    synced: AtomicU64,
    /// when each of its requests was sent and answered
    times: Mutex<Vec<(u64, u64)>>,
}

impl Part for CrowdPart {
    type Case = CrowdCase;
    fn name(&self) -> &'static str {
        if self.persist {
            "crowd-persist"
        } else {
            "crowd-rocksdb"
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> CrowdCase {
        let lists = (0..r.gen_range(2..7))
            .map(|c| {
                let mut m = Model::new();
                (0..*pick(r, &[4, 15, 60, 120]) + r.gen_range(0..8))
                    .map(|_| {
                        let o = op(r, c, &m);
                        guess(&mut m, &o);
                        o
                    })
                    .collect()
            })
            .collect();
        let kills = (0..r.gen_range(1..5)).map(|_| *pick(r, &[500, 2000, 5000, 12000, 30000]) + r.gen_range(0..2000)).collect();
        CrowdCase { lists, kills }
    }
    fn run(&self, c: &CrowdCase, seen: &mut Seen) -> R {
        let dir = Scratch::new();
        let mut args = vec!["-a".to_string(), any_address()];
        args.extend(match self.persist {
            true => ["memory".to_string(), format!("--persist-path={}", dir.path("image").to_string_lossy())],
            false => ["rocksdb".to_string(), dir.path("db").to_string_lossy().into_owned()],
        });
        // the requests (a shortened case may have others) and the content after each of them, for each client
        let mut lists: Vec<Vec<Op>> = vec![];
        let mut states: Vec<Vec<Model>> = vec![];
        for (n, l) in c.lists.iter().enumerate() {
            let mut m = Model::new();
            let mut all = vec![m.clone()];
            let mut list = vec![];
            for o in l {
                let x = mentions(std::slice::from_ref(o));
                let named = x.edges.iter().flat_map(|e| [e.o, e.i]).chain(x.ids);
                if named.into_iter().any(|id| owner(id) != Some(n)) || matches!(o, Op::Get(_) | Op::CreateVT(_)) {
                    continue;
                }
                let o = match o {
                    Op::Bulk(items) => Op::Bulk(m.sanitise(items)),
                    o => o.clone(),
                };
                guess(&mut m, &o);
                all.push(m.clone());
                list.push(o);
            }
            lists.push(list);
            states.push(all);
        }
        let mut server = up(&args, &[], &dir.0)?;
        for o in [Op::Index("p".into()), Op::Sync] {
            let out = server.net.apply(&o);
            ensure!(matches!(out, Out::Unit), "outcome", "{o:?} gave {out:?}");
        }
        let mut at: Vec<usize> = vec![0; lists.len()];
        for (round, kill) in c.kills.iter().enumerate() {
            let progress: Arc<Vec<Progress>> = Arc::new(at.iter().map(|_| Progress::default()).collect());
            for (p, k) in progress.iter().zip(&at) {
                p.acknowledged.store(*k as u64, SeqCst);
                p.synced.store(*k as u64, SeqCst);
                p.times.lock().unwrap().resize(*k, (0, 0));
            }
            let clock = Arc::new(AtomicU64::new(1));
            let killed = Arc::new(AtomicBool::new(false));
            let pid = server.child.id() as i32;
            let addr = server.addr.clone();
            let start = Arc::new(std::sync::Barrier::new(lists.len() + 1));
            let clients: Vec<_> = lists
                .iter()
                .enumerate()
                .map(|(n, list)| {
                    let (list, from) = (list[at[n]..].to_vec(), at[n]);
                    let (progress, clock, killed) = (progress.clone(), clock.clone(), killed.clone());
                    let (addr, start, states) = (addr.clone(), start.clone(), states[n].clone());
                    std::thread::spawn(move || work(n, &addr, &list, from, &states, &progress, &clock, &killed, &start))
                })
                .collect();
            start.wait();
            std::thread::sleep(Duration::from_micros(*kill as u64));
            killed.store(true, SeqCst);
            unsafe { libc::kill(pid, libc::SIGKILL) };
            let mut in_flight = vec![];
            for t in clients {
                in_flight.push(t.join().expect("a client's thread")?);
            }
            drop(server);
            server = up(&args, &[], &dir.0)?;
            let found = dump(&mut server.net)?;
            let mut least = vec![];
            for (n, list) in lists.iter().enumerate() {
                let mine = share(&found, n);
                let acknowledged = progress[n].acknowledged.load(SeqCst) as usize;
                let from = if self.persist { progress[n].synced.load(SeqCst) as usize } else { acknowledged };
                let to = (acknowledged + in_flight[n] as usize).min(list.len());
                let fits: Vec<usize> = (from..=to).filter(|k| same(&states[n][*k], &mine)).collect();
                ensure!(
                    !fits.is_empty(),
                    "lost",
                    "after kill {round}, client {n} finds {mine:?}: not what it had after {from} to {to} of its requests, which are {:?}; after {acknowledged}, which were acknowledged, it had {:?}",
                    &list[..to],
                    states[n][acknowledged]
                );
                if acknowledged > at[n] {
                    seen.tag(if n % 2 == 0 { "even-acknowledged" } else { "odd-acknowledged" });
                }
                if in_flight[n] {
                    seen.tag("killed-in-flight");
                }
                least.push(fits[0]);
                at[n] = *fits.last().unwrap();
            }
            // nothing that was answered before a request in the image was sent may be missing from it
            for (a, pa) in progress.iter().enumerate() {
                let ta = pa.times.lock().unwrap();
                for (b, pb) in progress.iter().enumerate() {
                    if a == b {
                        continue;
                    }
                    let tb = pb.times.lock().unwrap();
                    if least[b] == 0 || least[b] > tb.len() {
                        continue;
                    }
                    let sent = tb[least[b] - 1].0;
                    let before = ta.iter().take_while(|t| t.1 != u64::MAX && t.1 < sent).count();
                    ensure!(
                        before <= at[a],
                        "inconsistent",
                        "after kill {round}, request {} of client {b} is there, but client {a} finds only {} of the {before} requests answered before that was sent",
                        least[b] - 1,
                        at[a]
                    );
                }
            }
            // and the indexes agree with what is there
            let mut all = found;
            all.idx.insert("p".into());
            let vals: Vec<J> = (0..4).map(|n| J(json!(n))).collect();
            check_all(&mut server.net, &all, &["p".to_string(), "q".to_string()], &vals)?;
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &CrowdCase, seen: &Seen) -> bool {
        seen.has("even-acknowledged") && seen.has("odd-acknowledged") && seen.has("killed-in-flight")
    }
    fn threads(&self) -> usize {
        4
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 200)
    }
}

fn share(m: &Model, n: usize) -> Model {
    let mut x = m.clone();
    x.v.retain(|id, _| owner(*id) == Some(n));
    x.e.retain(|e| owner(e.o) == Some(n));
    x.vp.retain(|(id, _), _| owner(*id) == Some(n));
    x.ep.retain(|(e, _), _| owner(e.o) == Some(n));
    x
}

fn same(a: &Model, b: &Model) -> bool {
    a.v == b.v && a.e == b.e && a.vp == b.vp && a.ep == b.ep
}

/// Sends a client's requests until the server is gone: whether one was left without an answer.
#[allow(clippy::too_many_arguments)]
fn work(
    n: usize,
    addr: &str,
    list: &[Op],
    from: usize,
    states: &[Model],
    progress: &[Progress],
    clock: &AtomicU64,
    killed: &AtomicBool,
    start: &std::sync::Barrier,
) -> R<bool> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let connected = rt.block_on(async {
        let e: tonic::transport::Endpoint = addr.to_string().try_into().expect("an address that was used before");
        tokio::time::timeout(Duration::from_secs(40), p::Client::new(e)).await
    });
    start.wait();
    let mut client = match connected {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return fail("no-service", format!("client {n} cannot connect: {e}")),
        Err(_) => return fail("hang", format!("client {n} cannot connect within 40 s")),
    };
    let me = &progress[n];
    for (k, o) in list.iter().enumerate() {
        let k = from + k;
        let known: Vec<u64> = progress.iter().map(|p| p.acknowledged.load(SeqCst)).collect();
        me.times.lock().unwrap().push((clock.fetch_add(1, SeqCst), u64::MAX));
        let out = rt.block_on(async { tokio::time::timeout(Duration::from_secs(40), call(&mut client, o)).await });
        let want = match o {
            Op::CreateV(id, _) => Out::Bool(!states[k].v.contains_key(id)),
            Op::CreateE(e) => Out::Bool(states[k].v.contains_key(&e.o) && states[k].v.contains_key(&e.i)),
            _ => Out::Unit,
        };
        match out {
            Err(_) => return fail("hang", format!("client {n} got no answer to {o:?} within 40 s")),
            Ok(out) if out.same(&want) => {}
            Ok(Out::Err(..)) if killed.load(SeqCst) => return Ok(true),
            Ok(out) => return fail("outcome", format!("client {n}'s request {k}, {o:?}, gave {out:?}, not {want:?}")),
        }
        me.times.lock().unwrap()[k].1 = clock.fetch_add(1, SeqCst);
        me.acknowledged.store(k as u64 + 1, SeqCst);
        if matches!(o, Op::Sync) {
            for (p, known) in progress.iter().zip(&known) {
                p.synced.fetch_max(*known, SeqCst);
            }
        }
    }
    Ok(false)
}
