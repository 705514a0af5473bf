//! Histories in which some numbers are large: elements, properties of one element, indexed names, distinct
//! values, lists in queries and requests. Written out from a few numbers, so that a failing case stays short.
use crate::driver::*;
use crate::gen::{chance, guess, pick, Rand, World};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeSet;
use uuid::Uuid;

use super::durable::Img;
use super::graph::{new_store, Kind};
use super::remote::{remote, Any};

/// What a case is written out from. The sizes are what shrinking works on.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Numbers {
    pub seed: u64,
    pub vertices: u16,
    pub edges: u16,
    /// edges of one vertex to others
    pub star: u16,
    /// property names
    pub names: u16,
    /// properties of one vertex and of one edge
    pub held: u16,
    /// distinct values
    pub values: u16,
    /// bytes of a name, about
    pub long: u8,
    pub steps: u8,
    /// bits: random ids, index first, one bulk insertion, star inwards, hub held by everything
    pub how: u8,
}

/// A number near one at which code may change its ways.
pub fn size(r: &mut Rand, max: u32) -> u16 {
    let at = [0u32, 1, 8, 10, 16, 32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024, 1500, 2000, 2048, 3000, 4096, 5000];
    let ok: Vec<u32> = at.iter().copied().filter(|x| *x <= max).collect();
    let x = *pick(r, &ok);
    match r.gen_range(0..4) {
        0 => x as u16,
        1 => x.saturating_sub(1) as u16,
        2 => x as u16 + 1,
        _ => x as u16 + r.gen_range(0..=x as u16 / 4 + 1),
    }
}

pub fn numbers(r: &mut Rand, max: u32) -> Numbers {
    let mut n = Numbers {
        seed: r.gen(),
        vertices: size(r, 32),
        edges: size(r, 32),
        star: size(r, 16),
        names: size(r, 8),
        held: size(r, 8),
        values: size(r, 8),
        long: *pick(r, &[1, 3, 20, 100, 255]),
        steps: r.gen_range(3..10),
        how: r.gen(),
    };
    n.vertices = n.vertices.max(2);
    // one or two of them are large
    for _ in 0..r.gen_range(1..3) {
        let large = |r: &mut Rand, max: u32| loop {
            let x = size(r, max);
            if x > 60 {
                return x;
            }
        };
        match r.gen_range(0..7) {
            0 | 1 => n.vertices = large(r, max),
            2 => n.edges = large(r, max),
            3 => n.star = large(r, max),
            4 => n.names = large(r, max.min(300)),
            5 => n.held = large(r, max.min(1024)),
            _ => n.values = large(r, max.min(300)),
        }
    }
    n
}

struct Shape {
    w: World,
    /// the names, the first few of which are used by everything
    names: Vec<String>,
    hub: Uuid,
    edge: E,
}

impl Numbers {
    fn shape(&self) -> Shape {
        let r = &mut Rand::seed_from_u64(self.seed);
        let nv = self.vertices.max(2) as usize;
        let mut ids: Vec<Uuid> = vec![];
        let mut seen = BTreeSet::new();
        for k in 0..nv {
            let id = if self.how & 1 == 0 { Uuid::from_u128(k as u128 + 250) } else { Uuid::from_u128(r.gen()) };
            if seen.insert(id) {
                ids.push(id);
            }
        }
        let base = match self.how >> 6 {
            0 => "n",
            1 => "é",
            2 => "",
            _ => "a-",
        };
        let nn = self.names.max(2).max(self.held) as usize;
        let names = (0..nn)
            .map(|k| {
                let mut s = format!("{base}{k}");
                let fill = if k % 3 == 2 { 0 } else { (self.long as usize).saturating_sub(s.len()) };
                s.push_str(&"-".repeat(fill));
                s
            })
            .collect::<Vec<_>>();
        let vals = (0..self.values.max(2)).map(|k| J(if k % 5 == 4 { json!([k, "x"]) } else { json!(k) })).collect();
        let w = World { vts: vec!["a".into(), "ab".into()], ets: vec!["x".into(), "xy".into(), "".into()], names: names.iter().take(4).cloned().collect(), vals, ids };
        let hub = w.ids[r.gen_range(0..w.ids.len())];
        let edge = E { o: hub, t: "held".into(), i: w.ids[r.gen_range(0..w.ids.len())] };
        Shape { w, names, hub, edge }
    }

    fn items(&self, s: &Shape, r: &mut Rand) -> Vec<Item> {
        let w = &s.w;
        let mut out: Vec<Item> = w.ids.iter().map(|id| Item::V(*id, w.vt(r))).collect();
        if chance(r, 0.5) {
            out.shuffle(r);
        }
        let inwards = self.how & 8 != 0;
        for k in 0..self.star as usize {
            let id = w.ids[k % w.ids.len()];
            // as many different edges as asked for, by type if need be
            let round = k / w.ids.len();
            let t = if round == 0 { w.et(r) } else { format!("t{round}") };
            out.push(Item::E(if inwards { E { o: id, t, i: s.hub } } else { E { o: s.hub, t, i: id } }));
        }
        for _ in 0..self.edges {
            out.push(Item::E(E { o: w.id(r), t: w.et(r), i: w.id(r) }));
        }
        out.push(Item::E(s.edge.clone()));
        for n in s.names.iter().take(self.held as usize) {
            out.push(Item::VP(s.hub, n.clone(), w.val(r)));
            out.push(Item::EP(s.edge.clone(), n.clone(), w.val(r)));
        }
        let made: Vec<E> = out.iter().filter_map(|i| if let Item::E(e) = i { Some(e.clone()) } else { None }).collect();
        let all = self.how & 16 != 0;
        for id in &w.ids {
            if all || chance(r, 0.3) {
                out.push(Item::VP(*id, w.nm(r), pick(r, &w.vals).clone()));
            }
        }
        for e in &made {
            if all || chance(r, 0.3) {
                out.push(Item::EP(e.clone(), w.nm(r), pick(r, &w.vals).clone()));
            }
        }
        // each further name is on something
        for n in s.names.iter().skip(4) {
            out.push(Item::VP(w.id(r), n.clone(), pick(r, &w.vals).clone()));
        }
        out
    }

    /// The operations. Those that depend on where the history stands are made as it goes: see `step_op`.
    fn start(&self, s: &Shape) -> Vec<Op> {
        let r = &mut Rand::seed_from_u64(self.seed ^ 1);
        let mut index: Vec<Op> = s.names.iter().take(self.names as usize).map(|n| Op::Index(n.clone())).collect();
        if chance(r, 0.3) {
            index.shuffle(r);
        }
        let items = self.items(s, r);
        let per = if self.how & 4 != 0 { usize::MAX } else { *pick(r, &[1000, 100, 17]) };
        let mut bulk: Vec<Op> = items.chunks(per.min(items.len().max(1))).map(|c| Op::Bulk(c.to_vec())).collect();
        let mut out = vec![];
        if self.how & 2 != 0 {
            out.append(&mut index);
            out.append(&mut bulk);
        } else {
            out.append(&mut bulk);
            out.append(&mut index);
        }
        out
    }

    fn step_op(&self, s: &Shape, m: &Model, r: &mut Rand, again: bool) -> Op {
        let w = &s.w;
        let bx = Box::new;
        let some_ids = |r: &mut Rand| {
            let p = *pick(r, &[0.02, 0.5, 0.98, 1.0]);
            let mut v: Vec<Uuid> = w.ids.iter().filter(|_| chance(r, p)).copied().collect();
            if chance(r, 0.5) {
                v.shuffle(r);
            }
            if chance(r, 0.2) {
                let twice: Vec<Uuid> = v.iter().filter(|_| chance(r, 0.1)).copied().collect();
                v.extend(twice);
            }
            v
        };
        let some_edges = |r: &mut Rand| {
            let p = *pick(r, &[0.02, 0.5, 0.98, 1.0]);
            let mut v: Vec<E> = m.e.iter().filter(|_| chance(r, p)).cloned().collect();
            if chance(r, 0.5) {
                v.shuffle(r);
            }
            v
        };
        let limit = |r: &mut Rand, of: usize| match r.gen_range(0..4) {
            0 => u32::MAX,
            1 => (of as u32).saturating_sub(r.gen_range(0..2)),
            2 => size(r, 1024) as u32,
            _ => of as u32 / 2,
        };
        let name = |r: &mut Rand| if chance(r, 0.6) { w.nm(r) } else { pick(r, &s.names).clone() };
        let indexed = |r: &mut Rand| if m.idx.is_empty() || chance(r, 0.05) { name(r) } else { let k = r.gen_range(0..m.idx.len()); m.idx.iter().nth(k).unwrap().clone() };
        let wide = |r: &mut Rand| -> Q {
            let n = indexed(r);
            let val = w.held(r, m, &n);
            let q = match r.gen_range(0..12) {
                0 => Q::AllV,
                1 => Q::AllE,
                2 => Q::SpecV(some_ids(r)),
                3 => Q::SpecE(some_edges(r)),
                4 => Q::VProp(n),
                5 => Q::EProp(n),
                6 => Q::VVal(n, val),
                7 => Q::EVal(n, val),
                8 => Q::RangeV { limit: limit(r, m.v.len()), t: if chance(r, 0.4) { Some(w.vt(r)) } else { None }, start: if chance(r, 0.5) { Some(w.id(r)) } else { None } },
                9 => Q::Pipe { inner: bx(Q::AllV), dir: if r.gen() { Dir::Out } else { Dir::In }, limit: limit(r, m.e.len()), t: if chance(r, 0.3) { Some(w.et(r)) } else { None } },
                10 => Q::Pipe { inner: bx(Q::AllE), dir: if r.gen() { Dir::Out } else { Dir::In }, limit: limit(r, m.e.len()), t: if chance(r, 0.3) { Some(w.vt(r)) } else { None } },
                _ => Q::Pipe { inner: bx(Q::SpecV(vec![s.hub])), dir: if r.gen() { Dir::Out } else { Dir::In }, limit: limit(r, m.e.len()), t: None },
            };
            let n = indexed(r);
            match r.gen_range(0..10) {
                0 => Q::PProp { inner: bx(q), name: n, exists: r.gen() },
                1 => {
                    let value = w.held(r, m, &n);
                    Q::PVal { inner: bx(q), name: n, value, equal: r.gen() }
                }
                2 => Q::Pipe { inner: bx(q), dir: if r.gen() { Dir::Out } else { Dir::In }, limit: limit(r, m.e.len()), t: None },
                3 => Q::Include(bx(q)),
                _ => q,
            }
        };
        match r.gen_range(0..20) {
            0..=4 => {
                let q = wide(r);
                let n = name(r);
                Op::Get(match r.gen_range(0..5) {
                    0 => Q::Count(bx(q)),
                    1 => Q::Props { inner: bx(q), name: None },
                    2 => Q::Props { inner: bx(q), name: Some(n) },
                    _ => q,
                })
            }
            5..=7 => Op::Set(wide(r), name(r), w.val(r)),
            8 | 9 => {
                let q = wide(r);
                Op::Delete(Q::Props { inner: bx(q), name: if chance(r, 0.7) { Some(name(r)) } else { None } })
            }
            10..=12 => Op::Delete(wide(r)),
            13 => Op::Delete(Q::SpecV(vec![s.hub])),
            14 | 15 => {
                let mut i = self.items(s, r);
                if chance(r, 0.5) {
                    let k = (size(r, i.len() as u32) as usize).min(i.len());
                    i.rotate_left(k);
                }
                Op::Bulk(i)
            }
            16 => Op::Index(pick(r, &s.names).clone()),
            17 => Op::CreateV(w.id(r), w.vt(r)),
            18 if again => Op::Sync,
            _ if again => Op::Reopen(r.gen()),
            _ => Op::Set(Q::SpecV(vec![s.hub]), name(r), w.val(r)),
        }
    }

    /// The ids and so on to probe the transaction interface with.
    fn mentioned(&self, s: &Shape) -> Mentions {
        let few = |n: usize| {
            let k = s.names.len();
            s.names.iter().enumerate().filter(move |(i, _)| *i < n || *i + n >= k).map(|x| x.1.clone())
        };
        let ids: BTreeSet<Uuid> = s.w.ids.iter().take(3).chain(s.w.ids.iter().rev().take(3)).copied().chain([s.hub]).collect();
        Mentions { ids, edges: [s.edge.clone()].into(), names: few(4).collect(), vals: s.w.vals.iter().take(2).cloned().collect() }
    }
}

/// Whether an operation takes too long.
fn costly(m: &Model, op: &Op) -> bool {
    let (Op::Get(q) | Op::Set(q, ..) | Op::Delete(q)) = op else { return false };
    // a vertex is deleted, with its edges, as often as it is listed
    let both = |d| unroll(&Q::Pipe { inner: Box::new(q.clone()), dir: d, limit: u32::MAX, t: None });
    m.cost(&unroll(q)) > 40_000 || matches!(op, Op::Delete(_)) && matches!(m.classify(&unroll(q)), Ok(Ty::V)) && m.cost(&both(Dir::Out)).max(m.cost(&both(Dir::In))) > 100_000
}

impl Numbers {
    /// The writes of such a history.
    pub fn writes(&self) -> Vec<Op> {
        let sh = self.shape();
        let mut m = Model::new();
        let mut ops = self.start(&sh);
        ops.iter().for_each(|o| guess(&mut m, o));
        let r = &mut Rand::seed_from_u64(self.seed ^ 2);
        for _ in 0..self.steps {
            let op = self.step_op(&sh, &m, r, false);
            if !matches!(op, Op::Get(_)) && !costly(&m, &op) {
                guess(&mut m, &op);
                ops.push(op);
            }
        }
        ops
    }
}

/// A history of a few large steps on a store; `again` if the store can be synced and reopened.
pub fn wide(s: &mut dyn Store, c: &Numbers, again: bool, seen: &mut Seen) -> R {
    let sh = c.shape();
    let mut m = Model::new();
    let x = c.mentioned(&sh);
    let names: Vec<String> = x.names.iter().cloned().collect();
    for (k, op) in c.start(&sh).iter().enumerate() {
        step(s, &mut m, op, seen).map_err(|f| Fail { kind: f.kind, msg: format!("at start operation {k}: {}", f.msg) })?;
    }
    check_all(s, &m, &names, &[])?;
    let r = &mut Rand::seed_from_u64(c.seed ^ 2);
    if again && chance(r, 0.6) {
        step(s, &mut m, &Op::Sync, seen)?;
        step(s, &mut m, &Op::Reopen(r.gen()), seen)?;
        check_all(s, &m, &names, &[])?;
    }
    for k in 0..c.steps {
        let op = c.step_op(&sh, &m, r, again);
        if costly(&m, &op) {
            continue;
        }
        let brief = || format!("{op:?}").chars().take(300).collect::<String>();
        let at = |f: Fail| Fail { kind: f.kind, msg: format!("at step {k} ({}): {}", brief(), f.msg) };
        let read = matches!(op, Op::Get(_));
        step(s, &mut m, &op, seen).map_err(at)?;
        if !read {
            check_all(s, &m, &names, &[]).map_err(at)?;
        }
    }
    s.txn_probe(&m, &x)?;
    if again {
        step(s, &mut m, &Op::Sync, seen)?;
        step(s, &mut m, &Op::Reopen(r.gen()), seen)?;
        check_all(s, &m, &names, &[])?;
        s.txn_probe(&m, &x)?;
    }
    let big = [c.vertices, c.edges, c.star, c.names, c.held, c.values].into_iter().max().unwrap();
    seen.tag("wide");
    for (at, l) in [(100, "over-100"), (256, "over-256"), (1000, "over-1000")] {
        if big > at {
            seen.tag(l);
        }
    }
    if c.names > 30 && c.long > 60 {
        seen.tag("much-metadata");
    }
    Ok(())
}

/// Where the history runs.
#[derive(Clone, Copy, PartialEq)]
pub enum At {
    Mem,
    Rdb,
    /// saved to and loaded from an image
    Image,
    /// through a client and a server
    Net(Kind),
}

pub struct Wide {
    pub at: At,
    pub max: u32,
}

/// A memory database that is saved and loaded by syncing and reopening it.
pub struct Saved {
    s: Img,
    _dir: Scratch,
}

impl Saved {
    pub fn new() -> Saved {
        let dir = Scratch::new();
        let path = dir.path("i");
        Saved { s: Img { db: indradb::MemoryDatastore::create_msgpack_db(&path), path }, _dir: dir }
    }
}

impl Store for Saved {
    fn apply(&mut self, op: &Op) -> Out {
        match op {
            Op::Reopen(_) => {
                let o = self.s.apply(&Op::Sync);
                if !matches!(o, Out::Unit) {
                    return o;
                }
                match Img::load(&self.s.path) {
                    Ok(s) => {
                        self.s = s;
                        Out::Unit
                    }
                    Err(f) => Out::Err(EK::Datastore, f.msg),
                }
            }
            op => self.s.apply(op),
        }
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        self.s.txn_probe(m, x)
    }
    fn name(&self) -> &'static str {
        "memory"
    }
}

impl Part for Wide {
    type Case = Numbers;
    fn name(&self) -> &'static str {
        match self.at {
            At::Mem => "memory-wide",
            At::Rdb => "rocksdb-wide",
            At::Image => "image-wide",
            At::Net(Kind::Mem) => "net-memory-wide",
            At::Net(Kind::Rdb) => "net-rocksdb-wide",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Numbers {
        let mut n = numbers(r, self.max);
        if let At::Net(_) = self.at {
            // an answer of more than 4 MB is beyond the transport
            n.long = n.long.min(60);
        }
        n
    }
    fn run(&self, c: &Numbers, seen: &mut Seen) -> R {
        match self.at {
            At::Mem => wide(new_store(Kind::Mem).as_mut(), c, false, seen),
            At::Rdb => wide(new_store(Kind::Rdb).as_mut(), c, true, seen),
            At::Image => {
                let mut s = Saved::new();
                wide(&mut s, c, true, seen)
            }
            At::Net(k) => match &mut remote(k, 0, 1) {
                Any::Mem(s) => net(s, c, seen),
                Any::Rdb(s) => net(s, c, seen),
            },
        }
    }
    fn nontrivial(&self, _c: &Numbers, seen: &Seen) -> bool {
        seen.has("over-100") && seen.has("set")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (40, 300)
    }
}

fn net<D: indradb::Datastore + Send + Sync + 'static>(s: &mut super::remote::Remote<D>, c: &Numbers, seen: &mut Seen) -> R {
    wide(s, c, false, seen)?;
    match s.diff.take() {
        Some(d) => fail("differs", d),
        None => Ok(()),
    }
}
