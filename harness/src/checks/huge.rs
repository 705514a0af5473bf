//! Few long histories of tens of thousands of elements: one hub with that many edges, one value held by half
//! of everything, one property with as many values as elements. Each operation is one that takes time in
//! proportion to the elements.
use crate::driver::*;
use crate::gen::{chance, pick, Rand};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use uuid::Uuid;

use super::graph::{new_store, Kind};
use super::remote::{remote, Any};
use super::wide::{At, Saved};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Amounts {
    pub seed: u64,
    /// vertices, and edges of the hub
    pub n: u32,
    pub steps: u8,
    /// bits: random ids, hub's edges inwards, which property is indexed first, one bulk insertion, hub in the middle of the ids
    pub how: u8,
}

/// A large number near one at which code may change its ways.
fn amount(r: &mut Rand, min: u32, max: u32) -> u32 {
    let at = [6000u32, 8192, 10000, 12500, 16384, 20000, 25000, 32768, 50000, 65536, 100000, 131072];
    let ok: Vec<u32> = at.iter().copied().filter(|x| *x <= max && *x >= min.min(max / 2)).collect();
    let x = *pick(r, &ok);
    match r.gen_range(0..4) {
        0 => x,
        1 => x - 1,
        2 => x + 1 + r.gen_range(0..2),
        _ => x + r.gen_range(0..=x / 8),
    }
}

/// A way of opening the database: not those that keep few files open or write many small ones.
fn way(r: &mut Rand) -> u8 {
    *pick(r, &[0, 1, 2, 5])
}

impl Amounts {
    fn ids(&self) -> Vec<Uuid> {
        let r = &mut Rand::seed_from_u64(self.seed);
        (0..self.n.max(2)).map(|k| if self.how & 1 == 0 { Uuid::from_u128(k as u128 + 250) } else { Uuid::from_u128(r.gen::<u128>() & !0xfffff | k as u128) }).collect()
    }

    fn hub(&self, ids: &[Uuid]) -> Uuid {
        ids[if self.how & 16 == 0 { 0 } else { ids.len() / 2 }]
    }

    fn items(&self, ids: &[Uuid]) -> Vec<Item> {
        let hub = self.hub(ids);
        let mut out = vec![];
        for (k, id) in ids.iter().enumerate() {
            out.push(Item::V(*id, if k % 3 == 0 { "a".into() } else { "ab".into() }));
        }
        for (k, id) in ids.iter().enumerate() {
            let t = if k % 5 == 0 { "x".to_string() } else { "xy".into() };
            let e = if self.how & 2 == 0 { E { o: hub, t, i: *id } } else { E { o: *id, t, i: hub } };
            out.push(Item::E(e.clone()));
            if k % 2 == 0 {
                out.push(Item::VP(*id, "p".into(), J(json!(1))));
                out.push(Item::EP(e.clone(), "p".into(), J(json!(1))));
            } else if k % 7 == 0 {
                out.push(Item::VP(*id, "p".into(), J(json!("two"))));
            }
            if k % 4 != 2 {
                out.push(Item::VP(*id, "q".into(), J(json!(k))));
                out.push(Item::EP(e, "q".into(), J(json!(k))));
            }
        }
        // what is there twice is far apart
        for k in [0, 1, 2, 3, ids.len() / 3, ids.len() - 1] {
            let k = k.min(ids.len() - 1);
            out.push(Item::V(ids[k], "again".into()));
            out.push(Item::VP(ids[k], "p".into(), J(json!("again"))));
            out.push(Item::VP(ids[k], "q".into(), J(json!(-1))));
        }
        out
    }
}

/// What is there, by the ways of asking that take time in proportion to it.
fn look(s: &mut dyn Store, m: &Model, c: &Amounts, ids: &[Uuid], r: &mut Rand, all: bool, holes: bool, seen: &mut Seen) -> R {
    let bx = Box::new;
    let hub = Q::SpecV(vec![c.hub(ids)]);
    let n = c.n;
    let lim = |r: &mut Rand| *pick(r, &[u32::MAX, n, n - 1, n / 2, n + 1, 65535, 65536, 4096, 10000]);
    let dir = |r: &mut Rand| if r.gen() { Dir::Out } else { Dir::In };
    let val = |r: &mut Rand| pick(r, &[J(json!(1)), J(json!("two")), J(json!("set"))]).clone();
    // where much was deleted, RocksDB walks past the traces of all of it for each element
    let few = |q: Q| match q {
        q if !holes => q,
        Q::AllV => Q::RangeV { limit: 50, t: None, start: None },
        _ => Q::SpecE(m.e.iter().take(50).cloned().collect()),
    };
    let mut qs = vec![Q::Count(bx(Q::AllV)), Q::Count(bx(Q::AllE))];
    let mut more = vec![
        Q::AllV,
        Q::AllE,
        Q::Props { inner: bx(few(Q::AllV)), name: None },
        Q::Props { inner: bx(few(Q::AllE)), name: None },
        Q::Pipe { inner: bx(hub.clone()), dir: Dir::Out, limit: lim(r), t: None },
        Q::Pipe { inner: bx(hub.clone()), dir: Dir::In, limit: lim(r), t: None },
        Q::Pipe { inner: bx(hub), dir: dir(r), limit: lim(r), t: Some(if r.gen() { "x".into() } else { "xy".into() }) },
        Q::Pipe { inner: bx(Q::AllE), dir: dir(r), limit: lim(r), t: if r.gen() { Some("a".into()) } else { None } },
        Q::SpecV(ids.iter().filter(|_| chance(r, 0.9)).copied().collect()),
        Q::SpecE(m.e.iter().filter(|_| chance(r, 0.9)).cloned().collect()),
        Q::RangeV { limit: lim(r), t: None, start: Some(ids[r.gen_range(0..ids.len())]) },
        Q::RangeV { limit: lim(r), t: Some("ab".into()), start: None },
        Q::PVal { inner: bx(Q::AllV), name: "p".into(), value: val(r), equal: r.gen() },
        Q::PProp { inner: bx(Q::AllE), name: "p".into(), exists: r.gen() },
    ];
    if !holes {
        more.push(Q::Pipe { inner: bx(Q::AllV), dir: dir(r), limit: lim(r), t: None });
        more.push(Q::Count(bx(Q::Pipe { inner: bx(Q::AllV), dir: dir(r), limit: u32::MAX, t: None })));
    }
    for name in ["p", "q"] {
        if m.idx.contains(name) {
            more.push(Q::VProp(name.into()));
            more.push(Q::EProp(name.into()));
            more.push(Q::VVal(name.into(), val(r)));
            more.push(Q::EVal(name.into(), val(r)));
            more.push(Q::Count(bx(Q::VProp(name.into()))));
            let k = J(json!(r.gen_range(0..n as u64)));
            more.push(Q::VVal(name.into(), k.clone()));
            more.push(Q::EVal(name.into(), k));
        }
    }
    if !all {
        more.shuffle(r);
        more.truncate(5);
    }
    qs.append(&mut more);
    for q in qs {
        let _ = check_get(s, m, &q, seen)?;
    }
    Ok(())
}

fn huge(s: &mut dyn Store, c: &Amounts, again: bool, seen: &mut Seen) -> R {
    let short = |f: Fail| Fail { kind: f.kind, msg: f.msg.chars().take(1500).collect() };
    history(s, c, again, seen).map_err(short)
}

fn history(s: &mut dyn Store, c: &Amounts, again: bool, seen: &mut Seen) -> R {
    let bx = Box::new;
    let ids = c.ids();
    let mut m = Model::new();
    let r = &mut Rand::seed_from_u64(c.seed ^ 1);
    let items = c.items(&ids);
    let per = if c.how & 8 != 0 { items.len() } else { *pick(r, &[20000, 10000, 3000]) };
    let mut start: Vec<Op> = items.chunks(per).map(|i| Op::Bulk(i.to_vec())).collect();
    // one of them is indexed first, the other when everything is there
    let (before, after) = if c.how & 4 != 0 { ("p", "q") } else { ("q", "p") };
    start.insert(0, Op::Index(before.into()));
    start.push(Op::Index(after.into()));
    for op in &start {
        step(s, &mut m, op, seen)?;
    }
    look(s, &m, c, &ids, r, true, false, seen)?;
    if again && chance(r, 0.6) {
        step(s, &mut m, &Op::Sync, seen)?;
        step(s, &mut m, &Op::Reopen(way(r)), seen)?;
        look(s, &m, c, &ids, r, true, false, seen)?;
    }
    let mut holes = false;
    let hub = Q::SpecV(vec![c.hub(&ids)]);
    let out = if c.how & 2 == 0 { Dir::Out } else { Dir::In };
    for k in 0..c.steps {
        let one = J(json!(1));
        let of_hub = |r: &mut Rand| {
            let limit = *pick(r, &[u32::MAX, c.n / 2, c.n - 1, 5000, 8192]);
            Q::Pipe { inner: bx(hub.clone()), dir: out, limit, t: None }
        };
        let some = |r: &mut Rand| {
            let p = *pick(r, &[0.3, 0.9, 1.0]);
            Q::SpecV(ids.iter().filter(|_| chance(r, p)).copied().collect())
        };
        let name = *pick(r, &["p", "q", "r"]);
        let op = match r.gen_range(0..16) {
            0 => Op::Set(Q::AllV, name.into(), J(json!("set"))),
            1 => Op::Set(Q::AllE, name.into(), J(json!("set"))),
            2 => Op::Set(of_hub(r), name.into(), J(json!([name]))),
            3 => Op::Set(some(r), name.into(), J(json!("set"))),
            4 if !holes => Op::Delete(Q::Props { inner: bx(Q::AllV), name: if r.gen() { Some(name.into()) } else { None } }),
            5 => Op::Delete(Q::Props { inner: bx(of_hub(r)), name: if r.gen() { Some(name.into()) } else { None } }),
            6 => Op::Delete(Q::VVal("p".into(), one)),
            7 => Op::Delete(Q::EVal("p".into(), one)),
            8 => Op::Delete(of_hub(r)),
            9 => Op::Delete(hub.clone()),
            10 => Op::Delete(some(r)),
            11 => Op::Delete(if r.gen() { Q::AllE } else { Q::AllV }),
            12 => Op::Delete(Q::VProp("q".into())),
            13 => Op::Index("r".into()),
            14 if again => Op::Reopen(way(r)),
            _ => Op::Bulk(c.items(&ids)),
        };
        // RocksDB: see `look`. The memory datastore goes through all edges for each vertex it deletes.
        let many = matches!(&op, Op::Delete(Q::AllV | Q::SpecV(_) | Q::VVal(..) | Q::VProp(_))) && !matches!(&op, Op::Delete(Q::SpecV(v)) if v.len() == 1);
        if many && if s.name() == "rocksdb" { holes } else { m.v.len() * m.e.len() > 500_000_000 } {
            continue;
        }
        match &op {
            Op::Delete(_) => holes = s.name() == "rocksdb",
            Op::Bulk(_) => holes = false,
            _ => {}
        }
        let brief: String = format!("{op:?}").chars().take(120).collect();
        let at = |f: Fail| Fail { kind: f.kind, msg: format!("at step {k} ({brief}): {}", f.msg) };
        if let (Op::Reopen(_), true) = (&op, again) {
            step(s, &mut m, &Op::Sync, seen).map_err(at)?;
        }
        step(s, &mut m, &op, seen).map_err(at)?;
        look(s, &m, c, &ids, r, k + 1 == c.steps, holes, seen).map_err(at)?;
    }
    if again {
        step(s, &mut m, &Op::Sync, seen)?;
        step(s, &mut m, &Op::Reopen(way(r)), seen)?;
        look(s, &m, c, &ids, r, true, holes, seen)?;
    }
    seen.tag("huge");
    for (at, l) in [(8192, "over-8192"), (16384, "over-16384"), (65536, "over-65536")] {
        if c.n > at {
            seen.tag(l);
        }
    }
    Ok(())
}

pub struct Huge {
    pub at: At,
    pub max: u32,
}

impl Part for Huge {
    type Case = Amounts;
    fn name(&self) -> &'static str {
        match self.at {
            At::Mem => "memory-huge",
            At::Rdb => "rocksdb-huge",
            At::Image => "image-huge",
            At::Net(Kind::Mem) => "net-memory-huge",
            At::Net(Kind::Rdb) => "net-rocksdb-huge",
        }
    }
    fn gen(&self, r: &mut Rand, i: usize) -> Amounts {
        // the first cases are not the largest: there may be few, and RocksDB takes its time
        let (min, max) = match (i % 4, self.at) {
            (3, At::Rdb) if i < 4 => (30000, 35000),
            (3, _) => (65000, self.max),
            _ => (0, 25000),
        };
        Amounts { seed: r.gen(), n: amount(r, min, max.min(self.max)), steps: r.gen_range(1..5), how: r.gen() }
    }
    fn run(&self, c: &Amounts, seen: &mut Seen) -> R {
        match self.at {
            At::Mem => huge(new_store(Kind::Mem).as_mut(), c, false, seen),
            At::Rdb => huge(new_store(Kind::Rdb).as_mut(), c, true, seen),
            At::Image => {
                let mut s = Saved::new();
                huge(&mut s, c, true, seen)
            }
            At::Net(k) => match &mut remote(k, 0, 1) {
                Any::Mem(s) => net(s, c, seen),
                Any::Rdb(s) => net(s, c, seen),
            },
        }
    }
    fn nontrivial(&self, c: &Amounts, seen: &Seen) -> bool {
        seen.has("huge") && c.n > 5000
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 100)
    }
}

fn net<D: indradb::Datastore + Send + Sync + 'static>(s: &mut super::remote::Remote<D>, c: &Amounts, seen: &mut Seen) -> R {
    huge(s, c, false, seen)?;
    match s.diff.take() {
        Some(d) => fail("differs", d.chars().take(1500).collect::<String>()),
        None => Ok(()),
    }
}
