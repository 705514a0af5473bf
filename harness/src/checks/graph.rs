//! C01–C09: histories of operations against the reference model, and against each other.
use crate::driver::*;
use crate::ensure;
use crate::gen::{self, chance, Mix, Rand, World};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use super::huge::Huge;
use super::long::Long;
use super::wide::{At, Wide};
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeSet;
use uuid::Uuid;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Mem,
    Rdb,
}

pub fn new_store(k: Kind) -> Box<dyn Store> {
    match k {
        Kind::Mem => Box::new(Mem::new()),
        Kind::Rdb => Box::new(Rdb::new()),
    }
}

/// A history run against one store and the model.
pub struct Hist {
    pub name: &'static str,
    pub kind: Kind,
    pub mix: Mix,
    pub ids: (usize, usize),
    pub ops: (usize, usize),
    pub depth: Depth,
    pub rule: fn(&Seen) -> bool,
}

impl Part for Hist {
    type Case = Vec<Op>;
    fn name(&self) -> &'static str {
        self.name
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Vec<Op> {
        let ids = r.gen_range(self.ids.0..=self.ids.1);
        let n = r.gen_range(self.ops.0..=self.ops.1);
        world_history(r, &self.mix, ids, n)
    }
    fn run(&self, c: &Vec<Op>, seen: &mut Seen) -> R {
        let mut s = new_store(self.kind);
        run(s.as_mut(), c, self.depth, seen).map(|_| ())
    }
    fn nontrivial(&self, _c: &Vec<Op>, seen: &Seen) -> bool {
        (self.rule)(seen)
    }
}

// ---- queries made with the public constructors ----

/// Queries built by the constructors and extension methods equal the ones built by hand, and are refused
/// exactly if they do not compose.
pub struct Built;

fn composes(q: &Q) -> bool {
    let c = unroll(q);
    let mut t = leaf_ty(&c.leaf);
    for (s, _) in &c.stages {
        match stage_ty(t, s) {
            Some(x) => t = x,
            None => return false,
        }
    }
    true
}

impl Part for Built {
    type Case = (Vec<Op>, Vec<Q>);
    fn name(&self) -> &'static str {
        "constructors"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Self::Case {
        let w = gen::world(r, 5);
        let h = gen::history(r, &w, &Mix { index: 3, ..Mix::BASE }, 15);
        let mut m = Model::new();
        h.iter().for_each(|o| gen::guess(&mut m, o));
        let qs = (0..10).map(|_| gen::query(r, &w, &m, 4, true)).collect();
        (h, qs)
    }
    fn run(&self, (h, qs): &Self::Case, seen: &mut Seen) -> R {
        let mut s = Mem::new();
        let m = run(&mut s, h, Depth { every: false, txn: false }, seen)?;
        for q in qs {
            let ok = composes(q);
            for (how, b) in [("constructors", built_query(q)), ("extension methods", ext_query(q))] {
                match b {
                    Ok(b) => {
                        ensure!(ok, "constructed-bad", "the {how} accept {q:?}, which does not compose");
                        ensure!(b == query(q), "constructed-other", "the {how} make {b:?} of {q:?}");
                    }
                    Err(e) => ensure!(!ok, "constructed-refused", "the {how} refuse {q:?}: {e}"),
                }
            }
            seen.tag(if ok { "composes" } else { "refused" });
            let _ = check_get(&mut s, &m, q, seen)?;
            if let Out::Outs(mut outs) = s.apply(&Op::Get(q.clone())) {
                if let Err(e) = check_extractors(&outs) {
                    return fail("extracted", e);
                }
                // no outputs, and all but the last
                while outs.pop().is_some() {
                    if let Err(e) = check_extractors(&outs) {
                        return fail("extracted", e);
                    }
                }
            }
            if let Q::Pipe { t: Some(t), .. } = q {
                for s in [t.as_str(), "outbound", "inbound", "Outbound", "outbounds", "inboun", " inbound"] {
                    if let Err(e) = check_directions(s) {
                        return fail("direction", e);
                    }
                }
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Self::Case, seen: &Seen) -> bool {
        seen.has("composes") && seen.has("nonempty-result") && seen.queries > 3
    }
}

// ---- large graphs ----

/// A larger random graph, put in by bulk insertion, with a few queries and deletions.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigCase {
    seed: u64,
    n: usize,
    m: usize,
    shape: u8,
    ops: usize,
}

pub struct Big {
    pub kind: Kind,
    pub max: usize,
}

impl BigCase {
    pub fn new(seed: u64, n: usize, m: usize, shape: u8, ops: usize) -> BigCase {
        BigCase { seed, n, m, shape, ops }
    }
    fn ids(&self) -> Vec<Uuid> {
        let mut r = Rand::seed_from_u64(self.seed);
        (0..self.n).map(|k| if self.shape % 2 == 0 { Uuid::from_u128(k as u128 + 250) } else { Uuid::from_u128(r.gen()) }).collect()
    }
    pub fn build(&self) -> (Vec<Item>, Vec<Uuid>) {
        let mut r = Rand::seed_from_u64(self.seed ^ 1);
        let ids = self.ids();
        let mut items: Vec<Item> = ids.iter().map(|id| Item::V(*id, (*gen::pick(&mut r, &["a", "ab", "person"])).into())).collect();
        if ids.is_empty() {
            return (items, ids);
        }
        for k in 0..self.m {
            let (o, i) = match self.shape % 4 {
                0 => (ids[0], ids[k % self.n]),
                1 => (ids[k % self.n], ids[0]),
                2 => (ids[k % self.n], ids[(k + 1) % self.n]),
                _ => (*gen::pick(&mut r, &ids), *gen::pick(&mut r, &ids)),
            };
            let e = E { o, t: (*gen::pick(&mut r, &["x", "xy", "likes"])).into(), i };
            items.push(Item::E(e.clone()));
            if k % 3 == 0 {
                items.push(Item::EP(e, "w".into(), J(json!(k % 7))));
            }
        }
        for (k, id) in ids.iter().enumerate() {
            if k % 2 == 0 {
                items.push(Item::VP(*id, "p".into(), J(json!(k % 5))));
            }
        }
        (items, ids)
    }
}

impl Part for Big {
    type Case = BigCase;
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Mem => "memory-large",
            Kind::Rdb => "rocksdb-large",
        }
    }
    fn gen(&self, r: &mut Rand, i: usize) -> BigCase {
        let n = if i % 2 == 0 { r.gen_range(2..200) } else { r.gen_range(200..self.max) };
        BigCase { seed: r.gen(), n, m: r.gen_range(n / 2..n * 2 + 2), shape: r.gen(), ops: r.gen_range(6..14) }
    }
    fn run(&self, c: &BigCase, seen: &mut Seen) -> R {
        let mut s = new_store(self.kind);
        let s = s.as_mut();
        let mut r = Rand::seed_from_u64(c.seed ^ 2);
        let (items, ids) = c.build();
        let mut m = Model::new();
        if c.shape & 4 != 0 {
            step(s, &mut m, &Op::Index("p".into()), seen)?;
            step(s, &mut m, &Op::Index("w".into()), seen)?;
        }
        let per = *gen::pick(&mut r, &[1000000, 100, 17]);
        for ch in items.chunks(per) {
            step(s, &mut m, &Op::Bulk(ch.to_vec()), seen)?;
        }
        if c.shape & 4 == 0 {
            step(s, &mut m, &Op::Index("p".into()), seen)?;
            step(s, &mut m, &Op::Index("w".into()), seen)?;
        }
        let w = World {
            ids,
            vts: vec!["a".into(), "ab".into()],
            ets: vec!["x".into(), "xy".into()],
            names: vec!["p".into(), "w".into()],
            vals: (0..7).map(|k| J(json!(k))).collect(),
        };
        for k in 0..c.ops {
            let op = if chance(&mut r, 0.7) {
                Op::Get(gen::query(&mut r, &w, &m, 4, false))
            } else {
                gen::op(&mut r, &w, &m, &Mix { cv: 1, ce: 1, set: 3, del: 3, index: 0, sync: 1, ..Mix::BASE })
            };
            if let Op::Get(q) | Op::Set(q, ..) | Op::Delete(q) = &op {
                // a vertex is deleted, with its edges, as often as it is listed
                let both = |d| unroll(&Q::Pipe { inner: Box::new(q.clone()), dir: d, limit: u32::MAX, t: None });
                let del = matches!(op, Op::Delete(_)) && m.cost(&both(Dir::Out)).max(m.cost(&both(Dir::In))) > 100_000;
                if del || m.cost(&unroll(q)) > 200_000 {
                    continue;
                }
            }
            step(s, &mut m, &op, seen).map_err(|f| Fail { kind: f.kind, msg: format!("at operation {k}: {}", f.msg) })?;
        }
        check_all(s, &m, &[], &[])?;
        if c.n >= 64 {
            seen.tag("large");
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &BigCase, seen: &Seen) -> bool {
        seen.has("large") && seen.has("nonempty-result")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (40, 300)
    }
}

// ---- paging, limits and counts ----

/// Walks all vertices page by page, and relates limited, counted and unlimited queries to each other.
pub struct Paging {
    pub kind: Kind,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PageCase {
    ops: Vec<Op>,
    page: u32,
    t: Option<String>,
    queries: Vec<Q>,
    limits: Vec<u32>,
}

impl Part for Paging {
    type Case = PageCase;
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Mem => "memory-paging",
            Kind::Rdb => "rocksdb-paging",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> PageCase {
        let n = r.gen_range(3..12);
        let w = gen::world(r, n);
        let ops = gen::history(r, &w, &Mix { cv: 10, ce: 10, index: 2, ..Mix::BASE }, 30);
        let mut m = Model::new();
        ops.iter().for_each(|o| gen::guess(&mut m, o));
        let queries = (0..6).map(|_| gen::query(r, &w, &m, 3, false)).collect();
        PageCase {
            ops,
            page: *gen::pick(r, &[1, 1, 2, 3, 5, 100]),
            t: if chance(r, 0.3) { Some(w.vt(r)) } else { None },
            queries,
            limits: vec![0, 1, 2, r.gen_range(0..12), u32::MAX - 1],
        }
    }
    fn run(&self, c: &PageCase, seen: &mut Seen) -> R {
        let mut s = new_store(self.kind);
        let s = s.as_mut();
        let m = run(s, &c.ops, Depth { every: false, txn: false }, seen)?;
        let want = m.leaf(&Q::RangeV { limit: u32::MAX, t: c.t.clone(), start: None });
        let mut got: Vec<V> = vec![];
        let mut start = None;
        let mut pages = 0;
        let page = c.page.max(1);
        loop {
            let q = Q::RangeV { limit: page, t: c.t.clone(), start };
            let o = match get_ok(s, &q)?.pop() {
                Some(O::V(v)) => v,
                o => return fail("paging", format!("{q:?} gave {o:?}")),
            };
            ensure!(o.len() <= page as usize, "paging", "{q:?} gave {} vertices", o.len());
            let last = o.last().map(|v| v.0);
            let full = o.len() == page as usize;
            got.extend(o);
            pages += 1;
            ensure!(pages <= 5000, "paging", "paging by {page} does not end");
            match last {
                Some(l) if full => match indradb::util::next_uuid(l) {
                    Ok(n) => start = Some(n),
                    Err(_) => {
                        ensure!(l.as_u128() == u128::MAX, "next-uuid", "no successor for {l}");
                        break;
                    }
                },
                _ => break,
            }
        }
        if pages > 2 {
            seen.tag("pages");
        }
        ensure!(O::V(got.clone()) == want, "paging", "paging by {page} over type {:?} gave {got:?}, expected {want:?}", c.t);
        for q in &c.queries {
            let _ = check_get(s, &m, q, seen)?;
            let q = &gen::determined(q);
            let Ok(full) = check_get(s, &m, q, seen)? else { continue };
            if !matches!(full, O::N(_)) {
                let cq = Q::Count(Box::new(q.clone()));
                let n = get_ok(s, &cq)?.pop();
                ensure!(n == Some(O::N(full.len())), "count", "{cq:?} gave {n:?}, but {q:?} returns {} values", full.len());
                seen.tag("counted");
            }
            // the last stage with a limit gives a prefix of what it gives without
            let mut ch = unroll(q);
            if is_index_leaf(&ch.leaf) {
                continue;
            }
            if let Some((Stage::Pipe { limit, .. }, _)) = ch.stages.last_mut() {
                *limit = u32::MAX;
                let all = get_ok(s, &roll(&ch))?.pop().unwrap();
                for l in &c.limits {
                    if let Some((Stage::Pipe { limit, .. }, _)) = ch.stages.last_mut() {
                        *limit = *l;
                    }
                    let lq = roll(&ch);
                    let part = get_ok(s, &lq)?.pop().unwrap();
                    let k = (*l as usize).min(all.len() as usize);
                    let want = match &all {
                        O::V(v) => O::V(v[..k].to_vec()),
                        O::E(v) => O::E(v[..k].to_vec()),
                        _ => unreachable!(),
                    };
                    ensure!(part == want, "limit-prefix", "{lq:?} gave {part:?}, but without the limit the result is {all:?}");
                    if k > 0 && (k as u64) < all.len() {
                        seen.tag("limit-cuts");
                    }
                }
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &PageCase, seen: &Seen) -> bool {
        seen.has("pages") && seen.has("counted")
    }
}

// ---- both datastores in lockstep ----

pub struct Lockstep {
    pub mix: Mix,
    pub name: &'static str,
}

fn sorted(o: Out) -> Out {
    match o {
        Out::Outs(v) => Out::Outs(v.iter().map(|o| o.sorted()).collect()),
        o => o,
    }
}

impl Part for Lockstep {
    type Case = Vec<Op>;
    fn name(&self) -> &'static str {
        self.name
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Vec<Op> {
        let (i, n) = (r.gen_range(3..8), r.gen_range(10..50));
        world_history(r, &self.mix, i, n)
    }
    fn run(&self, c: &Vec<Op>, seen: &mut Seen) -> R {
        let (mut a, mut b) = (Mem::new(), Rdb::new());
        // the model only says which requests have one determined answer
        let mut m = Model::new();
        let x = mentions(c);
        for (k, op) in c.iter().enumerate() {
            let mut op = op.clone();
            let (mut exact, mut ordered) = (true, true);
            match &mut op {
                Op::Set(q, ..) | Op::Delete(q) => {
                    let ch = unroll(q);
                    if m.classify(&ch).is_ok() && !m.eval(&ch).2 {
                        seen.tag("skipped");
                        continue;
                    }
                }
                Op::Get(q) => {
                    let ch = unroll(q);
                    if m.classify(&ch).is_ok() {
                        let e = m.eval(&ch);
                        exact = e.2;
                        ordered = false;
                        if e.0.last().unwrap().len() > 0 {
                            seen.tag("nonempty-result");
                        }
                    }
                    seen.queries += 1;
                }
                Op::Bulk(items) => *items = m.sanitise(items),
                Op::CreateVT(_) => continue,
                _ => {}
            }
            let (mut oa, mut ob) = (a.apply(&op), b.apply(&op));
            for (o, n) in [(&oa, "memory"), (&ob, "rocksdb")] {
                if let Out::Panic(p) = o {
                    return fail("panic", format!("at operation {k}: {op:?} panicked on {n}: {p}"));
                }
            }
            let same = if !exact {
                match (&oa, &ob) {
                    (Out::Outs(x), Out::Outs(y)) => x.len() == y.len(),
                    _ => oa.same(&ob),
                }
            } else {
                if !ordered {
                    oa = sorted(oa);
                    ob = sorted(ob);
                }
                oa.same(&ob)
            };
            ensure!(same, "differ", "at operation {k}: {op:?}\n  memory:  {oa:?}\n  rocksdb: {ob:?}");
            if let Out::Err(..) = oa {
                seen.tag("both-refuse");
            }
            if !matches!(op, Op::Get(_)) {
                seen.writes += 1;
                match &op {
                    Op::Delete(_) => seen.tag("delete"),
                    Op::Sync => seen.tag("sync"),
                    Op::Bulk(_) => seen.tag("bulk"),
                    _ => {}
                }
                gen::guess(&mut m, &op);
            }
            if matches!(op, Op::Delete(_) | Op::Bulk(_) | Op::Set(..)) || k + 1 == c.len() {
                compare(&mut a, &mut b, &m, &x).map_err(|f| Fail { kind: f.kind, msg: format!("after operation {k} ({op:?}): {}", f.msg) })?;
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Vec<Op>, seen: &Seen) -> bool {
        seen.has("nonempty-result") && seen.has("delete") && seen.writes >= 8
    }
}

/// Compares the observable content of two stores directly.
pub fn compare(a: &mut dyn Store, b: &mut dyn Store, m: &Model, x: &Mentions) -> R {
    let bx = Box::new;
    let mut qs = vec![Q::AllV, Q::AllE, Q::Count(bx(Q::AllV)), Q::Count(bx(Q::AllE))];
    qs.push(Q::Props { inner: bx(Q::AllV), name: None });
    qs.push(Q::Props { inner: bx(Q::AllE), name: None });
    for dir in [Dir::Out, Dir::In] {
        qs.push(Q::Pipe { inner: bx(Q::AllV), dir, limit: u32::MAX, t: None });
    }
    for n in x.names.iter().take(6) {
        qs.push(Q::VProp(n.clone()));
        qs.push(Q::EProp(n.clone()));
        qs.push(Q::Props { inner: bx(Q::AllV), name: Some(n.clone()) });
        if m.idx.contains(n) {
            for v in x.vals.iter().take(10) {
                qs.push(Q::VVal(n.clone(), v.clone()));
                qs.push(Q::EVal(n.clone(), v.clone()));
            }
        }
    }
    for q in qs {
        let op = Op::Get(q);
        let (oa, ob) = (sorted(a.apply(&op)), sorted(b.apply(&op)));
        for (o, n) in [(&oa, a.name()), (&ob, b.name())] {
            if let Out::Panic(p) = o {
                return fail("panic", format!("{op:?} panicked on {n}: {p}"));
            }
        }
        ensure!(oa.same(&ob), "content-differs", "{op:?}\n  {}: {oa:?}\n  {}: {ob:?}", a.name(), b.name());
    }
    Ok(())
}

// ---- bad requests ----

/// Histories in which anything goes, including bulk items that refer to missing elements. What those leave
/// behind is not specified, so only panics and refusals are judged, and that the database still works.
pub struct Wild {
    pub kind: Kind,
}

impl Part for Wild {
    type Case = Vec<Op>;
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Mem => "memory-wild",
            Kind::Rdb => "rocksdb-wild",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Vec<Op> {
        let mix = Mix { wild: true, get: 8, index: 2, bulk: 5, dangling: 0.6, cvt: 1, sync: 1, reopen: if self.kind == Kind::Rdb { 1 } else { 0 }, ..Mix::BASE };
        let (i, n) = (r.gen_range(3..7), r.gen_range(10..50));
        world_history(r, &mix, i, n)
    }
    fn run(&self, c: &Vec<Op>, seen: &mut Seen) -> R {
        let mut s = new_store(self.kind);
        let s = s.as_mut();
        let mut m = Model::new();
        let x = mentions(c);
        for (k, op) in c.iter().enumerate() {
            let want = match op {
                Op::Get(q) => m.classify(&unroll(q)).err(),
                Op::Set(q, ..) => match m.classify(&unroll(q)) {
                    Ok(Ty::V | Ty::E) => None,
                    Ok(_) => Some(EK::OpOnQuery),
                    Err(e) => Some(e),
                },
                Op::Delete(q) => match m.classify(&unroll(q)) {
                    Ok(Ty::N) => Some(EK::OpOnQuery),
                    Ok(_) => None,
                    Err(e) => Some(e),
                },
                _ => None,
            };
            if let Op::Bulk(items) = op {
                if items.iter().any(|i| !m.item_ok(i)) {
                    seen.tag("dangling");
                }
            }
            // a refused request must leave everything as it was
            let before = if want.is_some() { Some(snapshot(s, &m, &x)?) } else { None };
            let got = s.apply(op);
            match (&got, want) {
                (Out::Panic(p), _) => return fail("panic", format!("[{}] at operation {k}: {op:?} panicked: {p}", s.name())),
                (Out::Err(e, _), Some(w)) if *e == w => seen.tag("refused"),
                (Out::Err(e, t), None) => return fail("refused", format!("[{}] at operation {k}: {op:?} failed: {e:?} {t}", s.name())),
                (got, Some(w)) => return fail("not-refused", format!("[{}] at operation {k}: {op:?} gave {got:?}, expected {w:?}", s.name())),
                _ => {}
            }
            if let Some(b) = before {
                let a = snapshot(s, &m, &x)?;
                ensure!(a == b, "refused-changed", "[{}] at operation {k}: the refused {op:?} changed the content from\n  {b:?}\nto\n  {a:?}", s.name());
            }
            if let Op::Get(_) = op {
                seen.queries += 1;
            } else {
                seen.writes += 1;
            }
            // guides the rest of the run; only the set of indexed properties is relied upon
            gen::guess(&mut m, op);
        }
        if let Err(f) = snapshot(s, &m, &x) {
            return Err(f);
        }
        healthy(s, &m, &x)
    }
    fn nontrivial(&self, _c: &Vec<Op>, seen: &Seen) -> bool {
        seen.has("dangling") || seen.has("refused")
    }
}

/// Everything that can be seen through queries, whatever it is.
fn snapshot(s: &mut dyn Store, m: &Model, x: &Mentions) -> R<Vec<Vec<O>>> {
    let bx = Box::new;
    let mut qs = vec![
        Q::AllV,
        Q::AllE,
        Q::Count(bx(Q::AllV)),
        Q::Count(bx(Q::AllE)),
        Q::SpecV(x.ids.iter().copied().collect()),
        Q::SpecE(x.edges.iter().cloned().collect()),
        Q::Props { inner: bx(Q::AllV), name: None },
        Q::Props { inner: bx(Q::AllE), name: None },
        Q::Props { inner: bx(Q::SpecE(x.edges.iter().cloned().collect())), name: None },
        Q::Pipe { inner: bx(Q::AllE), dir: Dir::Out, limit: u32::MAX, t: None },
        Q::Pipe { inner: bx(Q::AllV), dir: Dir::In, limit: u32::MAX, t: None },
    ];
    for n in &m.idx {
        qs.push(Q::VProp(n.clone()));
        qs.push(Q::EProp(n.clone()));
        for v in x.vals.iter().take(4) {
            qs.push(Q::VVal(n.clone(), v.clone()));
            qs.push(Q::EVal(n.clone(), v.clone()));
        }
    }
    qs.iter().map(|q| get_ok(s, q).map(|o| o.iter().map(|o| o.sorted()).collect())).collect()
}

/// Valid operations on fresh elements work as they should.
pub fn healthy(s: &mut dyn Store, m: &Model, x: &Mentions) -> R {
    let mut fresh = (1u128..).map(|k| Uuid::from_u128(k << 64 | 0x5eed)).filter(|i| !x.ids.contains(i) && !m.v.contains_key(i));
    let (a, b) = (fresh.next().unwrap(), fresh.next().unwrap());
    let e = E { o: a, t: "health".into(), i: b };
    let mut n = "health".to_string();
    while x.names.contains(&n) {
        n.push('x');
    }
    let val = J(json!({"ok": [1, "two"]}));
    let name = s.name();
    let mut mm = Model::new();
    let mut seen = Seen::default();
    let ctx = |f: Fail| Fail { kind: format!("unhealthy-{}", f.kind), msg: format!("[{name}] afterwards, on fresh elements: {}", f.msg) };
    for op in [
        Op::Index(n.clone()),
        Op::CreateV(a, "t".into()),
        Op::CreateV(b, "u".into()),
        Op::CreateV(a, "u".into()),
        Op::CreateE(e.clone()),
        Op::Set(Q::SpecV(vec![a]), n.clone(), val.clone()),
        Op::Set(Q::SpecE(vec![e.clone()]), n.clone(), val.clone()),
        Op::Get(Q::Props { inner: Box::new(Q::SpecV(vec![a, b])), name: None }),
        Op::Get(Q::Pipe { inner: Box::new(Q::SpecV(vec![a])), dir: Dir::Out, limit: u32::MAX, t: None }),
        Op::Get(Q::Pipe { inner: Box::new(Q::SpecV(vec![b])), dir: Dir::In, limit: u32::MAX, t: None }),
        Op::Get(Q::VVal(n.clone(), val.clone())),
        Op::Get(Q::EVal(n.clone(), val.clone())),
        Op::Delete(Q::SpecV(vec![a])),
        Op::Get(Q::SpecV(vec![a, b])),
        Op::Get(Q::SpecE(vec![e])),
        Op::Get(Q::VVal(n.clone(), val.clone())),
        Op::Get(Q::EVal(n.clone(), val.clone())),
        Op::Delete(Q::SpecV(vec![b])),
    ] {
        step(s, &mut mm, &op, &mut seen).map_err(ctx)?;
    }
    Ok(())
}

// ---- bulk insertion ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BulkCase {
    ops: Vec<Op>,
    items: Vec<Item>,
    /// lengths of the batches
    cuts: Vec<usize>,
}

pub struct Twin {
    pub kind: Kind,
}

fn single(i: &Item) -> Op {
    match i {
        Item::V(id, t) => Op::CreateV(*id, t.clone()),
        Item::E(e) => Op::CreateE(e.clone()),
        Item::VP(id, n, j) => Op::Set(Q::SpecV(vec![*id]), n.clone(), j.clone()),
        Item::EP(e, n, j) => Op::Set(Q::SpecE(vec![e.clone()]), n.clone(), j.clone()),
    }
}

impl Part for Twin {
    type Case = BulkCase;
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Mem => "memory-twin",
            Kind::Rdb => "rocksdb-twin",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> BulkCase {
        let n = r.gen_range(2..6);
        let w = gen::world(r, n);
        let k = r.gen_range(0..12);
        let ops = gen::history(r, &w, &Mix { index: 4, bulk: 1, ..Mix::BASE }, k);
        let mut m = Model::new();
        ops.iter().for_each(|o| gen::guess(&mut m, o));
        let k = r.gen_range(1..40);
        let items = gen::items(r, &w, &m, k, 0.0);
        let cuts = if chance(r, 0.5) { vec![] } else { (0..6).map(|_| r.gen_range(0..8)).collect() };
        BulkCase { ops, items, cuts }
    }
    fn run(&self, c: &BulkCase, seen: &mut Seen) -> R {
        let none = Depth { every: false, txn: false };
        let (mut a, mut b) = (new_store(self.kind), new_store(self.kind));
        let mut m = run(a.as_mut(), &c.ops, none, seen)?;
        run(b.as_mut(), &c.ops, none, &mut Seen::default())?;
        let items = m.sanitise(&c.items);
        let mut x = mentions(&c.ops);
        let y = mentions(&[Op::Bulk(items.clone())]);
        x.ids.extend(y.ids);
        x.edges.extend(y.edges);
        x.names.extend(y.names);
        x.vals.extend(y.vals);
        // labels
        let mut keys: BTreeSet<String> = BTreeSet::new();
        for i in &items {
            let k = match i {
                Item::V(id, _) => format!("{id}"),
                Item::E(e) => format!("{e:?}"),
                Item::VP(id, n, _) => {
                    if m.idx.contains(n) {
                        seen.tag("bulk-indexed");
                    }
                    format!("{id} {n}")
                }
                Item::EP(e, n, _) => {
                    if m.idx.contains(n) {
                        seen.tag("bulk-indexed");
                    }
                    format!("{e:?} {n}")
                }
            };
            if !keys.insert(k) {
                seen.tag("bulk-repeats");
            }
        }
        let mut rest = &items[..];
        let mut cuts = c.cuts.iter();
        while !rest.is_empty() {
            let n = cuts.next().copied().unwrap_or(rest.len()).min(rest.len());
            let (now, r) = rest.split_at(n);
            rest = r;
            let o = a.apply(&Op::Bulk(now.to_vec()));
            ensure!(matches!(o, Out::Unit), "bulk", "[{}] bulk insertion of {now:?} gave {o:?}", a.name());
        }
        for i in &items {
            let o = b.apply(&single(i));
            ensure!(matches!(o, Out::Unit | Out::Bool(_)), "single", "[{}] {:?} gave {o:?}", b.name(), single(i));
            m.apply_item(i);
        }
        let names: Vec<String> = x.names.iter().cloned().collect();
        let vals: Vec<J> = x.vals.iter().cloned().collect();
        check_all(a.as_mut(), &m, &names, &vals).map_err(|f| Fail { kind: format!("bulk-{}", f.kind), msg: format!("after the bulk insertion: {}", f.msg) })?;
        a.txn_probe(&m, &x)?;
        check_all(b.as_mut(), &m, &names, &vals).map_err(|f| Fail { kind: format!("single-{}", f.kind), msg: format!("after inserting one by one: {}", f.msg) })?;
        compare(a.as_mut(), b.as_mut(), &m, &x)?;
        seen.writes += items.len() as u64;
        // and what was inserted in bulk can be overwritten and deleted like anything else
        let v = J(json!("later"));
        for n in &names {
            step(a.as_mut(), &mut m, &Op::Set(Q::AllV, n.clone(), v.clone()), seen)?;
            step(a.as_mut(), &mut m, &Op::Set(Q::AllE, n.clone(), v.clone()), seen)?;
        }
        check_all(a.as_mut(), &m, &names, &vals)?;
        step(a.as_mut(), &mut m, &Op::Delete(Q::AllV), seen)?;
        check_all(a.as_mut(), &m, &names, &vals)
    }
    fn nontrivial(&self, _c: &BulkCase, seen: &Seen) -> bool {
        seen.has("bulk-repeats") && seen.has("bulk-indexed")
    }
}

/// Bulk insertions with items that refer to vertices that do not exist: what those items leave behind is not
/// specified, but all others are inserted as ever.
pub struct Ghosts {
    pub kind: Kind,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GhostCase {
    ops: Vec<Op>,
    items: Vec<Item>,
    ghosts: Vec<(usize, Item)>,
}

impl Part for Ghosts {
    type Case = GhostCase;
    fn name(&self) -> &'static str {
        match self.kind {
            Kind::Mem => "memory-dangling",
            Kind::Rdb => "rocksdb-dangling",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> GhostCase {
        let n = r.gen_range(2..6);
        let w = gen::world(r, n);
        let k = r.gen_range(0..10);
        let ops = gen::history(r, &w, &Mix { index: 4, bulk: 1, cvt: 0, ..Mix::BASE }, k);
        let mut m = Model::new();
        ops.iter().for_each(|o| gen::guess(&mut m, o));
        let k = r.gen_range(1..25);
        let items = gen::items(r, &w, &m, k, 0.0);
        let ghosts = (0..r.gen_range(1..5))
            .map(|_| {
                // ids next to the others' as well as far from them
                let near = w.id(r).as_u128();
                let g = Uuid::from_u128(match r.gen_range(0..3) {
                    0 => near.wrapping_add(1),
                    1 => near.wrapping_sub(1),
                    _ => r.gen(),
                });
                let e = match r.gen_range(0..3) {
                    0 => E { o: g, t: w.et(r), i: w.id(r) },
                    1 => E { o: w.id(r), t: w.et(r), i: g },
                    _ => E { o: g, t: w.et(r), i: g },
                };
                let item = match r.gen_range(0..4) {
                    0 | 1 => Item::E(e),
                    2 => Item::VP(g, w.nm(r), w.val(r)),
                    _ => Item::EP(e, w.nm(r), w.val(r)),
                };
                (r.gen_range(0..=items.len()), item)
            })
            .collect();
        GhostCase { ops, items, ghosts }
    }
    fn run(&self, c: &GhostCase, seen: &mut Seen) -> R {
        let mut s = new_store(self.kind);
        let mut m = run(s.as_mut(), &c.ops, Depth { every: false, txn: false }, seen)?;
        let mut items: Vec<Item> = vec![];
        for i in m.sanitise(&c.items) {
            items.push(i);
        }
        let mut all = c.ops.clone();
        all.push(Op::Bulk(items.clone()));
        let x = mentions(&all);
        let known = |id: &Uuid| x.ids.contains(id) || x.edges.iter().any(|e| e.o == *id || e.i == *id);
        let mut with = items.clone();
        for (at, g) in &c.ghosts {
            let ghost = match g {
                Item::V(..) => false,
                Item::VP(id, ..) => !known(id),
                Item::E(e) | Item::EP(e, ..) => !known(&e.o) || !known(&e.i),
            };
            if ghost {
                with.insert((*at).min(with.len()), g.clone());
                seen.tag("dangling");
            }
        }
        let o = s.apply(&Op::Bulk(with.clone()));
        ensure!(matches!(o, Out::Unit), "bulk", "[{}] bulk insertion of {with:?} gave {o:?}", s.name());
        items.iter().for_each(|i| m.apply_item(i));
        seen.writes += with.len() as u64;
        if items.len() > 2 {
            seen.tag("others");
        }
        let live = |o: &O| -> O {
            let e = |e: &E| known(&e.o) && known(&e.i);
            match o {
                O::V(v) => O::V(v.iter().filter(|v| known(&v.0)).cloned().collect()),
                O::VP(v) => O::VP(v.iter().filter(|v| known(&v.0 .0)).cloned().collect()),
                O::E(es) => O::E(es.iter().filter(|x| e(x)).cloned().collect()),
                O::EP(es) => O::EP(es.iter().filter(|x| e(&x.0)).cloned().collect()),
                O::N(n) => O::N(*n),
            }
            .sorted()
        };
        let props = |q: Q| Q::Props { inner: Box::new(q), name: None };
        let ids: Vec<Uuid> = x.ids.iter().copied().collect();
        let edges: Vec<E> = x.edges.iter().cloned().collect();
        let mut qs = vec![Q::AllV, Q::Count(Box::new(Q::AllV)), Q::AllE, Q::SpecV(ids.clone()), props(Q::SpecV(ids.clone())), Q::SpecE(edges.clone()), props(Q::SpecE(edges)), props(Q::AllV), props(Q::AllE)];
        for dir in [Dir::Out, Dir::In] {
            qs.push(Q::Pipe { inner: Box::new(Q::SpecV(ids.clone())), dir, limit: u32::MAX, t: None });
        }
        for n in &m.idx {
            qs.extend([Q::VProp(n.clone()), Q::EProp(n.clone())]);
            for v in &x.vals {
                qs.extend([Q::VVal(n.clone(), v.clone()), Q::EVal(n.clone(), v.clone())]);
            }
        }
        for q in &qs {
            let got = live(&one(s.as_mut(), q)?);
            let want = live(&m.eval(&crate::model::unroll(q)).0.last().unwrap());
            ensure!(got == want, "others", "[{}] after the bulk insertion of {with:?}, {q:?} gives (leaving out what has missing ends) {got:?} instead of {want:?}", s.name());
            seen.queries += 1;
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &GhostCase, seen: &Seen) -> bool {
        seen.has("dangling") && seen.has("others")
    }
}

pub fn checks() -> Vec<Check> {
    let every = Depth { every: true, txn: true };
    let end = Depth { every: false, txn: true };
    let hist = |name, kind, mix, ids, ops, depth, rule: fn(&Seen) -> bool, quick, thorough| part(Hist { name, kind, mix, ids, ops, depth, rule }, quick, thorough);
    let (mem, rdb) = (Kind::Mem, Kind::Rdb);
    let ops_model: &[&str] = &["the reference model (harness/src/model.rs) states what the queries and writes mean", "what a limit selects within one vertex's edges, and their order, is unspecified"];

    let q = Mix { get: 20, index: 2, qdepth: 4, ..Mix::BASE };
    let deep: fn(&Seen) -> bool = |s| s.has("deep-nonempty");
    let c01 = Check {
        id: "C01",
        level: "exploration",
        rule: "a query of at least two stages over stored data returned something non-empty (large: on a graph of at least 64 vertices; constructors: a composing query with a non-empty result)",
        assumptions: ops_model,
        parts: vec![
            hist("memory", mem, q, (3, 7), (15, 50), end, deep, 80000, 1200000),
            hist("rocksdb", rdb, q, (3, 7), (15, 50), end, deep, 9000, 200000),
            part(Big { kind: mem, max: 1500 }, 400, 8000),
            part(Big { kind: rdb, max: 1500 }, 200, 5000),
            part(Wide { at: At::Mem, max: 1500 }, 250, 4000),
            part(Huge { at: At::Mem, max: 140000 }, 5, 60),
            part(Long { at: At::Mem, mix: q, max: 140000 }, 32, 2000),
            part(Wide { at: At::Rdb, max: 1500 }, 100, 2000),
            part(Huge { at: At::Rdb, max: 140000 }, 4, 60),
            part(Long { at: At::Rdb, mix: q, max: 140000 }, 16, 800),
            part(Built, 30000, 400000),
        ],
        dbg_share: 0.0,
        known: no_known,
    };

    let lim: fn(&Seen) -> bool = |s| s.has("pipe-limit-reached") || s.has("range-limit");
    let c02 = Check {
        id: "C02",
        level: "exploration",
        rule: "a limit was reached by a range or pipe (histories), or several pages were walked and a query counted (paging)",
        assumptions: ops_model,
        parts: vec![
            hist("memory", mem, Mix { get: 20, ..q }, (4, 9), (15, 50), end, lim, 60000, 800000),
            hist("rocksdb", rdb, Mix { get: 20, ..q }, (4, 9), (15, 50), end, lim, 7000, 150000),
            part(Paging { kind: mem }, 50000, 600000),
            part(Paging { kind: rdb }, 7000, 150000),
            part(Big { kind: mem, max: 1500 }, 300, 5000),
            part(Big { kind: rdb, max: 1500 }, 150, 3000),
            part(Wide { at: At::Mem, max: 1500 }, 250, 4000),
            part(Huge { at: At::Mem, max: 140000 }, 5, 60),
            part(Long { at: At::Mem, mix: q, max: 140000 }, 32, 2000),
            part(Wide { at: At::Rdb, max: 1500 }, 100, 2000),
            part(Huge { at: At::Rdb, max: 140000 }, 4, 60),
            part(Long { at: At::Rdb, mix: q, max: 140000 }, 16, 800),
        ],
        dbg_share: 0.0,
        known: no_known,
    };

    let cas = Mix { cv: 6, ce: 14, set: 8, del: 5, vdel: 0.75, bulk: 3, index: 2, ..Mix::BASE };
    let casc: fn(&Seen) -> bool = |s| s.has("delete-with-inbound") && s.has("delete-with-edge-props");
    let c03 = Check {
        id: "C03",
        level: "exploration",
        rule: "a vertex was deleted that had an edge into it from a surviving vertex and an edge with properties",
        assumptions: ops_model,
        parts: vec![
            hist("memory", mem, cas, (2, 6), (15, 60), every, casc, 9000, 500000),
            hist("rocksdb", rdb, cas, (2, 6), (15, 60), every, casc, 4000, 200000),
            hist("rocksdb-sync", rdb, Mix { sync: 1, reopen: 1, ..cas }, (2, 6), (15, 60), every, casc, 800, 40000),
            part(Big { kind: mem, max: 1000 }, 60, 4000),
            part(Big { kind: rdb, max: 1000 }, 60, 4000),
            part(Wide { at: At::Mem, max: 2000 }, 250, 4000),
            part(Huge { at: At::Mem, max: 140000 }, 5, 60),
            part(Long { at: At::Mem, mix: cas, max: 140000 }, 32, 2000),
            part(Wide { at: At::Rdb, max: 2000 }, 100, 2000),
            part(Huge { at: At::Rdb, max: 140000 }, 4, 60),
            part(Long { at: At::Rdb, mix: cas, max: 140000 }, 16, 800),
        ],
        dbg_share: 0.0,
        known: no_known,
    };

    let ix = Mix { cv: 5, ce: 7, set: 14, del: 5, bulk: 3, index: 3, get: 4, ..Mix::BASE };
    let ixr: fn(&Seen) -> bool = |s| s.has("set-indexed") && s.has("index-after-data") && (s.has("delete-props") || s.has("delete-vertices") || s.has("delete-edges"));
    let c04 = Check {
        id: "C04",
        level: "exploration",
        rule: "an indexed property was set, a property was indexed after it had been set on something, and something was deleted",
        assumptions: ops_model,
        parts: vec![
            hist("memory", mem, ix, (2, 6), (15, 60), every, ixr, 9000, 500000),
            hist("rocksdb", rdb, ix, (2, 6), (15, 60), every, ixr, 4000, 200000),
            hist("rocksdb-sync", rdb, Mix { sync: 1, reopen: 1, ..ix }, (2, 6), (15, 60), every, ixr, 800, 40000),
            part(Big { kind: mem, max: 1000 }, 60, 4000),
            part(Big { kind: rdb, max: 1000 }, 60, 4000),
            part(Wide { at: At::Mem, max: 2000 }, 250, 4000),
            part(Huge { at: At::Mem, max: 140000 }, 5, 60),
            part(Long { at: At::Mem, mix: ix, max: 140000 }, 32, 2000),
            part(Wide { at: At::Rdb, max: 2000 }, 100, 2000),
            part(Huge { at: At::Rdb, max: 140000 }, 4, 60),
            part(Long { at: At::Rdb, mix: ix, max: 140000 }, 16, 800),
        ],
        dbg_share: 0.0,
        known: no_known,
    };

    let wr = Mix { cv: 7, cvt: 1, ce: 8, set: 9, del: 6, bulk: 3, index: 1, ..Mix::BASE };
    let wrr: fn(&Seen) -> bool = |s| s.has("set") && s.has("create-existing") && (s.has("delete-props") || s.has("delete-vertices") || s.has("delete-edges"));
    let c05 = Check {
        id: "C05",
        level: "exploration",
        rule: "the history set a property, created something that was there already and deleted something",
        assumptions: ops_model,
        parts: vec![
            hist("memory", mem, wr, (3, 7), (15, 60), every, wrr, 9000, 500000),
            hist("rocksdb", rdb, wr, (3, 7), (15, 60), every, wrr, 4000, 200000),
            hist("memory-wild", mem, Mix { wild: true, ..wr }, (3, 7), (15, 60), every, wrr, 3000, 200000),
            hist("rocksdb-wild", rdb, Mix { wild: true, ..wr }, (3, 7), (15, 60), every, wrr, 1500, 80000),
            part(Big { kind: mem, max: 1000 }, 60, 4000),
            part(Big { kind: rdb, max: 1000 }, 60, 4000),
            part(Wide { at: At::Mem, max: 2000 }, 250, 4000),
            part(Huge { at: At::Mem, max: 140000 }, 5, 60),
            part(Long { at: At::Mem, mix: wr, max: 140000 }, 32, 2000),
            part(Wide { at: At::Rdb, max: 2000 }, 100, 2000),
            part(Huge { at: At::Rdb, max: 140000 }, 4, 60),
            part(Long { at: At::Rdb, mix: wr, max: 140000 }, 16, 800),
        ],
        dbg_share: 0.0,
        known: no_known,
    };

    let ls = Mix { get: 12, index: 2, sync: 1, bulk: 3, ..Mix::BASE };
    let c06 = Check {
        id: "C06",
        level: "exploration",
        rule: "at least eight writes including a deletion, and a query with a non-empty result",
        assumptions: &["writes whose targets depend on the unspecified order of edges under a limit are skipped", "bulk items that refer to missing elements are left out (documented leniency)"],
        parts: vec![
            part(Lockstep { name: "lockstep", mix: ls }, 9000, 250000),
            part(Lockstep { name: "lockstep-wild", mix: Mix { wild: true, ..ls } }, 4000, 120000),
            part(Wide { at: At::Mem, max: 2000 }, 250, 4000),
            part(Wide { at: At::Rdb, max: 2000 }, 100, 2000),
        ],
        dbg_share: 0.0,
        known: no_known,
    };

    let bad: fn(&Seen) -> bool = |s| s.has("refused-query") || s.has("refused-write");
    let wild = Mix { wild: true, get: 8, index: 1, sync: 1, cvt: 1, ..Mix::BASE };
    let c07 = Check {
        id: "C07",
        level: "exploration",
        rule: "a request was refused, or a bulk insertion referred to missing elements, and the history went on",
        assumptions: &["what bulk items that refer to missing elements leave behind is unspecified; only that nothing fails is judged"],
        parts: vec![
            part(Wild { kind: mem }, 30000, 600000),
            part(Wild { kind: rdb }, 4000, 150000),
            hist("memory-refusals", mem, wild, (3, 7), (15, 50), every, bad, 5000, 300000),
            hist("rocksdb-refusals", rdb, wild, (3, 7), (15, 50), every, bad, 2000, 100000),
            part(Built, 6000, 200000),
            part(Wide { at: At::Mem, max: 1000 }, 40, 2000),
            part(Wide { at: At::Rdb, max: 1000 }, 30, 1000),
        ],
        dbg_share: 0.5,
        known: no_known,
    };

    let c08 = Check {
        id: "C08",
        level: "exploration",
        rule: "the item list set some indexed property and named some element or property more than once (dangling: some item referred to a missing vertex among at least three that did not)",
        assumptions: &["what items that refer to missing elements leave behind themselves is unspecified"],
        parts: vec![
            part(Twin { kind: mem }, 50000, 800000),
            part(Twin { kind: rdb }, 6500, 250000),
            part(Ghosts { kind: mem }, 20000, 400000),
            part(Ghosts { kind: rdb }, 3000, 100000),
            part(Big { kind: mem, max: 1500 }, 60, 4000),
            part(Big { kind: rdb, max: 1500 }, 60, 4000),
            part(Wide { at: At::Mem, max: 5000 }, 250, 4000),
            part(Huge { at: At::Mem, max: 140000 }, 5, 60),
            part(Long { at: At::Mem, mix: Mix { bulk: 20, bulk_max: 5, ..Mix::BASE }, max: 140000 }, 32, 2000),
            part(Wide { at: At::Rdb, max: 5000 }, 100, 2000),
            part(Huge { at: At::Rdb, max: 140000 }, 4, 60),
            part(Long { at: At::Rdb, mix: Mix { bulk: 20, bulk_max: 5, ..Mix::BASE }, max: 140000 }, 16, 800),
        ],
        dbg_share: 0.0,
        known: no_known,
    };

    let ro = Mix { reopen: 4, sync: 1, index: 3, get: 3, bulk: 3, ..Mix::BASE };
    let ror: fn(&Seen) -> bool = |s| s.has("reopen") && s.has("set") && s.has("index-after-data");
    let c09 = Check {
        id: "C09",
        level: "exploration",
        rule: "a history with a reopened database, a property set and an index made over existing data",
        assumptions: &["the directory is not touched while the database is closed", "options as far as RocksDB itself accepts them for existing data"],
        parts: vec![
            hist("reopen", rdb, ro, (3, 7), (10, 50), every, ror, 1500, 150000),
            hist("reopen-often", rdb, Mix { reopen: 12, sync: 4, ..ro }, (3, 6), (10, 40), every, ror, 450, 60000),
            part(BigReopen, 60, 3000),
            part(Wide { at: At::Rdb, max: 2000 }, 120, 4000),
            part(Huge { at: At::Rdb, max: 140000 }, 4, 60),
            part(Long { at: At::Rdb, mix: ro, max: 140000 }, 16, 800),
        ],
        dbg_share: 0.0,
        known: no_known,
    };
    vec![c01, c02, c03, c04, c05, c06, c07, c08, c09]
}

/// A larger database, closed and opened in different ways, with enough data for several files.
pub struct BigReopen;

impl Part for BigReopen {
    type Case = (BigCase, Vec<u8>, usize);
    fn name(&self) -> &'static str {
        "large"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Self::Case {
        let n = r.gen_range(100..1200);
        (BigCase { seed: r.gen(), n, m: r.gen_range(n / 2..n * 2), shape: r.gen(), ops: 0 }, (0..r.gen_range(2..6)).map(|_| r.gen()).collect(), r.gen_range(0..3000))
    }
    fn run(&self, (c, how, pad): &Self::Case, seen: &mut Seen) -> R {
        let mut s = Rdb::with(true);
        let mut m = Model::new();
        let (items, _) = c.build();
        step(&mut s, &mut m, &Op::Index("p".into()), seen)?;
        let chunk = (items.len() / how.len().max(1)).max(1);
        let mut k = 0;
        for ch in items.chunks(chunk) {
            step(&mut s, &mut m, &Op::Bulk(ch.to_vec()), seen)?;
            // something bulky on one vertex, different each time
            if let Some(id) = m.v.keys().nth(k).copied() {
                step(&mut s, &mut m, &Op::Set(Q::SpecV(vec![id]), "pad".into(), J(json!("x".repeat(pad * 50 + k)))), seen)?;
            }
            let h = how.get(k).copied().unwrap_or(0);
            k += 1;
            if h & 64 != 0 {
                step(&mut s, &mut m, &Op::Sync, seen)?;
            }
            step(&mut s, &mut m, &Op::Reopen(h), seen)?;
            if h & 128 != 0 {
                step(&mut s, &mut m, &Op::Index("w".into()), seen)?;
            }
            check_all(&mut s, &m, &["w".into()], &[])?;
        }
        seen.tag("large");
        step(&mut s, &mut m, &Op::Delete(Q::VVal("p".into(), J(json!(1)))), seen)?;
        step(&mut s, &mut m, &Op::Reopen(2), seen)?;
        check_all(&mut s, &m, &["w".into()], &[])
    }
    fn nontrivial(&self, _c: &Self::Case, seen: &Seen) -> bool {
        seen.has("large") && seen.has("reopen")
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (40, 200)
    }
}
