//! Running a history of operations against a store next to the model, checking every outcome and, after every
//! write, the whole observable content.
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::store::Store;
use crate::types::*;
use std::collections::BTreeSet;
use uuid::Uuid;

/// What happened in a case, for the non-triviality rules and the distribution counts.
#[derive(Default, Clone, Debug)]
pub struct Seen {
    pub labels: BTreeSet<&'static str>,
    pub queries: u64,
    pub writes: u64,
}

impl Seen {
    pub fn tag(&mut self, l: &'static str) {
        self.labels.insert(l);
    }
    pub fn has(&self, l: &str) -> bool {
        self.labels.contains(l)
    }
}

pub fn get(s: &mut dyn Store, q: &Q) -> R<Result<Vec<O>, (EK, String)>> {
    match s.apply(&Op::Get(q.clone())) {
        Out::Outs(o) => Ok(Ok(o)),
        Out::Err(k, m) => Ok(Err((k, m))),
        Out::Panic(p) => fail("panic", format!("[{}] query {q:?} panicked: {p}", s.name())),
        o => fail("outcome", format!("[{}] query {q:?} gave {o:?}", s.name())),
    }
}

pub fn get_ok(s: &mut dyn Store, q: &Q) -> R<Vec<O>> {
    match get(s, q)? {
        Ok(o) => Ok(o),
        Err((k, m)) => fail("query-error", format!("[{}] query {q:?} failed: {k:?} {m}", s.name())),
    }
}

pub fn one(s: &mut dyn Store, q: &Q) -> R<O> {
    let mut o = get_ok(s, q)?;
    ensure!(o.len() == 1, "query-outputs", "[{}] query {q:?} gave {} outputs: {o:?}", s.name(), o.len());
    Ok(o.pop().unwrap())
}

/// The same query with every stage's input included.
pub fn staged(c: &Chain) -> Q {
    let mut c = c.clone();
    c.stages.iter_mut().for_each(|s| s.1 = true);
    roll(&c)
}

pub fn err_ok(want: EK, got: EK) -> bool {
    want == got || got == EK::Remote
}

/// Checks a query's results against the model, stage by stage; returns the final output (or the refusal).
pub fn check_get(s: &mut dyn Store, m: &Model, q: &Q, seen: &mut Seen) -> R<Result<O, EK>> {
    let name = s.name();
    let c = unroll(q);
    seen.queries += 1;
    let raw = get(s, q)?;
    let _ty = match m.classify(&c) {
        Err(k) => {
            seen.tag("refused-query");
            return match raw {
                Err((e, _)) if err_ok(k, e) => Ok(Err(k)),
                other => fail("query-refusal", format!("[{name}] query {q:?}\n  must be refused with {k:?}, but gave {other:?}")),
            };
        }
        Ok(t) => t,
    };
    let raw = match raw {
        Ok(o) => o,
        Err((k, e)) => return fail("query-error", format!("[{name}] query {q:?} failed: {k:?} {e}")),
    };
    let outs = get_ok(s, &staged(&c))?;
    ensure!(outs.len() == c.stages.len() + 1, "query-outputs", "[{name}] query {q:?} with all inputs included gave {} outputs: {outs:?}", outs.len());
    let ctx = |f: Fail| Fail { kind: f.kind, msg: format!("[{name}] in {q:?}:\n  {}", f.msg) };
    m.check_leaf(&c.leaf, &outs[0]).map_err(ctx)?;
    if let Q::RangeV { limit, .. } = &c.leaf {
        if outs[0].len() == *limit as u64 && *limit > 0 {
            seen.tag("range-limit");
        }
    }
    for (k, (st, _)) in c.stages.iter().enumerate() {
        m.check_stage(st, &outs[k], &outs[k + 1]).map_err(ctx)?;
    }
    // the query as given: its outputs are the included inputs and the final output, in order
    let mut want: Vec<O> = vec![];
    for (k, (_, inc)) in c.stages.iter().enumerate() {
        if *inc {
            want.push(outs[k].clone());
        }
    }
    want.push(outs.last().unwrap().clone());
    if c.stages.iter().any(|s| s.1) {
        seen.tag("include");
    }
    let det = !is_index_leaf(&c.leaf);
    let unlimited = c.stages.iter().all(|(s, _)| !matches!(s, Stage::Pipe { limit, .. } if *limit != u32::MAX && *limit != 0));
    let norm = |v: &[O]| -> Vec<O> { v.iter().map(|o| if det { o.normal() } else { o.sorted() }).collect() };
    if det || unlimited {
        ensure!(
            norm(&raw) == norm(&want),
            "query-outputs",
            "[{name}] query {q:?}\n  gave     {raw:?}\n  but with every input included its outputs are {want:?}"
        );
    } else {
        ensure!(raw.len() == want.len(), "query-outputs", "[{name}] query {q:?}\n  gave {raw:?}\n  expected outputs like {want:?}");
    }
    for (k, (st, _)) in c.stages.iter().enumerate() {
        if matches!(st, Stage::Pipe { limit, .. } if outs[k + 1].len() == *limit as u64 && *limit > 0) {
            seen.tag("pipe-limit-reached");
        }
        if matches!(st, Stage::PProp(..) | Stage::PVal(..)) && outs[k + 1].len() < outs[k].len() && outs[k + 1].len() > 0 {
            seen.tag("filter-splits");
        }
        seen.tag(match st {
            Stage::Pipe { limit, .. } if *limit < 100 => "pipe-limit",
            Stage::Pipe { .. } => "pipe",
            Stage::Props(_) => "props",
            Stage::PProp(..) | Stage::PVal(..) => "filter",
            Stage::Count => "count",
        });
    }
    let fin = outs.last().unwrap();
    if fin.len() > 0 {
        seen.tag("nonempty-result");
        if c.stages.len() >= 2 {
            seen.tag("deep-nonempty");
        }
        if is_index_leaf(&c.leaf) {
            seen.tag("index-nonempty");
        }
    }
    Ok(Ok(if det || unlimited { raw.last().unwrap().clone() } else { fin.clone() }))
}

/// Runs one operation on the store and the model and compares the outcomes.
pub fn step(s: &mut dyn Store, m: &mut Model, op: &Op, seen: &mut Seen) -> R {
    let name = s.name();
    let unexpected = |op: &Op, got: &Out, want: &str| -> R {
        let kind = if matches!(got, Out::Panic(_)) { "panic" } else { "outcome" };
        fail(kind, format!("[{name}] {op:?}\n  gave {got:?}, expected {want}"))
    };
    match op {
        Op::Get(q) => {
            let _ = check_get(s, m, q, seen)?;
            return Ok(());
        }
        _ => seen.writes += 1,
    }
    // what a limit over an index query selects differs from call to call
    let det;
    let op = match op {
        Op::Set(q, n, j) => {
            det = Op::Set(gen::determined(q), n.clone(), j.clone());
            &det
        }
        Op::Delete(q) => {
            det = Op::Delete(gen::determined(q));
            &det
        }
        op => op,
    };
    match op {
        Op::CreateV(id, t) => {
            let want = m.create_v(*id, t);
            let got = s.apply(op);
            if !got.same(&Out::Bool(want)) {
                return unexpected(op, &got, &format!("{want}"));
            }
            if !want {
                seen.tag("create-existing");
            }
        }
        Op::CreateVT(t) => {
            let got = s.apply(op);
            match got {
                Out::Id(id) if !m.v.contains_key(&id) => {
                    m.create_v(id, t);
                }
                got => return unexpected(op, &got, "a new id"),
            }
        }
        Op::CreateE(e) => {
            let had = m.e.contains(e);
            let want = m.create_e(e);
            let got = s.apply(op);
            if !got.same(&Out::Bool(want)) {
                return unexpected(op, &got, &format!("{want}"));
            }
            if had {
                seen.tag("recreate-edge");
            }
            if e.o == e.i && want {
                seen.tag("self-loop");
            }
        }
        Op::Set(q, n, j) => {
            let c = unroll(q);
            let want: Result<O, EK> = match m.classify(&c) {
                Err(k) => Err(k),
                Ok(Ty::V | Ty::E) => Ok(check_get(s, m, q, &mut Seen::default())?.unwrap()),
                Ok(_) => Err(EK::OpOnQuery),
            };
            let got = s.apply(op);
            match (&want, &got) {
                (Ok(o), Out::Unit) => {
                    if o.len() > 0 {
                        seen.tag("set");
                        if m.idx.contains(n) {
                            seen.tag("set-indexed");
                        }
                    }
                    m.set(o, n, j)
                }
                (Err(k), Out::Err(e, _)) if err_ok(*k, *e) => seen.tag("refused-write"),
                _ => return unexpected(op, &got, &format!("{want:?}")),
            }
        }
        Op::Delete(q) => {
            let c = unroll(q);
            let want: Result<O, EK> = match m.classify(&c) {
                Err(k) => Err(k),
                Ok(Ty::N) => Err(EK::OpOnQuery),
                Ok(_) => Ok(check_get(s, m, q, &mut Seen::default())?.unwrap()),
            };
            let got = s.apply(op);
            match (&want, &got) {
                (Ok(o), Out::Unit) => {
                    if o.len() > 0 {
                        seen.tag(match o {
                            O::V(_) => "delete-vertices",
                            O::E(_) => "delete-edges",
                            _ => "delete-props",
                        });
                        if let O::V(vs) = o {
                            let ids: BTreeSet<Uuid> = vs.iter().map(|v| v.0).collect();
                            if m.e.iter().any(|e| ids.contains(&e.i) && !ids.contains(&e.o)) {
                                seen.tag("delete-with-inbound");
                            }
                            if m.ep.keys().any(|(e, _)| ids.contains(&e.i) || ids.contains(&e.o)) {
                                seen.tag("delete-with-edge-props");
                            }
                        }
                    }
                    m.delete(o)
                }
                (Err(k), Out::Err(e, _)) if err_ok(*k, *e) => seen.tag("refused-write"),
                _ => return unexpected(op, &got, &format!("{want:?}")),
            }
        }
        Op::Bulk(items) => {
            let items = m.sanitise(items);
            let op = Op::Bulk(items.clone());
            let got = s.apply(&op);
            if !matches!(got, Out::Unit) {
                return unexpected(&op, &got, "success");
            }
            for i in &items {
                m.apply_item(i);
            }
            if !items.is_empty() {
                seen.tag("bulk");
            }
        }
        Op::Index(n) => {
            let got = s.apply(op);
            if !matches!(got, Out::Unit) {
                return unexpected(op, &got, "success");
            }
            if m.vp.keys().any(|k| k.1 == *n) || m.ep.keys().any(|k| k.1 == *n) {
                seen.tag("index-after-data");
            }
            if !m.idx.insert(n.clone()) {
                seen.tag("reindex");
            }
        }
        Op::Sync => {
            let got = s.apply(op);
            if !matches!(got, Out::Unit) {
                return unexpected(op, &got, "success");
            }
            seen.tag("sync");
        }
        Op::Reopen(_) => {
            let got = s.apply(op);
            if !matches!(got, Out::Unit) {
                return unexpected(op, &got, "the database to open again");
            }
            seen.tag("reopen");
        }
        Op::Get(_) => unreachable!(),
    }
    Ok(())
}

/// Compares everything that can be observed through queries with the model. `names` are the property names
/// to look at besides the indexed ones, `vals` values to look for besides those held.
pub fn check_all(s: &mut dyn Store, m: &Model, names: &[String], vals: &[J]) -> R {
    let st = s.name();
    let ctx = |f: Fail| Fail { kind: format!("content-{}", f.kind), msg: format!("[{st}] the content differs from the model: {}", f.msg) };
    let bx = Box::new;
    let vs = one(s, &Q::AllV)?;
    m.check_leaf(&Q::AllV, &vs).map_err(ctx)?;
    let es = one(s, &Q::AllE)?;
    m.check_leaf(&Q::AllE, &es).map_err(ctx)?;
    for (q, n) in [(Q::AllV, vs.len()), (Q::AllE, es.len())] {
        let c = one(s, &Q::Count(bx(q.clone())))?;
        ensure!(c == O::N(n), "content-count", "[{st}] count of {q:?} is {c:?}, but it has {n} elements");
    }
    for (q, o) in [(Q::AllV, &vs), (Q::AllE, &es)] {
        let p = one(s, &Q::Props { inner: bx(q), name: None })?;
        m.check_stage(&Stage::Props(None), o, &p).map_err(ctx)?;
    }
    for dir in [Dir::Out, Dir::In] {
        let p = one(s, &Q::Pipe { inner: bx(Q::AllV), dir, limit: u32::MAX, t: None })?;
        m.check_stage(&Stage::Pipe { dir, limit: u32::MAX, t: None }, &vs, &p).map_err(ctx)?;
    }
    let mut all: BTreeSet<&String> = m.idx.iter().collect();
    all.extend(names.iter());
    for n in all {
        if m.idx.contains(n) {
            for q in [Q::VProp(n.clone()), Q::EProp(n.clone())] {
                let o = one(s, &q)?;
                m.check_leaf(&q, &o).map_err(ctx)?;
            }
            let mut held: BTreeSet<&J> = m.vp.iter().filter(|(k, _)| k.1 == *n).map(|(_, v)| v).collect();
            held.extend(m.ep.iter().filter(|(k, _)| k.1 == *n).map(|(_, v)| v));
            held.extend(vals.iter());
            for v in held {
                for q in [Q::VVal(n.clone(), v.clone()), Q::EVal(n.clone(), v.clone())] {
                    let o = one(s, &q)?;
                    m.check_leaf(&q, &o).map_err(ctx)?;
                }
            }
        } else {
            for q in [Q::VProp(n.clone()), Q::EProp(n.clone()), Q::PProp { inner: bx(Q::AllV), name: n.clone(), exists: true }] {
                match get(s, &q)? {
                    Err((k, _)) if err_ok(EK::NotIndexed, k) => {}
                    o => return fail("content-not-indexed", format!("[{st}] {n:?} is not indexed, but {q:?} gave {o:?}")),
                }
            }
        }
    }
    Ok(())
}

/// The ids, edges and names a history mentions.
pub struct Mentions {
    pub ids: BTreeSet<Uuid>,
    pub edges: BTreeSet<E>,
    pub names: BTreeSet<String>,
    pub vals: BTreeSet<J>,
}

pub fn mentions(ops: &[Op]) -> Mentions {
    let mut x = Mentions { ids: BTreeSet::new(), edges: BTreeSet::new(), names: BTreeSet::new(), vals: BTreeSet::new() };
    fn q_(q: &Q, x: &mut Mentions) {
        match q {
            Q::SpecV(v) => x.ids.extend(v),
            Q::SpecE(e) => x.edges.extend(e.iter().cloned()),
            Q::VProp(n) | Q::EProp(n) => {
                x.names.insert(n.clone());
            }
            Q::VVal(n, j) | Q::EVal(n, j) => {
                x.names.insert(n.clone());
                x.vals.insert(j.clone());
            }
            Q::Pipe { inner, .. } | Q::Props { inner, .. } | Q::Include(inner) | Q::Count(inner) => q_(inner, x),
            Q::PProp { inner, name, .. } => {
                x.names.insert(name.clone());
                q_(inner, x)
            }
            Q::PVal { inner, name, value, .. } => {
                x.names.insert(name.clone());
                x.vals.insert(value.clone());
                q_(inner, x)
            }
            _ => {}
        }
    }
    for o in ops {
        match o {
            Op::CreateV(id, _) => {
                x.ids.insert(*id);
            }
            Op::CreateE(e) => {
                x.edges.insert(e.clone());
            }
            Op::Set(q, n, j) => {
                q_(q, &mut x);
                x.names.insert(n.clone());
                x.vals.insert(j.clone());
            }
            Op::Delete(q) | Op::Get(q) => q_(q, &mut x),
            Op::Index(n) => {
                x.names.insert(n.clone());
            }
            Op::Bulk(items) => {
                for i in items {
                    match i {
                        Item::V(id, _) => {
                            x.ids.insert(*id);
                        }
                        Item::E(e) => {
                            x.edges.insert(e.clone());
                        }
                        Item::VP(id, n, j) => {
                            x.ids.insert(*id);
                            x.names.insert(n.clone());
                            x.vals.insert(j.clone());
                        }
                        Item::EP(e, n, j) => {
                            x.edges.insert(e.clone());
                            x.names.insert(n.clone());
                            x.vals.insert(j.clone());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for e in &x.edges {
        x.ids.insert(e.o);
        x.ids.insert(e.i);
    }
    x
}

/// How often a history's run looks at everything.
#[derive(Clone, Copy)]
pub struct Depth {
    /// full comparison after every write (otherwise at the end only)
    pub every: bool,
    /// also look through the transaction interface, including at what no longer exists
    pub txn: bool,
}

/// Runs a whole history on a store, comparing as it goes.
pub fn run(s: &mut dyn Store, ops: &[Op], d: Depth, seen: &mut Seen) -> R<Model> {
    let mut m = Model::new();
    let x = mentions(ops);
    let names: Vec<String> = x.names.iter().cloned().collect();
    let vals: Vec<J> = x.vals.iter().take(12).cloned().collect();
    for (k, op) in ops.iter().enumerate() {
        let at = |f: Fail| Fail { kind: f.kind, msg: format!("at operation {k}: {}", f.msg) };
        step(s, &mut m, op, seen).map_err(at)?;
        if d.every && !matches!(op, Op::Get(_)) {
            check_all(s, &m, &names, &vals).map_err(|f| Fail { kind: f.kind, msg: format!("after operation {k} ({op:?}): {}", f.msg) })?;
            if d.txn {
                s.txn_probe(&m, &x).map_err(|f| Fail { kind: f.kind, msg: format!("after operation {k} ({op:?}): {}", f.msg) })?;
            }
        }
    }
    check_all(s, &m, &names, &vals).map_err(|f| Fail { kind: f.kind, msg: format!("at the end: {}", f.msg) })?;
    if d.txn {
        s.txn_probe(&m, &x).map_err(|f| Fail { kind: f.kind, msg: format!("at the end: {}", f.msg) })?;
    }
    Ok(m)
}

pub fn world_history(r: &mut gen::Rand, mix: &gen::Mix, ids: usize, n: usize) -> Vec<Op> {
    let w = gen::world(r, ids);
    gen::history(r, &w, mix, n)
}
