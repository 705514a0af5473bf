//! Adapters from the harness's vocabulary to the code under test.
use crate::ensure;
use crate::hist::Mentions;
use crate::model::Model;
use crate::types::*;
use indradb::{self as db, Database, Datastore, MemoryDatastore, RocksdbDatastore};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use uuid::Uuid;

pub fn ident(s: &str) -> db::Identifier {
    // names are interned behind one global lock, which all threads would wait for
    IDENTS.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(i) = c.get(s) {
            return *i;
        }
        if c.len() > 10000 {
            c.clear();
        }
        let i = db::Identifier::new(s).unwrap_or_else(|e| panic!("identifier {s:?} refused: {e}"));
        c.insert(s.to_string(), i);
        i
    })
}
pub fn json(j: &J) -> db::Json {
    db::Json::new(j.0.clone())
}
pub fn edge(e: &E) -> db::Edge {
    db::Edge::new(e.o, ident(&e.t), e.i)
}
pub fn vertex(id: uuid::Uuid, t: &str) -> db::Vertex {
    db::Vertex::with_id(id, ident(t))
}
pub fn from_edge(e: &db::Edge) -> E {
    E { o: e.outbound_id, t: e.t.as_str().to_string(), i: e.inbound_id }
}
pub fn from_vertex(v: &db::Vertex) -> V {
    (v.id, v.t.as_str().to_string())
}
pub fn from_props(p: &[db::NamedProperty]) -> Vec<(String, J)> {
    p.iter().map(|p| (p.name.as_str().to_string(), J((*p.value.0).clone()))).collect()
}
pub fn from_out(o: &db::QueryOutputValue) -> O {
    use db::QueryOutputValue as X;
    match o {
        X::Vertices(v) => O::V(v.iter().map(from_vertex).collect()),
        X::Edges(e) => O::E(e.iter().map(from_edge).collect()),
        X::Count(n) => O::N(*n),
        X::VertexProperties(p) => O::VP(p.iter().map(|p| (from_vertex(&p.vertex), from_props(&p.props))).collect()),
        X::EdgeProperties(p) => O::EP(p.iter().map(|p| (from_edge(&p.edge), from_props(&p.props))).collect()),
    }
}
fn dir(d: Dir) -> db::EdgeDirection {
    match d {
        Dir::Out => db::EdgeDirection::Outbound,
        Dir::In => db::EdgeDirection::Inbound,
    }
}

/// The query as the code under test represents it (built directly, so ill-formed ones can be built too).
pub fn query(q: &Q) -> db::Query {
    use db::*;
    match q {
        Q::AllV => Query::AllVertex,
        Q::RangeV { limit, t, start } => Query::RangeVertex(RangeVertexQuery { limit: *limit, t: t.as_deref().map(ident), start_id: *start }),
        Q::SpecV(ids) => Query::SpecificVertex(SpecificVertexQuery { ids: ids.clone() }),
        Q::VProp(n) => Query::VertexWithPropertyPresence(VertexWithPropertyPresenceQuery { name: ident(n) }),
        Q::VVal(n, j) => Query::VertexWithPropertyValue(VertexWithPropertyValueQuery { name: ident(n), value: json(j) }),
        Q::AllE => Query::AllEdge,
        Q::SpecE(es) => Query::SpecificEdge(SpecificEdgeQuery { edges: es.iter().map(edge).collect() }),
        Q::EProp(n) => Query::EdgeWithPropertyPresence(EdgeWithPropertyPresenceQuery { name: ident(n) }),
        Q::EVal(n, j) => Query::EdgeWithPropertyValue(EdgeWithPropertyValueQuery { name: ident(n), value: json(j) }),
        Q::Pipe { inner, dir: d, limit, t } => {
            Query::Pipe(PipeQuery { inner: Box::new(query(inner)), direction: dir(*d), limit: *limit, t: t.as_deref().map(ident) })
        }
        Q::Props { inner, name } => Query::PipeProperty(PipePropertyQuery { inner: Box::new(query(inner)), name: name.as_deref().map(ident) }),
        Q::PProp { inner, name, exists } => {
            Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: Box::new(query(inner)), name: ident(name), exists: *exists })
        }
        Q::PVal { inner, name, value, equal } => Query::PipeWithPropertyValue(PipeWithPropertyValueQuery {
            inner: Box::new(query(inner)),
            name: ident(name),
            value: json(value),
            equal: *equal,
        }),
        Q::Include(inner) => Query::Include(IncludeQuery { inner: Box::new(query(inner)) }),
        Q::Count(inner) => Query::Count(CountQuery { inner: Box::new(query(inner)) }),
    }
}

/// The query built through the public constructors and extension methods, which may refuse it.
pub fn built_query(q: &Q) -> Result<db::Query, db::ValidationError> {
    use db::*;
    fn pipe(mut p: PipeQuery, limit: u32, t: &Option<String>) -> PipeQuery {
        if limit != u32::MAX {
            p = p.limit(limit);
        }
        if let Some(t) = t {
            p = p.t(ident(t));
        }
        p
    }
    Ok(match q {
        Q::AllV => AllVertexQuery.into(),
        Q::RangeV { limit, t, start } => {
            let mut r = RangeVertexQuery::new();
            if *limit != u32::MAX {
                r = r.limit(*limit);
            }
            if let Some(t) = t {
                r = r.t(ident(t));
            }
            if let Some(s) = start {
                r = r.start_id(*s);
            }
            r.into()
        }
        Q::SpecV(ids) if ids.len() == 1 => SpecificVertexQuery::single(ids[0]).into(),
        Q::SpecV(ids) => SpecificVertexQuery::new(ids.clone()).into(),
        Q::VProp(n) => VertexWithPropertyPresenceQuery::new(ident(n)).into(),
        Q::VVal(n, j) => VertexWithPropertyValueQuery::new(ident(n), json(j)).into(),
        Q::AllE => AllEdgeQuery.into(),
        Q::SpecE(es) if es.len() == 1 => SpecificEdgeQuery::single(edge(&es[0])).into(),
        Q::SpecE(es) => SpecificEdgeQuery::new(es.iter().map(edge).collect()).into(),
        Q::EProp(n) => EdgeWithPropertyPresenceQuery::new(ident(n)).into(),
        Q::EVal(n, j) => EdgeWithPropertyValueQuery::new(ident(n), json(j)).into(),
        Q::Pipe { inner, dir: d, limit, t } => pipe(PipeQuery::new(Box::new(built_query(inner)?), dir(*d))?, *limit, t).into(),
        Q::Props { inner, name } => {
            let p = PipePropertyQuery::new(Box::new(built_query(inner)?))?;
            match name {
                Some(n) => p.name(ident(n)).into(),
                None => p.into(),
            }
        }
        Q::PProp { inner, name, exists } => PipeWithPropertyPresenceQuery::new(Box::new(built_query(inner)?), ident(name), *exists)?.into(),
        Q::PVal { inner, name, value, equal } => {
            PipeWithPropertyValueQuery::new(Box::new(built_query(inner)?), ident(name), json(value), *equal)?.into()
        }
        Q::Include(inner) => IncludeQuery::new(Box::new(built_query(inner)?)).into(),
        Q::Count(inner) => CountQuery::new(Box::new(built_query(inner)?))?.into(),
    })
}

struct W(db::Query);
#[allow(clippy::from_over_into)]
impl Into<db::Query> for W {
    fn into(self) -> db::Query {
        self.0
    }
}
impl db::QueryExt for W {}
impl db::CountQueryExt for W {}

/// The query built through the extension methods on queries.
pub fn ext_query(q: &Q) -> Result<db::Query, db::ValidationError> {
    use db::{CountQueryExt, QueryExt};
    Ok(match q {
        Q::Pipe { inner, dir, limit, t } => {
            let w = W(ext_query(inner)?);
            let mut p = if *dir == Dir::Out { w.outbound()? } else { w.inbound()? };
            // in the other order than above
            if let Some(t) = t {
                p = p.t(ident(t));
            }
            if *limit != u32::MAX {
                p = p.limit(*limit);
            }
            p.into()
        }
        Q::Props { inner, name } => {
            let p = W(ext_query(inner)?).properties()?;
            match name {
                Some(n) => p.name(ident(n)).into(),
                None => p.into(),
            }
        }
        Q::PProp { inner, name, exists: true } => W(ext_query(inner)?).with_property(ident(name))?.into(),
        Q::PProp { inner, name, exists: false } => W(ext_query(inner)?).without_property(ident(name))?.into(),
        Q::PVal { inner, name, value, equal: true } => W(ext_query(inner)?).with_property_equal_to(ident(name), json(value))?.into(),
        Q::PVal { inner, name, value, equal: false } => W(ext_query(inner)?).with_property_not_equal_to(ident(name), json(value))?.into(),
        Q::Include(inner) => W(ext_query(inner)?).include().into(),
        Q::Count(inner) => W(ext_query(inner)?).count()?.into(),
        Q::RangeV { limit, t, start } => {
            let mut r = db::RangeVertexQuery::default();
            if let Some(s) = start {
                r = r.start_id(*s);
            }
            if let Some(t) = t {
                r = r.t(ident(t));
            }
            if *limit != u32::MAX {
                r = r.limit(*limit);
            }
            r.into()
        }
        leaf => built_query(leaf)?,
    })
}

/// The extractors take the last output and nothing that is of another kind.
pub fn check_extractors(outs: &[O]) -> Result<(), String> {
    use db::util::*;
    let made = || outs.iter().map(output).collect::<Vec<_>>();
    let last = made().pop();
    let is = |what: &str, got: Option<db::QueryOutputValue>, want: bool| {
        let want = if want { last.clone() } else { None };
        // vertices count as equal if their ids are
        if format!("{got:?}") == format!("{want:?}") { Ok(()) } else { Err(format!("{what} took {got:?} out of {:?}", made())) }
    };
    use db::QueryOutputValue as X;
    is("extract_vertices", extract_vertices(made()).map(X::Vertices), matches!(last, Some(X::Vertices(_))))?;
    is("extract_edges", extract_edges(made()).map(X::Edges), matches!(last, Some(X::Edges(_))))?;
    is("extract_count", extract_count(made()).map(X::Count), matches!(last, Some(X::Count(_))))?;
    is("extract_vertex_properties", extract_vertex_properties(made()).map(X::VertexProperties), matches!(last, Some(X::VertexProperties(_))))?;
    is("extract_edge_properties", extract_edge_properties(made()).map(X::EdgeProperties), matches!(last, Some(X::EdgeProperties(_))))
}

pub fn check_directions(s: &str) -> Result<(), String> {
    for d in [db::EdgeDirection::Outbound, db::EdgeDirection::Inbound] {
        let text: String = d.into();
        if text.parse::<db::EdgeDirection>().ok() != Some(d) {
            return Err(format!("{d:?} is written {text:?}, which is read as {:?}", text.parse::<db::EdgeDirection>()));
        }
    }
    match s.parse::<db::EdgeDirection>() {
        Ok(d) if String::from(d) != s => Err(format!("{s:?} is read as the direction {d:?}")),
        Err(_) if s == "outbound" || s == "inbound" => Err(format!("the direction {s:?} is refused")),
        _ => Ok(()),
    }
}

fn from_dir(d: db::EdgeDirection) -> Dir {
    match d {
        db::EdgeDirection::Outbound => Dir::Out,
        db::EdgeDirection::Inbound => Dir::In,
    }
}

/// A native query in the harness's terms.
pub fn from_query(q: &db::Query) -> Q {
    use db::Query as X;
    let n = |i: &db::Identifier| i.as_str().to_string();
    let j = |v: &db::Json| J((*v.0).clone());
    let b = |q: &db::Query| Box::new(from_query(q));
    match q {
        X::AllVertex => Q::AllV,
        X::RangeVertex(q) => Q::RangeV { limit: q.limit, t: q.t.as_ref().map(n), start: q.start_id },
        X::SpecificVertex(q) => Q::SpecV(q.ids.clone()),
        X::VertexWithPropertyPresence(q) => Q::VProp(n(&q.name)),
        X::VertexWithPropertyValue(q) => Q::VVal(n(&q.name), j(&q.value)),
        X::AllEdge => Q::AllE,
        X::SpecificEdge(q) => Q::SpecE(q.edges.iter().map(from_edge).collect()),
        X::EdgeWithPropertyPresence(q) => Q::EProp(n(&q.name)),
        X::EdgeWithPropertyValue(q) => Q::EVal(n(&q.name), j(&q.value)),
        X::Pipe(q) => Q::Pipe { inner: b(&q.inner), dir: from_dir(q.direction), limit: q.limit, t: q.t.as_ref().map(n) },
        X::PipeProperty(q) => Q::Props { inner: b(&q.inner), name: q.name.as_ref().map(n) },
        X::PipeWithPropertyPresence(q) => Q::PProp { inner: b(&q.inner), name: n(&q.name), exists: q.exists },
        X::PipeWithPropertyValue(q) => Q::PVal { inner: b(&q.inner), name: n(&q.name), value: j(&q.value), equal: q.equal },
        X::Include(q) => Q::Include(b(&q.inner)),
        X::Count(q) => Q::Count(b(&q.inner)),
    }
}

pub fn from_item(i: &db::BulkInsertItem) -> Item {
    use db::BulkInsertItem as B;
    match i {
        B::Vertex(v) => Item::V(v.id, v.t.as_str().to_string()),
        B::Edge(e) => Item::E(from_edge(e)),
        B::VertexProperty(id, n, j) => Item::VP(*id, n.as_str().to_string(), J((*j.0).clone())),
        B::EdgeProperty(e, n, j) => Item::EP(from_edge(e), n.as_str().to_string(), J((*j.0).clone())),
    }
}

/// A query output as the code under test represents it.
pub fn output(o: &O) -> db::QueryOutputValue {
    use db::QueryOutputValue as X;
    let props = |p: &[(String, J)]| p.iter().map(|(n, j)| db::NamedProperty::new(ident(n), json(j))).collect::<Vec<_>>();
    match o {
        O::V(v) => X::Vertices(v.iter().map(|v| vertex(v.0, &v.1)).collect()),
        O::E(e) => X::Edges(e.iter().map(edge).collect()),
        O::N(n) => X::Count(*n),
        O::VP(v) => X::VertexProperties(v.iter().map(|(v, p)| db::VertexProperties::new(vertex(v.0, &v.1), props(p))).collect()),
        O::EP(v) => X::EdgeProperties(v.iter().map(|(e, p)| db::EdgeProperties::new(edge(e), props(p))).collect()),
    }
}

pub fn item(i: &Item) -> db::BulkInsertItem {
    use db::BulkInsertItem as B;
    match i {
        Item::V(id, t) => B::Vertex(vertex(*id, t)),
        Item::E(e) => B::Edge(edge(e)),
        Item::VP(id, n, j) => B::VertexProperty(*id, ident(n), json(j)),
        Item::EP(e, n, j) => B::EdgeProperty(edge(e), ident(n), json(j)),
    }
}

pub fn err(e: &db::Error) -> Out {
    use db::Error as X;
    let k = match e {
        X::UuidTaken => EK::UuidTaken,
        X::Datastore(_) => EK::Datastore,
        X::Io(_) => EK::Io,
        X::NotIndexed => EK::NotIndexed,
        X::Unsupported => EK::Unsupported,
        X::Invalid(_) => EK::Invalid,
        X::OperationOnQuery => EK::OpOnQuery,
        _ => EK::Other,
    };
    Out::Err(k, e.to_string())
}

thread_local! {
    static IDENTS: RefCell<HashMap<String, db::Identifier>> = RefCell::new(HashMap::new());
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Panics of guarded calls are recorded, not printed.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        if !quiet && !info.to_string().contains("injected") {
            old(info);
        }
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn guard(f: impl FnOnce() -> Out) -> Out {
    guarded(f).unwrap_or_else(Out::Panic)
}

pub fn unit(r: db::Result<()>) -> Out {
    match r {
        Ok(()) => Out::Unit,
        Err(e) => err(&e),
    }
}

/// Runs one operation on an embedded database.
pub fn apply<D: Datastore>(d: &Database<D>, op: &Op) -> Out {
    guard(|| match op {
        Op::CreateV(id, t) => match d.create_vertex(&vertex(*id, t)) {
            Ok(b) => Out::Bool(b),
            Err(e) => err(&e),
        },
        Op::CreateVT(t) => match d.create_vertex_from_type(ident(t)) {
            Ok(id) => Out::Id(id),
            Err(e) => err(&e),
        },
        Op::CreateE(e) => match d.create_edge(&edge(e)) {
            Ok(b) => Out::Bool(b),
            Err(e) => err(&e),
        },
        Op::Set(q, n, j) => unit(d.set_properties(query(q), ident(n), &json(j))),
        Op::Delete(q) => unit(d.delete(query(q))),
        Op::Bulk(items) => unit(d.bulk_insert(items.iter().map(item).collect())),
        Op::Index(n) => unit(d.index_property(ident(n))),
        Op::Sync => unit(d.sync()),
        Op::Get(q) => match d.get(query(q)) {
            Ok(o) => Out::Outs(o.iter().map(from_out).collect()),
            Err(e) => err(&e),
        },
        Op::Reopen(_) => unreachable!(),
    })
}

/// Something operations can be run against.
pub trait Store {
    fn apply(&mut self, op: &Op) -> Out;
    fn name(&self) -> &'static str;
    /// Looks at the content through the transaction interface, including at elements that do not exist.
    fn txn_probe(&mut self, _m: &Model, _x: &Mentions) -> R {
        Ok(())
    }
}

fn all<T>(i: db::Result<db::DynIter<'_, T>>) -> R<Vec<T>> {
    match i.and_then(|i| i.collect::<db::Result<Vec<T>>>()) {
        Ok(v) => Ok(v),
        Err(e) => fail("txn", format!("a transaction read failed: {e}")),
    }
}

fn some<T>(i: db::Result<Option<db::DynIter<'_, T>>>) -> R<Option<Vec<T>>> {
    match i {
        Ok(None) => Ok(None),
        Ok(Some(i)) => all(Ok(i)).map(Some),
        Err(e) => fail("txn", format!("a transaction read failed: {e}")),
    }
}

/// Compares what the transaction interface (what plugins see) gives with the model.
pub fn probe<D: Datastore>(d: &Database<D>, m: &Model, x: &Mentions) -> R {
    let r = guarded(|| {
        let txn = d.datastore.transaction();
        // the interface ties its borrows to the datastore's lifetime; the transaction outlives every use below
        let r = probe_txn(unsafe { &*(&txn as *const D::Transaction<'_>) }, m, x);
        r
    });
    match r {
        Ok(r) => r,
        Err(p) => fail("panic", format!("a transaction read panicked: {p}")),
    }
}

fn probe_txn<'a, T: db::Transaction<'a>>(t: &'a T, m: &Model, x: &Mentions) -> R {
    let ids: Vec<Uuid> = x.ids.iter().copied().collect();
    let edges: Vec<E> = x.edges.iter().cloned().collect();
    ensure!(t.vertex_count() == m.v.len() as u64, "txn-vertex-count", "vertex_count() = {}, but there are {}", t.vertex_count(), m.v.len());
    ensure!(t.edge_count() == m.e.len() as u64, "txn-edge-count", "edge_count() = {}, but there are {}", t.edge_count(), m.e.len());
    let vs: Vec<V> = all(t.all_vertices())?.iter().map(from_vertex).collect();
    let want: Vec<V> = m.v.iter().map(|(a, b)| (*a, b.clone())).collect();
    ensure!(vs == want, "txn-vertices", "all_vertices() = {vs:?}, expected {want:?}");
    let es: BTreeSet<E> = all(t.all_edges())?.iter().map(from_edge).collect();
    ensure!(es == m.e, "txn-edges", "all_edges() = {es:?}, expected {:?}", m.e);
    let vs: Vec<V> = all(t.specific_vertices(ids.clone()))?.iter().map(from_vertex).collect();
    let want: Vec<V> = ids.iter().filter_map(|i| m.v.get(i).map(|t| (*i, t.clone()))).collect();
    ensure!(vs == want, "txn-specific-vertices", "specific_vertices = {vs:?}, expected {want:?}");
    let es: Vec<E> = all(t.specific_edges(edges.iter().map(edge).collect()))?.iter().map(from_edge).collect();
    let want: Vec<E> = edges.iter().filter(|e| m.e.contains(e)).cloned().collect();
    ensure!(es == want, "txn-specific-edges", "specific_edges = {es:?}, expected {want:?}");
    for id in &ids {
        let vs: Vec<V> = all(t.range_vertices(*id))?.iter().map(from_vertex).collect();
        let want: Vec<V> = m.v.range(*id..).map(|(a, b)| (*a, b.clone())).collect();
        ensure!(vs == want, "txn-range-vertices", "range_vertices({id}) = {vs:?}, expected {want:?}");
        let from = db::Edge::new(*id, db::Identifier::default(), Uuid::nil());
        let es: Vec<E> = all(t.range_edges(from.clone()))?.iter().map(from_edge).collect();
        let set: BTreeSet<E> = es.iter().cloned().collect();
        let want: BTreeSet<E> = m.e.iter().filter(|e| e.o >= *id).cloned().collect();
        ensure!(set == want && es.len() == want.len(), "txn-range-edges", "range_edges from {id} = {es:?}, expected {want:?}");
        ensure!(es.windows(2).all(|w| w[0].o <= w[1].o), "txn-range-edges", "range_edges from {id} is out of order: {es:?}");
        let es: Vec<E> = all(t.range_reversed_edges(from))?.iter().map(from_edge).collect();
        let set: BTreeSet<E> = es.iter().map(|e| E { o: e.i, t: e.t.clone(), i: e.o }).collect();
        let want: BTreeSet<E> = m.e.iter().filter(|e| e.i >= *id).cloned().collect();
        ensure!(set == want && es.len() == want.len(), "txn-range-reversed", "range_reversed_edges from {id} = {es:?}, expected the reverse of {want:?}");
        let v = vertex(*id, m.v.get(id).map(|s| s.as_str()).unwrap_or(""));
        let mut ps: Vec<(String, J)> =
            all(t.all_vertex_properties_for_vertex(&v))?.into_iter().map(|(n, j)| (n.as_str().to_string(), J((*j.0).clone()))).collect();
        ps.sort();
        let want: Vec<(String, J)> = m.vp.iter().filter(|(k, _)| k.0 == *id).map(|(k, j)| (k.1.clone(), j.clone())).collect();
        ensure!(ps == want, "txn-vertex-properties", "the properties of vertex {id} ({}) are {ps:?}, expected {want:?}", if m.v.contains_key(id) { "present" } else { "absent" });
        for n in &x.names {
            let got = match t.vertex_property(&v, ident(n)) {
                Ok(j) => j.map(|j| J((*j.0).clone())),
                Err(e) => return fail("txn", format!("vertex_property failed: {e}")),
            };
            let want = m.vp.get(&(*id, n.clone())).cloned();
            ensure!(got == want, "txn-vertex-property", "property {n:?} of vertex {id} is {got:?}, expected {want:?}");
        }
    }
    for e in &edges {
        let mut ps: Vec<(String, J)> =
            all(t.all_edge_properties_for_edge(&edge(e)))?.into_iter().map(|(n, j)| (n.as_str().to_string(), J((*j.0).clone()))).collect();
        ps.sort();
        let want: Vec<(String, J)> = m.ep.iter().filter(|(k, _)| k.0 == *e).map(|(k, j)| (k.1.clone(), j.clone())).collect();
        ensure!(ps == want, "txn-edge-properties", "the properties of edge {e:?} ({}) are {ps:?}, expected {want:?}", if m.e.contains(e) { "present" } else { "absent" });
        for n in &x.names {
            let got = match t.edge_property(&edge(e), ident(n)) {
                Ok(j) => j.map(|j| J((*j.0).clone())),
                Err(e) => return fail("txn", format!("edge_property failed: {e}")),
            };
            let want = m.ep.get(&(e.clone(), n.clone())).cloned();
            ensure!(got == want, "txn-edge-property", "property {n:?} of edge {e:?} is {got:?}, expected {want:?}");
        }
    }
    for n in x.names.iter().chain(m.idx.iter()) {
        let vs = some(t.vertex_ids_with_property(ident(n)))?;
        let es = some(t.edges_with_property(ident(n)))?;
        ensure!(vs.is_some() == m.idx.contains(n) && es.is_some() == m.idx.contains(n), "txn-indexed", "property {n:?}: indexed is {:?}/{:?}, expected {}", vs.is_some(), es.is_some(), m.idx.contains(n));
        if let (Some(mut vs), Some(es)) = (vs, es) {
            vs.sort();
            let mut es: Vec<E> = es.iter().map(from_edge).collect();
            es.sort();
            let wv: Vec<Uuid> = m.vp.keys().filter(|k| k.1 == *n).map(|k| k.0).collect();
            let we: Vec<E> = m.ep.keys().filter(|k| k.1 == *n).map(|k| k.0.clone()).collect();
            ensure!(vs == wv, "txn-index", "vertices with property {n:?}: {vs:?}, expected {wv:?}");
            ensure!(es == we, "txn-index", "edges with property {n:?}: {es:?}, expected {we:?}");
        }
    }
    Ok(())
}

impl Store for Database<MemoryDatastore> {
    fn apply(&mut self, op: &Op) -> Out {
        apply(self, op)
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        probe(self, m, x)
    }
    fn name(&self) -> &'static str {
        "memory"
    }
}

impl Store for Database<RocksdbDatastore> {
    fn apply(&mut self, op: &Op) -> Out {
        apply(self, op)
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        probe(self, m, x)
    }
    fn name(&self) -> &'static str {
        "rocksdb"
    }
}

// ---- scratch space ----

static COUNTER: AtomicU64 = AtomicU64::new(0);

/// The run's own scratch directory, on tmpfs where there is one.
pub fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(base).join(format!("indradb-verif-{}", std::process::id()))
}

/// A fresh directory path, removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let p = scratch_root().join(format!("s{}", COUNTER.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("create scratch directory");
        Scratch(p)
    }
    pub fn path(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn small_options() -> rocksdb::Options {
    // indra's own options, with few files kept open; small cases need no more
    let mut o = RocksdbDatastore::get_options(Some(64));
    o.set_keep_log_file_num(1);
    o.increase_parallelism(1);
    o.set_max_file_opening_threads(1);
    o
}

pub fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let n = e.file_name();
        if n != "LOG" && n != "LOCK" {
            std::fs::copy(e.path(), to.join(n)).unwrap();
        }
    }
}

fn template() -> &'static Path {
    static T: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut r = Rdb::with(true);
        r.db = None;
        let p = r.path();
        std::mem::forget(r.dir);
        p
    })
}

/// A RocksDB database in its own scratch directory.
pub struct Rdb {
    pub db: Option<Database<RocksdbDatastore>>,
    pub dir: Scratch,
}

impl Rdb {
    pub fn new() -> Rdb {
        Rdb::with(COUNTER.load(Ordering::Relaxed) % 16 == 0)
    }
    /// An empty database: created anew, or opened from a copy of one that was created and closed (which is a
    /// lot faster).
    pub fn with(anew: bool) -> Rdb {
        let dir = Scratch::new();
        let mut r = Rdb { db: None, dir };
        if !anew {
            copy_dir(template(), &r.path());
        }
        r.open(0).unwrap_or_else(|e| panic!("cannot create a RocksDB database: {e}"));
        r
    }
    pub fn path(&self) -> PathBuf {
        self.dir.path("db")
    }
    pub fn split(mut self) -> (Database<RocksdbDatastore>, Scratch) {
        let db = self.db.take().unwrap();
        (db, self.dir)
    }
    pub fn db(&self) -> &Database<RocksdbDatastore> {
        self.db.as_ref().unwrap()
    }
    /// Opens (or reopens) the database; `how` selects the way.
    pub fn open(&mut self, how: u8) -> Result<(), String> {
        self.db = None;
        let p = self.path();
        let r = guarded(|| match how % 6 {
            0 => RocksdbDatastore::new_db_with_options(&p, &small_options()),
            1 => RocksdbDatastore::new_db(&p),
            2 => {
                RocksdbDatastore::repair(&p, &RocksdbDatastore::get_options(Some(64)))?;
                RocksdbDatastore::new_db_with_options(&p, &small_options())
            }
            3 => RocksdbDatastore::new_db_with_options(&p, &RocksdbDatastore::get_options(Some(1))),
            4 => {
                let mut o = small_options();
                o.set_write_buffer_size(1 << 16);
                o.set_num_levels(7);
                o.set_compaction_style(rocksdb::DBCompactionStyle::Level);
                o.set_compression_type(rocksdb::DBCompressionType::None);
                RocksdbDatastore::new_db_with_options(&p, &o)
            }
            _ => {
                let mut o = rocksdb::Options::default();
                o.create_if_missing(true);
                o.set_max_open_files(100);
                RocksdbDatastore::new_db_with_options(&p, &o)
            }
        });
        match r {
            Ok(Ok(d)) => {
                self.db = Some(d);
                Ok(())
            }
            Ok(Err(e)) => Err(e.to_string()),
            Err(p) => Err(format!("panic: {p}")),
        }
    }
}

impl Store for Rdb {
    fn apply(&mut self, op: &Op) -> Out {
        if let Op::Reopen(how) = op {
            return match self.open(*how) {
                Ok(()) => Out::Unit,
                Err(e) => Out::Err(EK::Datastore, e),
            };
        }
        apply(self.db(), op)
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        probe(self.db(), m, x)
    }
    fn name(&self) -> &'static str {
        "rocksdb"
    }
}

/// A memory database, optionally with an image on disk.
pub struct Mem {
    pub db: Database<MemoryDatastore>,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { db: MemoryDatastore::new_db() }
    }
}

impl Store for Mem {
    fn apply(&mut self, op: &Op) -> Out {
        if let Op::Reopen(_) = op {
            return Out::Unit;
        }
        apply(&self.db, op)
    }
    fn txn_probe(&mut self, m: &Model, x: &Mentions) -> R {
        probe(&self.db, m, x)
    }
    fn name(&self) -> &'static str {
        "memory"
    }
}
