//! The harness's own reading of indradb.proto: encoders and strict decoders that do not use the code under test.
use crate::types::*;
use indradb_proto as p;
use uuid::Uuid;

/// The rule for type and property names.
pub fn valid_name(s: &str) -> bool {
    s.len() <= 255 && s.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric())
}

pub fn p_id(id: &Uuid) -> p::Uuid {
    p::Uuid { value: id.as_bytes().to_vec() }
}
pub fn p_name(s: &str) -> p::Identifier {
    p::Identifier { value: s.to_string() }
}
pub fn p_json(j: &J) -> p::Json {
    p::Json { value: serde_json::to_string(&j.0).unwrap() }
}
pub fn p_edge(e: &E) -> p::Edge {
    p::Edge { outbound_id: Some(p_id(&e.o)), t: Some(p_name(&e.t)), inbound_id: Some(p_id(&e.i)) }
}
pub fn p_vertex(v: &V) -> p::Vertex {
    p::Vertex { id: Some(p_id(&v.0)), t: Some(p_name(&v.1)) }
}
pub fn p_query(q: &Q) -> p::Query {
    use p::QueryVariant as X;
    let inner = |q: &Q| Some(Box::new(p_query(q)));
    let v = match q {
        Q::AllV => X::AllVertex(()),
        Q::RangeV { limit, t, start } => {
            X::RangeVertex(p::RangeVertexQuery { limit: *limit, t: t.as_deref().map(p_name), start_id: start.as_ref().map(p_id) })
        }
        Q::SpecV(ids) => X::SpecificVertex(p::SpecificVertexQuery { ids: ids.iter().map(p_id).collect() }),
        Q::VProp(n) => X::VertexWithPropertyPresence(p::VertexWithPropertyPresenceQuery { name: Some(p_name(n)) }),
        Q::VVal(n, j) => X::VertexWithPropertyValue(p::VertexWithPropertyValueQuery { name: Some(p_name(n)), value: Some(p_json(j)) }),
        Q::AllE => X::AllEdge(()),
        Q::SpecE(es) => X::SpecificEdge(p::SpecificEdgeQuery { edges: es.iter().map(p_edge).collect() }),
        Q::EProp(n) => X::EdgeWithPropertyPresence(p::EdgeWithPropertyPresenceQuery { name: Some(p_name(n)) }),
        Q::EVal(n, j) => X::EdgeWithPropertyValue(p::EdgeWithPropertyValueQuery { name: Some(p_name(n)), value: Some(p_json(j)) }),
        Q::Pipe { inner: i, dir, limit, t } => X::Pipe(Box::new(p::PipeQuery {
            inner: inner(i),
            direction: if *dir == Dir::Out { 0 } else { 1 },
            limit: *limit,
            t: t.as_deref().map(p_name),
        })),
        Q::Props { inner: i, name } => X::PipeProperty(Box::new(p::PipePropertyQuery { inner: inner(i), name: name.as_deref().map(p_name) })),
        Q::PProp { inner: i, name, exists } => {
            X::PipeWithPropertyPresence(Box::new(p::PipeWithPropertyPresenceQuery { inner: inner(i), name: Some(p_name(name)), exists: *exists }))
        }
        Q::PVal { inner: i, name, value, equal } => X::PipeWithPropertyValue(Box::new(p::PipeWithPropertyValueQuery {
            inner: inner(i),
            name: Some(p_name(name)),
            value: Some(p_json(value)),
            equal: *equal,
        })),
        Q::Include(i) => X::Include(Box::new(p::IncludeQuery { inner: inner(i) })),
        Q::Count(i) => X::Count(Box::new(p::CountQuery { inner: inner(i) })),
    };
    p::Query { query: Some(v) }
}
pub fn p_named(x: &(String, J)) -> p::NamedProperty {
    p::NamedProperty { name: Some(p_name(&x.0)), value: Some(p_json(&x.1)) }
}
pub fn p_out(o: &O) -> p::QueryOutputValue {
    use p::QueryOutputValueVariant as X;
    p::QueryOutputValue {
        value: Some(match o {
            O::V(v) => X::Vertices(p::QueryOutputVertices { vertices: v.iter().map(p_vertex).collect() }),
            O::E(e) => X::Edges(p::QueryOutputEdges { edges: e.iter().map(p_edge).collect() }),
            O::N(n) => X::Count(*n),
            O::VP(v) => X::VertexProperties(p::QueryOutputVertexProperties {
                vertex_properties: v
                    .iter()
                    .map(|(v, ps)| p::VertexProperties { vertex: Some(p_vertex(v)), props: ps.iter().map(p_named).collect() })
                    .collect(),
            }),
            O::EP(v) => X::EdgeProperties(p::QueryOutputEdgeProperties {
                edge_properties: v.iter().map(|(e, ps)| p::EdgeProperties { edge: Some(p_edge(e)), props: ps.iter().map(p_named).collect() }).collect(),
            }),
        }),
    }
}
pub fn p_item(i: &Item) -> p::BulkInsertItem {
    use p::BulkInsertItemVariant as X;
    p::BulkInsertItem {
        item: Some(match i {
            Item::V(id, t) => X::Vertex(p_vertex(&(*id, t.clone()))),
            Item::E(e) => X::Edge(p_edge(e)),
            Item::VP(id, n, j) => {
                X::VertexProperty(p::VertexPropertyBulkInsertItem { id: Some(p_id(id)), name: Some(p_name(n)), value: Some(p_json(j)) })
            }
            Item::EP(e, n, j) => X::EdgeProperty(p::EdgePropertyBulkInsertItem { edge: Some(p_edge(e)), name: Some(p_name(n)), value: Some(p_json(j)) }),
        }),
    }
}

/// Why a message is not a valid value; `Unspecified` where the protocol does not say.
#[derive(Debug, PartialEq)]
pub enum Bad {
    Malformed,
    Unspecified,
}
type D<T> = Result<T, Bad>;

fn need<T>(x: &Option<T>) -> D<&T> {
    x.as_ref().ok_or(Bad::Malformed)
}
fn maybe<T, U>(x: &Option<T>, f: impl Fn(&T) -> D<U>) -> D<Option<U>> {
    x.as_ref().map(f).transpose()
}
fn list<T, U>(x: &[T], f: impl Fn(&T) -> D<U>) -> D<Vec<U>> {
    // the first malformed part decides, whatever is unspecified elsewhere
    let all: Vec<D<U>> = x.iter().map(f).collect();
    if all.iter().any(|r| matches!(r, Err(Bad::Malformed))) {
        return Err(Bad::Malformed);
    }
    all.into_iter().collect()
}
pub fn d_id(x: &p::Uuid) -> D<Uuid> {
    let b: [u8; 16] = x.value.as_slice().try_into().map_err(|_| Bad::Malformed)?;
    Ok(Uuid::from_bytes(b))
}
pub fn d_name(x: &p::Identifier) -> D<String> {
    if valid_name(&x.value) {
        Ok(x.value.clone())
    } else {
        Err(Bad::Malformed)
    }
}
pub fn d_json(x: &p::Json) -> D<J> {
    serde_json::from_str(&x.value).map(J).map_err(|_| Bad::Malformed)
}
pub fn d_edge(x: &p::Edge) -> D<E> {
    Ok(E { o: d_id(need(&x.outbound_id)?)?, t: d_name(need(&x.t)?)?, i: d_id(need(&x.inbound_id)?)? })
}
pub fn d_vertex(x: &p::Vertex) -> D<V> {
    Ok((d_id(need(&x.id)?)?, d_name(need(&x.t)?)?))
}
fn d_inner(x: &Option<Box<p::Query>>) -> D<Box<Q>> {
    Ok(Box::new(d_query(need(x)?)?))
}
pub fn d_query(x: &p::Query) -> D<Q> {
    use p::QueryVariant as X;
    Ok(match need(&x.query)? {
        X::AllVertex(()) => Q::AllV,
        X::RangeVertex(q) => Q::RangeV { limit: q.limit, t: maybe(&q.t, d_name)?, start: maybe(&q.start_id, d_id)? },
        X::SpecificVertex(q) => Q::SpecV(list(&q.ids, d_id)?),
        X::VertexWithPropertyPresence(q) => Q::VProp(d_name(need(&q.name)?)?),
        X::VertexWithPropertyValue(q) => Q::VVal(d_name(need(&q.name)?)?, d_json(need(&q.value)?)?),
        X::AllEdge(()) => Q::AllE,
        X::SpecificEdge(q) => Q::SpecE(list(&q.edges, d_edge)?),
        X::EdgeWithPropertyPresence(q) => Q::EProp(d_name(need(&q.name)?)?),
        X::EdgeWithPropertyValue(q) => Q::EVal(d_name(need(&q.name)?)?, d_json(need(&q.value)?)?),
        X::Pipe(q) => {
            let t = maybe(&q.t, d_name)?;
            let inner = d_inner(&q.inner)?;
            let dir = match q.direction {
                0 => Dir::Out,
                1 => Dir::In,
                _ => return Err(Bad::Unspecified),
            };
            Q::Pipe { inner, dir, limit: q.limit, t }
        }
        X::PipeProperty(q) => {
            let name = maybe(&q.name, d_name)?;
            Q::Props { inner: d_inner(&q.inner)?, name }
        }
        X::PipeWithPropertyPresence(q) => {
            let name = d_name(need(&q.name)?)?;
            Q::PProp { inner: d_inner(&q.inner)?, name, exists: q.exists }
        }
        X::PipeWithPropertyValue(q) => {
            let (name, value) = (d_name(need(&q.name)?)?, d_json(need(&q.value)?)?);
            Q::PVal { inner: d_inner(&q.inner)?, name, value, equal: q.equal }
        }
        X::Include(q) => Q::Include(d_inner(&q.inner)?),
        X::Count(q) => Q::Count(d_inner(&q.inner)?),
    })
}
pub fn d_named(x: &p::NamedProperty) -> D<(String, J)> {
    Ok((d_name(need(&x.name)?)?, d_json(need(&x.value)?)?))
}
pub fn d_out(x: &p::QueryOutputValue) -> D<O> {
    use p::QueryOutputValueVariant as X;
    Ok(match need(&x.value)? {
        X::Vertices(v) => O::V(list(&v.vertices, d_vertex)?),
        X::Edges(e) => O::E(list(&e.edges, d_edge)?),
        X::Count(n) => O::N(*n),
        X::VertexProperties(v) => O::VP(list(&v.vertex_properties, |x| Ok((d_vertex(need(&x.vertex)?)?, list(&x.props, d_named)?)))?),
        X::EdgeProperties(v) => O::EP(list(&v.edge_properties, |x| Ok((d_edge(need(&x.edge)?)?, list(&x.props, d_named)?)))?),
    })
}
pub fn d_item(x: &p::BulkInsertItem) -> D<Item> {
    use p::BulkInsertItemVariant as X;
    Ok(match need(&x.item)? {
        X::Vertex(v) => {
            let v = d_vertex(v)?;
            Item::V(v.0, v.1)
        }
        X::Edge(e) => Item::E(d_edge(e)?),
        X::VertexProperty(i) => Item::VP(d_id(need(&i.id)?)?, d_name(need(&i.name)?)?, d_json(need(&i.value)?)?),
        X::EdgeProperty(i) => Item::EP(d_edge(need(&i.edge)?)?, d_name(need(&i.name)?)?, d_json(need(&i.value)?)?),
    })
}
pub fn d_set(x: &p::SetPropertiesRequest) -> D<(Q, String, J)> {
    let (n, j) = (d_name(need(&x.name)?)?, d_json(need(&x.value)?)?);
    Ok((d_query(need(&x.q)?)?, n, j))
}
pub fn d_index(x: &p::IndexPropertyRequest) -> D<String> {
    d_name(need(&x.name)?)
}

// ---- places inside a message where something can be made wrong ----

pub enum Site<'a> {
    Id(&'a mut Option<p::Uuid>),
    InId(&'a mut p::Uuid),
    Name(&'a mut Option<p::Identifier>),
    OptId(&'a mut Option<p::Uuid>),
    OptName(&'a mut Option<p::Identifier>),
    Json(&'a mut Option<p::Json>),
    Inner(&'a mut Option<Box<p::Query>>),
    Query(&'a mut p::Query),
    OptQuery(&'a mut Option<p::Query>),
    Out(&'a mut p::QueryOutputValue),
    Item(&'a mut p::BulkInsertItem),
    OptVertex(&'a mut Option<p::Vertex>),
    OptEdge(&'a mut Option<p::Edge>),
}
type F<'f> = &'f mut dyn FnMut(Site);

pub fn s_edge(e: &mut p::Edge, f: F) {
    f(Site::Id(&mut e.outbound_id));
    f(Site::Name(&mut e.t));
    f(Site::Id(&mut e.inbound_id));
}
pub fn s_vertex(v: &mut p::Vertex, f: F) {
    f(Site::Id(&mut v.id));
    f(Site::Name(&mut v.t));
}
pub fn s_query(q: &mut p::Query, f: F) {
    use p::QueryVariant as X;
    fn inner(q: &mut Option<Box<p::Query>>, f: F) {
        if let Some(q) = q {
            s_query(q, f);
        }
        f(Site::Inner(q));
    }
    match &mut q.query {
        None | Some(X::AllVertex(())) | Some(X::AllEdge(())) => {}
        Some(X::RangeVertex(q)) => {
            f(Site::OptName(&mut q.t));
            f(Site::OptId(&mut q.start_id));
        }
        Some(X::SpecificVertex(q)) => q.ids.iter_mut().for_each(|i| f(Site::InId(i))),
        Some(X::VertexWithPropertyPresence(q)) => f(Site::Name(&mut q.name)),
        Some(X::VertexWithPropertyValue(q)) => {
            f(Site::Name(&mut q.name));
            f(Site::Json(&mut q.value));
        }
        Some(X::SpecificEdge(q)) => q.edges.iter_mut().for_each(|e| s_edge(e, f)),
        Some(X::EdgeWithPropertyPresence(q)) => f(Site::Name(&mut q.name)),
        Some(X::EdgeWithPropertyValue(q)) => {
            f(Site::Name(&mut q.name));
            f(Site::Json(&mut q.value));
        }
        Some(X::Pipe(q)) => {
            f(Site::OptName(&mut q.t));
            inner(&mut q.inner, f);
        }
        Some(X::PipeProperty(q)) => {
            f(Site::OptName(&mut q.name));
            inner(&mut q.inner, f);
        }
        Some(X::PipeWithPropertyPresence(q)) => {
            f(Site::Name(&mut q.name));
            inner(&mut q.inner, f);
        }
        Some(X::PipeWithPropertyValue(q)) => {
            f(Site::Name(&mut q.name));
            f(Site::Json(&mut q.value));
            inner(&mut q.inner, f);
        }
        Some(X::Include(q)) => inner(&mut q.inner, f),
        Some(X::Count(q)) => inner(&mut q.inner, f),
    }
    f(Site::Query(q));
}
fn s_named(x: &mut p::NamedProperty, f: F) {
    f(Site::Name(&mut x.name));
    f(Site::Json(&mut x.value));
}
pub fn s_out(o: &mut p::QueryOutputValue, f: F) {
    use p::QueryOutputValueVariant as X;
    match &mut o.value {
        None | Some(X::Count(_)) => {}
        Some(X::Vertices(v)) => v.vertices.iter_mut().for_each(|v| s_vertex(v, f)),
        Some(X::Edges(v)) => v.edges.iter_mut().for_each(|v| s_edge(v, f)),
        Some(X::VertexProperties(v)) => v.vertex_properties.iter_mut().for_each(|x| {
            x.props.iter_mut().for_each(|p| s_named(p, f));
            if let Some(v) = &mut x.vertex {
                s_vertex(v, f);
            }
            f(Site::OptVertex(&mut x.vertex));
        }),
        Some(X::EdgeProperties(v)) => v.edge_properties.iter_mut().for_each(|x| {
            x.props.iter_mut().for_each(|p| s_named(p, f));
            if let Some(e) = &mut x.edge {
                s_edge(e, f);
            }
            f(Site::OptEdge(&mut x.edge));
        }),
    }
    f(Site::Out(o));
}
pub fn s_item(i: &mut p::BulkInsertItem, f: F) {
    use p::BulkInsertItemVariant as X;
    match &mut i.item {
        None => {}
        Some(X::Vertex(v)) => s_vertex(v, f),
        Some(X::Edge(e)) => s_edge(e, f),
        Some(X::VertexProperty(i)) => {
            f(Site::Id(&mut i.id));
            f(Site::Name(&mut i.name));
            f(Site::Json(&mut i.value));
        }
        Some(X::EdgeProperty(i)) => {
            if let Some(e) = &mut i.edge {
                s_edge(e, f);
            }
            f(Site::OptEdge(&mut i.edge));
            f(Site::Name(&mut i.name));
            f(Site::Json(&mut i.value));
        }
    }
    f(Site::Item(i));
}
pub fn s_set(x: &mut p::SetPropertiesRequest, f: F) {
    if let Some(q) = &mut x.q {
        s_query(q, f);
    }
    f(Site::OptQuery(&mut x.q));
    f(Site::Name(&mut x.name));
    f(Site::Json(&mut x.value));
}

const BAD_NAMES: &[&str] = &["$", "a b", "a.b", "a/", "é$", "\u{0}", "a\n", "🦀", "a\u{301}", " ", "a:b", "\u{200d}", "%", "a+b", "~", "'"];
const BAD_JSON: &[&str] = &[
    "", "{", "nul", "1 2", "[1,]", "\u{0}", "'a'", "NaN", "Infinity", "-Infinity", "01", "\"", "{\"a\"}", "[1", "1e999", "+1", "\"\\x\"", "\"\\ud800\"", "tru", "{a:1}", ",", "// x", "1.", ".5",
];

fn bad_id(k: u32, id: &mut p::Uuid) {
    match k % 6 {
        0 => id.value.clear(),
        1 => {
            id.value.pop();
        }
        2 => id.value.push(0),
        3 => id.value = id.value.repeat(2),
        4 => id.value = id.value.iter().map(|b| format!("{b:02x}")).collect::<String>().into_bytes(),
        _ => id.value = vec![0],
    }
}
fn bad_name(k: u32, n: &mut p::Identifier) {
    match k % 8 {
        0 => n.value = "a".repeat(256),
        1 => n.value = "é".repeat(128),
        2 => n.value.push('$'),
        3 => n.value.insert(0, ' '),
        4 => n.value = "x".repeat(70000),
        _ => n.value = BAD_NAMES[(k / 8) as usize % BAD_NAMES.len()].into(),
    }
}

/// Breaks what is at a site in the way `k` selects. Returns false if there is nothing to break there.
pub fn spoil(s: Site, k: u32) -> bool {
    match s {
        Site::Id(x) => {
            if k % 3 == 0 || x.is_none() {
                *x = None
            } else {
                bad_id(k / 3, x.as_mut().unwrap())
            }
        }
        Site::InId(x) => bad_id(k, x),
        Site::Name(x) => {
            if k % 3 == 0 || x.is_none() {
                *x = None
            } else {
                bad_name(k / 3, x.as_mut().unwrap())
            }
        }
        Site::OptId(x) => bad_id(k, x.get_or_insert_with(|| p_id(&Uuid::nil()))),
        Site::OptName(x) => bad_name(k, x.get_or_insert_with(|| p_name("a"))),
        Site::Json(x) => {
            if k % 4 == 0 || x.is_none() {
                *x = None
            } else if k % 4 == 1 {
                let t = &mut x.as_mut().unwrap().value;
                t.push_str([" x", "]", "}", "\"", ",", " 1"][(k / 4) as usize % 6]);
                return serde_json::from_str::<serde_json::Value>(t).is_err();
            } else {
                x.as_mut().unwrap().value = BAD_JSON[(k / 4) as usize % BAD_JSON.len()].into()
            }
        }
        Site::Inner(x) => *x = None,
        Site::Query(x) => x.query = None,
        Site::OptQuery(x) => *x = None,
        Site::Out(x) => x.value = None,
        Site::Item(x) => x.item = None,
        Site::OptVertex(x) => *x = None,
        Site::OptEdge(x) => *x = None,
    }
    true
}
