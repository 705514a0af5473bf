//! A plugin for the checks: it runs the steps it is given on the transaction it is given and returns what each
//! step answered.
use indradb::{Edge, Identifier, Json, Transaction, Vertex};
use indradb_plugin_host as host;
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use uuid::Uuid;

struct Steps;

type R<T> = Result<T, host::Error>;

fn bad(what: &str) -> host::Error {
    host::Error::InvalidArgument(format!("bad step: {what}"))
}

fn s(v: &Value) -> R<&str> {
    v.as_str().ok_or_else(|| bad("string"))
}

fn id(v: &Value) -> R<Uuid> {
    Uuid::parse_str(s(v)?).map_err(|_| bad("id"))
}

fn name(v: &Value) -> R<Identifier> {
    Identifier::new(s(v)?).map_err(|_| bad("name"))
}

fn edge(v: &Value) -> R<Edge> {
    Ok(Edge::new(id(&v[0])?, name(&v[1])?, id(&v[2])?))
}

fn list<T>(v: &Value, f: impl Fn(&Value) -> R<T>) -> R<Vec<T>> {
    v.as_array().ok_or_else(|| bad("list"))?.iter().map(f).collect()
}

fn jv(v: &Vertex) -> Value {
    json!([v.id.to_string(), v.t.as_str()])
}

fn je(e: &Edge) -> Value {
    json!([e.outbound_id.to_string(), e.t.as_str(), e.inbound_id.to_string()])
}

fn jp(v: Option<Json>) -> Value {
    v.map_or(Value::Null, |j| json!([(*j.0).clone()]))
}

struct Mapper {
    threads: usize,
    failing: HashSet<Uuid>,
    pause: u64,
    calls: Mutex<Vec<Value>>,
    begun: AtomicUsize,
    done: AtomicUsize,
}

thread_local! {
    static TURN: Cell<u64> = const { Cell::new(0) };
}

impl host::util::VertexMapper for Mapper {
    fn num_threads(&self) -> usize {
        self.threads
    }
    fn map(&self, v: Vertex) -> R<()> {
        self.begun.fetch_add(1, Ordering::SeqCst);
        let turn = TURN.with(|t| {
            t.set(t.get() + 1);
            t.get()
        });
        if self.pause > 0 && turn % self.pause == 0 {
            std::thread::sleep(std::time::Duration::from_micros(300));
        }
        self.calls.lock().unwrap().push(jv(&v));
        let r = if self.failing.contains(&v.id) { Err(host::Error::Other(format!("failed at {}", v.id).into())) } else { Ok(()) };
        self.done.fetch_add(1, Ordering::SeqCst);
        r
    }
}

fn step<'a>(txn: &mut (dyn Transaction<'a> + 'a), st: &Value) -> R<Value> {
    // the transaction's readers want to be borrowed for its whole life
    let p = txn as *const (dyn Transaction<'a> + 'a);
    let all = unsafe { &*p };
    Ok(match s(&st[0])? {
        "create-vertex" => json!(txn.create_vertex(&Vertex::with_id(id(&st[1])?, name(&st[2])?))?),
        "create-edge" => json!(txn.create_edge(&edge(&st[1])?)?),
        "set-vertices" => {
            txn.set_vertex_properties(list(&st[1], id)?, name(&st[2])?, &Json::new(st[3].clone()))?;
            Value::Null
        }
        "set-edges" => {
            txn.set_edge_properties(list(&st[1], edge)?, name(&st[2])?, &Json::new(st[3].clone()))?;
            Value::Null
        }
        "delete-vertices" => {
            let ids: HashSet<Uuid> = list(&st[1], id)?.into_iter().collect();
            let mut vs = vec![];
            for v in all.all_vertices()? {
                let v = v?;
                if ids.contains(&v.id) {
                    vs.push(v);
                }
            }
            txn.delete_vertices(vs)?;
            Value::Null
        }
        "delete-edges" => {
            txn.delete_edges(list(&st[1], edge)?)?;
            Value::Null
        }
        "delete-vertex-properties" => {
            txn.delete_vertex_properties(list(&st[1], |x| Ok((id(&x[0])?, name(&x[1])?)))?)?;
            Value::Null
        }
        "delete-edge-properties" => {
            txn.delete_edge_properties(list(&st[1], |x| Ok((edge(&x[0])?, name(&x[1])?)))?)?;
            Value::Null
        }
        "index" => {
            txn.index_property(name(&st[1])?)?;
            Value::Null
        }
        "vertex-property" => {
            let v = Vertex::with_id(id(&st[1])?, Identifier::default());
            jp(txn.vertex_property(&v, name(&st[2])?)?)
        }
        "edge-property" => jp(txn.edge_property(&edge(&st[1])?, name(&st[2])?)?),
        "with-property" => {
            let n = name(&st[1])?;
            let vs = match all.vertex_ids_with_property(n)? {
                None => Value::Null,
                Some(i) => json!(i.map(|x| x.map(|u| u.to_string())).collect::<Result<Vec<_>, _>>()?),
            };
            let es = match all.edges_with_property(n)? {
                None => Value::Null,
                Some(i) => json!(i.map(|x| x.map(|e| je(&e))).collect::<Result<Vec<_>, _>>()?),
            };
            json!([vs, es])
        }
        "with-value" => {
            let (n, j) = (name(&st[1])?, Json::new(st[2].clone()));
            let vs = match all.vertex_ids_with_property_value(n, &j)? {
                None => Value::Null,
                Some(i) => json!(i.map(|x| x.map(|u| u.to_string())).collect::<Result<Vec<_>, _>>()?),
            };
            let es = match all.edges_with_property_value(n, &j)? {
                None => Value::Null,
                Some(i) => json!(i.map(|x| x.map(|e| je(&e))).collect::<Result<Vec<_>, _>>()?),
            };
            json!([vs, es])
        }
        "dump" => {
            let mut vs = vec![];
            for v in all.all_vertices()? {
                let v = v?;
                let mut ps = vec![];
                for p in all.all_vertex_properties_for_vertex(&v)? {
                    let (n, j) = p?;
                    ps.push(json!([n.as_str(), (*j.0).clone()]));
                }
                vs.push(json!([v.id.to_string(), v.t.as_str(), ps]));
            }
            let mut es = vec![];
            for e in all.all_edges()? {
                let e = e?;
                let mut ps = vec![];
                for p in all.all_edge_properties_for_edge(&e)? {
                    let (n, j) = p?;
                    ps.push(json!([n.as_str(), (*j.0).clone()]));
                }
                es.push(json!([e.outbound_id.to_string(), e.t.as_str(), e.inbound_id.to_string(), ps]));
            }
            json!([vs, es, txn.vertex_count(), txn.edge_count()])
        }
        // vertices and edges of a type, found by comparing types
        "of-type" => {
            let t = name(&st[1])?;
            let (mut vs, mut es) = (vec![], vec![]);
            for v in all.all_vertices()? {
                let v = v?;
                if v.t == t {
                    vs.push(v.id.to_string());
                }
            }
            for e in all.all_edges()? {
                let e = e?;
                if e.t == t {
                    es.push(je(&e));
                }
            }
            json!([vs, es])
        }
        "edges-there" => {
            let es = list(&st[1], edge)?;
            json!(all.specific_edges(es)?.map(|e| e.map(|e| je(&e))).collect::<Result<Vec<_>, _>>()?)
        }
        "map" => {
            let m = Arc::new(Mapper {
                threads: st[1].as_u64().ok_or_else(|| bad("threads"))? as usize,
                failing: list(&st[2], id)?.into_iter().collect(),
                pause: st[3].as_u64().unwrap_or(0),
                calls: Mutex::new(vec![]),
                begun: AtomicUsize::new(0),
                done: AtomicUsize::new(0),
            });
            let r = host::util::map(txn, m.clone());
            let (done, begun) = (m.done.load(Ordering::SeqCst), m.begun.load(Ordering::SeqCst));
            let calls = m.calls.lock().unwrap().clone();
            json!([calls, begun, done, r.err().map(|e| e.to_string())])
        }
        "fail" => {
            return Err(match s(&st[1])? {
                "argument" => host::Error::InvalidArgument(s(&st[2])?.to_string()),
                "json" => host::Error::Json(serde_json::from_str::<Value>("{").unwrap_err()),
                "indradb" => host::Error::IndraDB(indradb::Error::NotIndexed),
                _ => host::Error::Other(s(&st[2])?.into()),
            })
        }
        x => return Err(bad(x)),
    })
}

impl host::Plugin for Steps {
    fn call<'a>(&self, txn: &mut (dyn Transaction<'a> + 'a), arg: Json) -> R<Json> {
        let steps = arg.as_array().ok_or_else(|| bad("no steps"))?;
        let mut out = vec![];
        for st in steps {
            out.push(step(txn, st)?);
        }
        Ok(Json::new(Value::Array(out)))
    }
}

struct Echo;

impl host::Plugin for Echo {
    fn call<'a>(&self, _txn: &mut (dyn Transaction<'a> + 'a), arg: Json) -> R<Json> {
        Ok(Json::new(json!([(*arg.0).clone()])))
    }
}

#[no_mangle]
pub unsafe extern "C" fn register() -> host::PluginDeclaration {
    let mut version_info = host::VersionInfo::default();
    // stand for a library built by another compiler or for another interface
    if let Ok(v) = std::env::var("VERIF_PLUGIN_RUSTC") {
        version_info.rustc = v;
    }
    if let Some(v) = std::env::var("VERIF_PLUGIN_INTERFACE").ok().and_then(|v| v.parse().ok()) {
        version_info.plugin_interface = v;
    }
    let mut entries: HashMap<String, Box<dyn host::Plugin>> = HashMap::new();
    entries.insert("steps".into(), Box::new(Steps));
    entries.insert("echo".into(), Box::new(Echo));
    host::PluginDeclaration { version_info, entries }
}
