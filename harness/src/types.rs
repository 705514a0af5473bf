//! The harness's own vocabulary: values, queries, operations and outcomes. Everything is serialisable so
//! that any generated case can be written out as a replay file.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{Map, Number, Value};
use std::cmp::Ordering;
use uuid::Uuid;

/// A JSON value that survives being written to a replay file exactly (floats are written as bit patterns,
/// since the serde_json build under test does not read every float back exactly).
#[derive(Clone, Debug)]
pub struct J(pub Value);

impl J {
    /// A canonical text; two values are the same JSON value iff their keys are equal. Integers and floats are
    /// different values, floats are told apart by their bits.
    pub fn key(&self) -> String {
        let mut s = String::new();
        key(&self.0, &mut s);
        s
    }
}

thread_local! {
    static LOOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Compares with floats taken as equal when they agree in 14 digits (see the known finding about floats that
/// change in their last bit when sent as text).
pub fn loosely<T>(f: impl FnOnce() -> T) -> T {
    LOOSE.with(|l| l.set(true));
    let r = f();
    LOOSE.with(|l| l.set(false));
    r
}

fn key(v: &Value, out: &mut String) {
    use std::fmt::Write;
    match v {
        Value::Null => out.push('n'),
        Value::Bool(b) => out.push(if *b { 't' } else { 'f' }),
        Value::Number(n) => {
            if n.is_f64() {
                let f = n.as_f64().unwrap();
                if LOOSE.with(|l| l.get()) {
                    write!(out, "F{f:.13e}").unwrap();
                } else {
                    write!(out, "F{:?}({:x})", f, f.to_bits()).unwrap();
                }
            } else {
                write!(out, "I{n}").unwrap();
            }
        }
        Value::String(s) => write!(out, "{s:?}").unwrap(),
        Value::Array(a) => {
            out.push('[');
            for x in a {
                key(x, out);
                out.push(',');
            }
            out.push(']');
        }
        Value::Object(o) => {
            out.push('{');
            let mut ks: Vec<_> = o.iter().collect();
            ks.sort_by(|a, b| a.0.cmp(b.0));
            for (k, x) in ks {
                write!(out, "{k:?}:").unwrap();
                key(x, out);
                out.push(',');
            }
            out.push('}');
        }
    }
}

impl PartialEq for J {
    fn eq(&self, o: &J) -> bool {
        self.key() == o.key()
    }
}
impl Eq for J {}
impl PartialOrd for J {
    fn partial_cmp(&self, o: &J) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for J {
    fn cmp(&self, o: &J) -> Ordering {
        self.key().cmp(&o.key())
    }
}

fn enc(v: &Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() => {
            let f = n.as_f64().unwrap();
            let mut m = Map::new();
            m.insert("$f64".into(), Value::String(format!("{:016x} {:?}", f.to_bits(), f)));
            Value::Object(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(enc).collect()),
        Value::Object(o) => {
            Value::Object(o.iter().map(|(k, v)| (if k.starts_with('$') { format!("${k}") } else { k.clone() }, enc(v))).collect())
        }
        _ => v.clone(),
    }
}

fn dec(v: &Value) -> Option<Value> {
    Some(match v {
        Value::Number(n) if n.is_f64() => return None,
        Value::Array(a) => Value::Array(a.iter().map(dec).collect::<Option<_>>()?),
        Value::Object(o) => {
            if let (1, Some(Value::String(s))) = (o.len(), o.get("$f64")) {
                let bits = u64::from_str_radix(s.split(' ').next()?, 16).ok()?;
                return Some(Value::Number(Number::from_f64(f64::from_bits(bits))?));
            }
            let mut m = Map::new();
            for (k, v) in o {
                let k = if let Some(r) = k.strip_prefix('$') {
                    if !r.starts_with('$') {
                        return None;
                    }
                    r.to_string()
                } else {
                    k.clone()
                };
                m.insert(k, dec(v)?);
            }
            Value::Object(m)
        }
        _ => v.clone(),
    })
}

impl Serialize for J {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        enc(&self.0).serialize(s)
    }
}
impl<'de> Deserialize<'de> for J {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<J, D::Error> {
        let v = Value::deserialize(d)?;
        dec(&v).map(J).ok_or_else(|| serde::de::Error::custom("not an encoded JSON value"))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct E {
    pub o: Uuid,
    pub t: String,
    pub i: Uuid,
}

pub type V = (Uuid, String);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dir {
    Out,
    In,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Q {
    AllV,
    RangeV { limit: u32, t: Option<String>, start: Option<Uuid> },
    SpecV(Vec<Uuid>),
    VProp(String),
    VVal(String, J),
    AllE,
    SpecE(Vec<E>),
    EProp(String),
    EVal(String, J),
    Pipe { inner: Box<Q>, dir: Dir, limit: u32, t: Option<String> },
    Props { inner: Box<Q>, name: Option<String> },
    PProp { inner: Box<Q>, name: String, exists: bool },
    PVal { inner: Box<Q>, name: String, value: J, equal: bool },
    Include(Box<Q>),
    Count(Box<Q>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    V(Uuid, String),
    E(E),
    VP(Uuid, String, J),
    EP(E, String, J),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    CreateV(Uuid, String),
    CreateVT(String),
    CreateE(E),
    Set(Q, String, J),
    Delete(Q),
    Bulk(Vec<Item>),
    Index(String),
    Sync,
    Get(Q),
    /// Close and open again; the number selects how (plain, repair, options).
    Reopen(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum O {
    V(Vec<V>),
    E(Vec<E>),
    N(u64),
    VP(Vec<(V, Vec<(String, J)>)>),
    EP(Vec<(E, Vec<(String, J)>)>),
}

impl O {
    pub fn len(&self) -> u64 {
        match self {
            O::V(x) => x.len() as u64,
            O::E(x) => x.len() as u64,
            O::N(n) => *n,
            O::VP(x) => x.len() as u64,
            O::EP(x) => x.len() as u64,
        }
    }
    /// As a multiset, with properties in name order.
    pub fn sorted(&self) -> O {
        let mut o = self.normal();
        match &mut o {
            O::V(x) => x.sort(),
            O::E(x) => x.sort(),
            O::N(_) => {}
            O::VP(x) => x.sort(),
            O::EP(x) => x.sort(),
        }
        o
    }
    /// With each element's properties in name order (their order is not specified).
    pub fn normal(&self) -> O {
        let mut o = self.clone();
        match &mut o {
            O::VP(x) => x.iter_mut().for_each(|p| p.1.sort()),
            O::EP(x) => x.iter_mut().for_each(|p| p.1.sort()),
            _ => {}
        }
        o
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum EK {
    UuidTaken,
    Datastore,
    Io,
    NotIndexed,
    Unsupported,
    Invalid,
    OpOnQuery,
    /// A gRPC or client error; only used by stores behind a transport.
    Remote,
    Other,
}

#[derive(Clone, Debug)]
pub enum Out {
    Unit,
    Bool(bool),
    Id(Uuid),
    Outs(Vec<O>),
    Err(EK, String),
    Panic(String),
}

impl Out {
    /// Equality of outcomes up to the error message.
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Unit, Out::Unit) => true,
            (Out::Bool(a), Out::Bool(b)) => a == b,
            (Out::Id(a), Out::Id(b)) => a == b,
            (Out::Outs(a), Out::Outs(b)) => a == b,
            (Out::Err(a, _), Out::Err(b, _)) => a == b || *a == EK::Remote || *b == EK::Remote,
            _ => false,
        }
    }
}

/// A broken property. `kind` is a short stable label used to keep shrinking on the same failure.
#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Fail>;

pub fn fail<T>(kind: &str, msg: impl Into<String>) -> R<T> {
    let mut msg: String = msg.into();
    if msg.len() > 4000 {
        let mut n = 4000;
        while !msg.is_char_boundary(n) {
            n -= 1;
        }
        msg.truncate(n);
        msg.push('…');
    }
    Err(Fail { kind: kind.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::types::fail($kind, format!($($arg)*));
        }
    };
}
