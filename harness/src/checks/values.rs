//! C13 JSON values, C14 identifiers and keys, C15 ids, C16 protocol conversion.
use crate::driver::*;
use crate::gen::{self, chance, pick, Rand};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use crate::wire::*;
use crate::ensure;
use indradb as db;
use indradb_proto as p;
use prost::Message;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Barrier};
use uuid::Uuid;

// ---------------------------------------------------------------- C13

/// A value that differs from the given one in one small respect (or, seldom, in none).
pub fn tweak(r: &mut Rand, v: &Value) -> Value {
    if let (Value::Array(_) | Value::Object(_), true) = (v, chance(r, 0.6)) {
        let mut v = v.clone();
        match &mut v {
            Value::Array(a) if !a.is_empty() => {
                let i = r.gen_range(0..a.len());
                match r.gen_range(0..6) {
                    0 => {
                        a.remove(i);
                    }
                    1 => a.insert(i, Value::Null),
                    2 => {
                        let j = r.gen_range(0..a.len());
                        a.swap(i, j)
                    }
                    3 if a.len() > 1 => {
                        // nest a tail one deeper
                        let tail = a.split_off(i);
                        a.push(Value::Array(tail));
                    }
                    _ => a[i] = tweak(r, &a[i].clone()),
                }
            }
            Value::Object(o) if !o.is_empty() => {
                let i = r.gen_range(0..o.len());
                let k = o.keys().nth(i).unwrap().clone();
                match r.gen_range(0..5) {
                    0 => {
                        o.remove(&k);
                    }
                    1 => {
                        let x = o.remove(&k).unwrap();
                        o.insert(format!("{k}a"), x);
                    }
                    2 => {
                        // the same members, inserted in another order
                        let mut e: Vec<_> = std::mem::take(o).into_iter().collect();
                        e.reverse();
                        o.extend(e);
                    }
                    _ => {
                        let x = tweak(r, &o[&k]);
                        o.insert(k, x);
                    }
                }
            }
            _ => return if chance(r, 0.5) { json!([]) } else { json!({}) },
        }
        return v;
    }
    match (v, r.gen_range(0..6)) {
        (_, 0) => json!([v]),
        (_, 1) => json!({"": v}),
        (Value::Number(n), _) => {
            if n.is_f64() {
                let f = n.as_f64().unwrap();
                let c: Vec<Value> = vec![json!(-f), json!(f as i64), json!(f as u64), json!(f64::from_bits(f.to_bits().wrapping_add(1))), json!(f64::from_bits(f.to_bits().wrapping_sub(1))), json!(f * 2.0)];
                let c: Vec<Value> = c.into_iter().filter(|v| !v.is_null() && (!v.is_f64() || gen::roundtrips(v.as_f64().unwrap()))).collect();
                pick(r, &c).clone()
            } else {
                let i = n.as_i64().map(i128::from).or(n.as_u64().map(i128::from)).unwrap();
                let c = [i + 1, i - 1, -i, i ^ (1 << 53), i + (1 << 32)];
                let j = *pick(r, &c);
                if chance(r, 0.3) && gen::roundtrips(i as f64) {
                    json!(i as f64)
                } else if let Ok(j) = i64::try_from(j) {
                    json!(j)
                } else if let Ok(j) = u64::try_from(j) {
                    json!(j)
                } else {
                    json!(0)
                }
            }
        }
        (Value::String(s), _) => match r.gen_range(0..4) {
            0 => json!(format!("{s}\u{0}")),
            1 => json!(s.to_uppercase()),
            2 => json!(s.chars().rev().collect::<String>()),
            _ => json!(s.chars().skip(1).collect::<String>()),
        },
        (Value::Bool(b), _) => pick(r, &[json!(!b), json!(*b as u8), Value::Null]).clone(),
        (Value::Null, _) => pick(r, &[json!(false), json!(0), json!("")]).clone(),
        _ => gen::value(r, 1),
    }
}

fn pool(r: &mut Rand, n: usize) -> Vec<J> {
    let mut out: Vec<Value> = vec![];
    while out.len() < n {
        let v = match r.gen_range(0..10) {
            0 | 1 => {
                let g = gen::lookalikes(r);
                out.extend(g.into_iter().take(2));
                continue;
            }
            2..=6 if !out.is_empty() => {
                let x = pick(r, &out).clone();
                tweak(r, &x)
            }
            7 if !out.is_empty() => pick(r, &out).clone(),
            _ => gen::value(r, 3),
        };
        out.push(v);
    }
    out.truncate(n);
    out.shuffle(r);
    out.into_iter().map(J).collect()
}

/// Records exactly what is hashed.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

fn hashes(j: &db::Json) -> (u64, Vec<u8>) {
    let mut d = std::collections::hash_map::DefaultHasher::new();
    j.hash(&mut d);
    let mut t = Tape::default();
    j.hash(&mut t);
    (d.finish(), t.0)
}

/// The numerical order, exactly.
fn num_cmp(a: &Value, b: &Value) -> Option<Ordering> {
    let int = |v: &Value| v.as_i64().map(i128::from).or(v.as_u64().map(i128::from));
    fn int_f(i: i128, f: f64) -> Ordering {
        // compare with the integers around f
        if f >= 2f64.powi(100) {
            return Ordering::Less;
        }
        if f <= -2f64.powi(100) {
            return Ordering::Greater;
        }
        let t = f.trunc();
        let ti = t as i128; // exact below 2^100
        match i.cmp(&ti) {
            Ordering::Equal => 0.0f64.partial_cmp(&(f - t)).unwrap(),
            o => o,
        }
    }
    match (int(a), int(b)) {
        (Some(x), Some(y)) => Some(x.cmp(&y)),
        (Some(x), None) => Some(int_f(x, b.as_f64()?)),
        (None, Some(y)) => Some(int_f(y, a.as_f64()?).reverse()),
        (None, None) => a.as_f64()?.partial_cmp(&b.as_f64()?),
    }
}

struct Laws;

impl Part for Laws {
    type Case = Vec<J>;
    fn name(&self) -> &'static str {
        "laws"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Vec<J> {
        let n = r.gen_range(3..7);
        pool(r, n)
    }
    fn run(&self, c: &Vec<J>, seen: &mut Seen) -> R {
        let js: Vec<db::Json> = c.iter().map(json).collect();
        let hs: Vec<_> = js.iter().map(hashes).collect();
        let n = js.len();
        let cmp: Vec<Vec<Option<Ordering>>> = js.iter().map(|a| js.iter().map(|b| a.partial_cmp(b)).collect()).collect();
        for a in 0..n {
            let again = db::Json::from(c[a].0.clone());
            ensure!(again == js[a] && js[a] == js[a].clone(), "json-reflexive", "{} is not equal to itself", c[a].key());
            ensure!(hashes(&again) == hs[a], "json-hash", "the hash of {} is not stable", c[a].key());
            for b in 0..n {
                let eq = js[a] == js[b];
                let (ka, kb) = (c[a].key(), c[b].key());
                ensure!(eq == (js[b] == js[a]), "json-symmetric", "{ka} == {kb} is {eq}, but not the other way round");
                ensure!(eq == (c[a] == c[b]), "json-eq", "{ka} == {kb} is {eq}");
                ensure!(!eq != (js[a] == js[b]), "json-ne", "!= disagrees with ==");
                if eq {
                    ensure!(hs[a] == hs[b], "json-hash", "{ka} equals {kb}, but their hashes differ");
                }
                ensure!((cmp[a][b] == Some(Ordering::Equal)) == eq, "json-order", "{ka} and {kb}: == is {eq}, but partial_cmp is {:?}", cmp[a][b]);
                ensure!(cmp[a][b] == cmp[b][a].map(|o| o.reverse()), "json-antisymmetric", "{ka} and {kb}: {:?} and {:?}", cmp[a][b], cmp[b][a]);
                ensure!(
                    (js[a] < js[b]) == (cmp[a][b] == Some(Ordering::Less)) && (js[a] > js[b]) == (cmp[a][b] == Some(Ordering::Greater)),
                    "json-order",
                    "{ka} and {kb}: < or > disagrees with partial_cmp"
                );
                if c[a].0.is_number() && c[b].0.is_number() {
                    match num_cmp(&c[a].0, &c[b].0).unwrap() {
                        Ordering::Equal => ensure!(cmp[a][b].is_some(), "json-numeric", "{ka} and {kb} do not compare"),
                        o => ensure!(cmp[a][b] == Some(o), "json-numeric", "{ka} and {kb} compare as {:?}, they are {o:?}", cmp[a][b]),
                    }
                    seen.tag("numbers");
                }
                if a != b && (eq || cmp[a][b].is_some()) {
                    seen.tag(if eq { "equal" } else { "ordered" });
                }
                for k in 0..n {
                    if eq && js[b] == js[k] {
                        ensure!(js[a] == js[k], "json-transitive", "{ka} == {kb} == {}, but not the ends", c[k].key());
                    }
                    if let (Some(Ordering::Less), Some(Ordering::Less)) = (cmp[a][b], cmp[b][k]) {
                        ensure!(cmp[a][k] == Some(Ordering::Less), "json-transitive", "{ka} < {kb} < {}, but the ends compare as {:?}", c[k].key(), cmp[a][k]);
                    }
                }
            }
        }
        let set: HashSet<db::Json> = js.iter().cloned().collect();
        let want: BTreeSet<&J> = c.iter().collect();
        ensure!(set.len() == want.len(), "json-set", "a hash set keeps {} of {} different values", set.len(), want.len());
        for (x, v) in js.iter().zip(c) {
            let t = serde_json::to_string(x).map_err(|e| Fail { kind: "json-text".into(), msg: e.to_string() })?;
            ensure!(t == serde_json::to_string(&v.0).unwrap(), "json-text", "{} is written as {t}", v.key());
            let back: Result<db::Json, _> = t.parse();
            ensure!(back.as_ref().is_ok_and(|b| J((*b.0).clone()) == *v), "json-text", "{} is read back as {back:?}", v.key());
            let back: Result<db::Json, _> = serde_json::from_str(&t);
            ensure!(back.as_ref().is_ok_and(|b| J((*b.0).clone()) == *v), "json-serde", "{} is read back as {back:?}", v.key());
            let m = rmp_serde::to_vec(x).map_err(|e| Fail { kind: "json-rmp".into(), msg: e.to_string() })?;
            let back: Result<db::Json, _> = rmp_serde::from_slice(&m);
            ensure!(back.as_ref().is_ok_and(|b| J((*b.0).clone()) == *v), "json-rmp", "{} is read back as {back:?}", v.key());
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Vec<J>, seen: &Seen) -> bool {
        seen.has("ordered")
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Where {
    Mem,
    Image,
    Rdb,
}

/// Values written as properties, read back and looked up, on every datastore.
struct Stored {
    at: Where,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StoredCase {
    vals: Vec<J>,
    index_first: bool,
    bulk: bool,
    /// Deep or large values are described rather than spelled out.
    deep: Option<u8>,
    long: Option<u32>,
}

impl Part for Stored {
    type Case = StoredCase;
    fn name(&self) -> &'static str {
        match self.at {
            Where::Mem => "memory",
            Where::Image => "memory-image",
            Where::Rdb => "rocksdb",
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> StoredCase {
        let n = r.gen_range(2..9);
        StoredCase {
            vals: pool(r, n),
            index_first: r.gen(),
            bulk: r.gen(),
            deep: if chance(r, 0.1) { Some(r.gen_range(1..=120)) } else { None },
            long: if chance(r, 0.1) { Some(r.gen_range(0..150_000)) } else { None },
        }
    }
    fn run(&self, c: &StoredCase, seen: &mut Seen) -> R {
        let mut vals = c.vals.clone();
        if let Some(d) = c.deep {
            let mut v = json!(1);
            for k in 0..d {
                v = if k % 2 == 0 { json!([v]) } else { json!({"k": v}) };
            }
            vals.push(J(v));
        }
        if let Some(l) = c.long {
            vals.push(J(json!("é".repeat(l as usize / 2))));
            vals.push(J(json!((0..l / 8).collect::<Vec<_>>())));
        }
        let dir = Scratch::new();
        let image = dir.path("image");
        let mut rdb = None;
        let mut mem = None;
        match self.at {
            Where::Rdb => rdb = Some(Rdb::new()),
            Where::Mem => mem = Some(Mem::new()),
            Where::Image => mem = Some(Mem { db: db::MemoryDatastore::create_msgpack_db(&image) }),
        }
        let ops = |m: &mut Model| -> Vec<Op> {
            let mut ops = vec![];
            for (k, v) in vals.iter().enumerate() {
                let a = Uuid::from_u128(k as u128);
                let e = E { o: a, t: "e".into(), i: a };
                if c.bulk {
                    ops.push(Op::Bulk(vec![Item::V(a, "t".into()), Item::E(e.clone()), Item::VP(a, "p".into(), v.clone()), Item::EP(e, "p".into(), v.clone())]));
                } else {
                    ops.push(Op::CreateV(a, "t".into()));
                    ops.push(Op::CreateE(e.clone()));
                    ops.push(Op::Set(Q::SpecV(vec![a]), "p".into(), v.clone()));
                    ops.push(Op::Set(Q::SpecE(vec![e]), "p".into(), v.clone()));
                }
            }
            if c.index_first {
                ops.insert(0, Op::Index("p".into()));
            } else {
                ops.push(Op::Index("p".into()));
            }
            let _ = m;
            ops
        };
        let mut m = Model::new();
        let list = ops(&mut m);
        {
            let s: &mut dyn Store = if let Some(r) = rdb.as_mut() { r } else { mem.as_mut().unwrap() };
            for op in &list {
                step(s, &mut m, op, seen)?;
            }
            check_all(s, &m, &[], &vals)?;
        }
        match self.at {
            Where::Rdb => {
                let r = rdb.as_mut().unwrap();
                r.open(0).map_err(|e| Fail { kind: "reopen".into(), msg: e })?;
                check_all(r, &m, &[], &vals)?;
            }
            Where::Image => {
                let out = mem.as_mut().unwrap().apply(&Op::Sync);
                ensure!(matches!(out, Out::Unit), "sync", "sync gave {out:?}");
                let d = db::MemoryDatastore::read_msgpack_db(&image).map_err(|e| Fail { kind: "image".into(), msg: format!("cannot read the image: {e}") })?;
                check_all(&mut Mem { db: d }, &m, &[], &vals)?;
            }
            Where::Mem => {}
        }
        let distinct: BTreeSet<&J> = vals.iter().collect();
        if distinct.len() >= 3 {
            seen.tag("several-values");
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &StoredCase, seen: &Seen) -> bool {
        seen.has("several-values")
    }
}

/// A float that the text form loses the last bit of.
const LOST_FLOAT: u64 = 0x0031_fa18_2c40_c60d;

fn c13_known() -> Vec<(String, String)> {
    let mut out = vec![];
    let mut lost = f64::from_bits(LOST_FLOAT);
    if gen::roundtrips(lost) {
        // whichever one this build loses
        let mut r = Rand::seed_from_u64(7);
        lost = (0..100000).map(|_| f64::from_bits(r.gen())).find(|f| f.is_finite() && !gen::roundtrips(*f)).unwrap_or(1.0);
    }
    let holds = |v: Value| -> Result<bool, String> {
        let r = Rdb::new();
        let d = r.db();
        let id = Uuid::from_u128(1);
        d.create_vertex(&vertex(id, "t")).map_err(|e| e.to_string())?;
        d.set_properties(query(&Q::SpecV(vec![id])), ident("p"), &db::Json::new(v.clone())).map_err(|e| e.to_string())?;
        let q = query(&Q::Props { inner: Box::new(Q::SpecV(vec![id])), name: None });
        let o = d.get(q).map_err(|e| e.to_string())?;
        match from_out(&o[0]) {
            O::VP(x) => Ok(x.len() == 1 && x[0].1.len() == 1 && x[0].1[0].1 == J(v)),
            _ => Ok(false),
        }
    };
    if let Ok(false) = holds(json!(lost)) {
        out.push((
            "float-last-bit".to_string(),
            format!("the float {lost:?} is read back from RocksDB (and through gRPC) changed in its last bit: serde_json is built without its float_roundtrip feature"),
        ));
    }
    let mut deep = json!(1);
    for _ in 0..130 {
        deep = json!([deep]);
    }
    if let Err(e) = holds(deep) {
        out.push((
            "nesting-128".to_string(),
            format!("a JSON value nested 130 deep is accepted by RocksDB, but every query that returns it fails: {e}"),
        ));
    }
    out
}

// ---------------------------------------------------------------- C14

struct Rule;

impl Part for Rule {
    type Case = Vec<String>;
    fn name(&self) -> &'static str {
        "rule"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for _ in 0..r.gen_range(2..8) {
            let s = match r.gen_range(0..9) {
                0 => gen::string(r),
                1 => {
                    // one character that may or may not be allowed, among ones that are
                    let mut s = gen::name(r);
                    let mut at = r.gen_range(0..=s.len());
                    while !s.is_char_boundary(at) {
                        at -= 1;
                    }
                    s.insert(at, r.gen());
                    s
                }
                2 => {
                    let c = *pick(r, &['a', 'é', '中', '𐐀', '-']);
                    let n = 255 / c.len_utf8();
                    c.to_string().repeat((n + r.gen_range(0..3)).saturating_sub(1))
                }
                3 => "x".repeat(*pick(r, &[254, 255, 256, 257, 511, 512, 65536])),
                4 => (0..r.gen_range(0..4)).map(|_| char::from(r.gen_range(0..128u8))).collect(),
                5 => (0..r.gen_range(1..3)).map(|_| char::from_u32(r.gen_range(0..0x3000)).unwrap_or('a')).collect(),
                6 if !out.is_empty() => {
                    let mut s = pick(r, &out).clone();
                    s.push(*pick(r, &['a', ' ', '0', '\u{301}', '\u{0}']));
                    s
                }
                _ => gen::name(r),
            };
            out.push(s);
        }
        out
    }
    fn run(&self, c: &Vec<String>, seen: &mut Seen) -> R {
        let mut ids: Vec<(db::Identifier, &String)> = vec![];
        for s in c {
            let ok = valid_name(s);
            let show: String = s.chars().take(40).collect();
            let made: Vec<(&str, Option<db::Identifier>)> = vec![
                ("new(&str)", db::Identifier::new(s.as_str()).ok()),
                ("new(String)", db::Identifier::new(s.clone()).ok()),
                ("from_str", s.parse().ok()),
                ("try_from", db::Identifier::try_from(s.clone()).ok()),
                ("protobuf", TryInto::<db::Identifier>::try_into(p::Identifier { value: s.clone() }).ok()),
            ];
            for (how, x) in &made {
                ensure!(x.is_some() == ok, "name-rule", "{how} {} {show:?} ({} bytes)", if ok { "refuses" } else { "accepts" }, s.len());
                if let Some(x) = x {
                    ensure!(x.as_str() == s && x.to_string() == *s && **x == *s, "name-kept", "{how} turns {show:?} into {:?}", x.as_str());
                    ids.push((*x, s));
                }
            }
            if ok {
                let why = match db::Identifier::new(s.clone()) {
                    Ok(x) => x,
                    Err(e) => return fail("name-rule", e.to_string()),
                };
                let back: p::Identifier = why.into();
                ensure!(back.value == *s, "name-kept", "{show:?} is sent as {:?}", back.value);
                let t = serde_json::to_string(&why).unwrap();
                let back: db::Identifier = serde_json::from_str(&t).unwrap();
                ensure!(back == why && back.as_str() == s, "name-serde", "{show:?} comes back as {:?}", back.as_str());
                let t = rmp_serde::to_vec(&why).unwrap();
                let back: db::Identifier = rmp_serde::from_slice(&t).unwrap();
                ensure!(back == why && back.as_str() == s, "name-serde", "{show:?} comes back as {:?}", back.as_str());
                // written into a key and read again
                let mut key = db::util::build(&[db::util::Component::Identifier(why)]);
                key.extend_from_slice(b"tail");
                let mut cur = std::io::Cursor::new(&key);
                let back = unsafe { db::util::read_identifier(&mut cur) }.unwrap();
                ensure!(back == why && back.as_str() == s, "name-key", "{show:?} is read from a key as {:?}", back.as_str());
                seen.tag("accepted");
            } else {
                match db::Identifier::new(s.clone()) {
                    Err(db::ValidationError::ValueTooLong) => ensure!(s.len() > 255, "name-error", "{show:?} is called too long"),
                    Err(db::ValidationError::InvalidValue) => {}
                    x => return fail("name-error", format!("{show:?} gives {x:?}")),
                }
                seen.tag("refused");
            }
        }
        for (a, s) in &ids {
            for (b, t) in &ids {
                ensure!((a == b) == (s == t), "name-eq", "{s:?} == {t:?} is {}", a == b);
                ensure!(a.cmp(b) == b.cmp(a).reverse(), "name-order", "the order of {s:?} and {t:?} is not antisymmetric");
                ensure!((a.cmp(b) == Ordering::Equal) == (a == b), "name-order", "the order of {s:?} and {t:?} disagrees with ==");
                if a == b {
                    let h = |x: &db::Identifier| {
                        let mut d = std::collections::hash_map::DefaultHasher::new();
                        x.hash(&mut d);
                        d.finish()
                    };
                    ensure!(h(a) == h(b), "name-hash", "{s:?}: equal, but the hashes differ");
                }
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Vec<String>, seen: &Seen) -> bool {
        seen.has("accepted") && seen.has("refused")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Comp {
    Id(Uuid),
    Name(String),
    Json(J),
    Tail(String),
}

/// Keys made of parts, as the datastore makes them.
struct Codec;

fn shape(r: &mut Rand) -> Vec<u8> {
    // 0 id, 1 name, 2 json, 3 tail (last only)
    pick(r, &[vec![0], vec![0, 1, 0], vec![0, 3], vec![0, 1, 0, 3], vec![1, 2, 0], vec![1, 2, 0, 1, 0], vec![1], vec![1, 1], vec![1, 3], vec![1, 2]]).clone()
}

impl Part for Codec {
    type Case = (Vec<u8>, Vec<Vec<Comp>>);
    fn name(&self) -> &'static str {
        "codec"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Self::Case {
        let sh = shape(r);
        let names: Vec<String> = (0..3).map(|_| gen::name(r)).collect();
        let mut ids: Vec<Uuid> = (0..3).map(|_| gen::rand_id(r)).collect();
        // an id that looks like an encoded name followed by something
        let n = pick(r, &names).clone();
        let mut b = vec![n.len() as u8];
        b.extend_from_slice(n.as_bytes());
        b.resize(16, 0);
        ids.push(Uuid::from_slice(&b[..16]).unwrap());
        let vals = pool(r, 3);
        let keys = (0..r.gen_range(2..6))
            .map(|_| {
                sh.iter()
                    .map(|k| match k {
                        0 => Comp::Id(*pick(r, &ids)),
                        1 => Comp::Name(pick(r, &names).clone()),
                        2 => Comp::Json(pick(r, &vals).clone()),
                        _ => Comp::Tail(pick(r, &names).clone()),
                    })
                    .collect()
            })
            .collect();
        (sh, keys)
    }
    fn run(&self, c: &Self::Case, seen: &mut Seen) -> R {
        use db::util::*;
        let jsons: Vec<Vec<db::Json>> = c.1.iter().map(|k| k.iter().map(|x| if let Comp::Json(j) = x { json(j) } else { db::Json::new(Value::Null) }).collect()).collect();
        let mut built = vec![];
        for (k, js) in c.1.iter().zip(&jsons) {
            let comps: Vec<Component> = k
                .iter()
                .zip(js)
                .map(|(x, j)| match x {
                    Comp::Id(u) => Component::Uuid(*u),
                    Comp::Name(s) => Component::Identifier(ident(s)),
                    Comp::Json(_) => Component::Json(j),
                    Comp::Tail(s) => Component::FixedLengthString(s),
                })
                .collect();
            let key = build(&comps);
            ensure!(key.len() == comps.iter().map(|c| c.byte_len()).sum::<usize>(), "key-length", "the key of {k:?} has {} bytes, announced were others", key.len());
            let mut cur = std::io::Cursor::new(key.as_slice());
            for x in k {
                match x {
                    Comp::Id(u) => {
                        let b = read_uuid(&mut cur).map_err(|e| Fail { kind: "key-read".into(), msg: e.to_string() })?;
                        ensure!(b == *u, "key-read", "{u} is read as {b} in {k:?}");
                    }
                    Comp::Name(s) => {
                        let b = unsafe { read_identifier(&mut cur) }.map_err(|e| Fail { kind: "key-read".into(), msg: e.to_string() })?;
                        ensure!(b.as_str() == s, "key-read", "{s:?} is read as {:?} in {k:?}", b.as_str());
                    }
                    Comp::Json(_) => {
                        read_u64(&mut cur).map_err(|e| Fail { kind: "key-read".into(), msg: e.to_string() })?;
                    }
                    Comp::Tail(s) => {
                        let b = read_fixed_length_string(&mut cur).map_err(|e| Fail { kind: "key-read".into(), msg: e.to_string() })?;
                        ensure!(b == *s, "key-read", "{s:?} is read as {b:?} in {k:?}");
                    }
                }
            }
            ensure!(cur.position() == key.len() as u64, "key-read", "the key of {k:?} has bytes left over");
            // a key cut short is an error, not a panic
            for cut in 0..key.len().min(40) {
                let mut cur = std::io::Cursor::new(&key[..cut]);
                let short = match &k[0] {
                    Comp::Id(_) => cut < 16 && read_uuid(&mut cur).is_ok(),
                    Comp::Name(s) => cut < s.len() + 1 && unsafe { read_identifier(&mut cur) }.is_ok(),
                    _ => false,
                };
                ensure!(!short, "key-cut", "a key cut to {cut} bytes is read without an error: {k:?}");
            }
            built.push(key);
        }
        for (a, ka) in c.1.iter().zip(&built) {
            for (b, kb) in c.1.iter().zip(&built) {
                // values are reduced to 64 bits in keys, and compared where they matter
                let strip = |k: &[Comp]| k.iter().filter(|c| !matches!(c, Comp::Json(_))).cloned().collect::<Vec<_>>();
                ensure!(a != b || ka == kb, "key-alias", "{a:?}: two keys built for it differ");
                ensure!(strip(a) == strip(b) || ka != kb, "key-alias", "{a:?} and {b:?}: the keys are equal");
                if let (Comp::Id(x), Comp::Id(y)) = (&a[0], &b[0]) {
                    ensure!(x == y || x.as_u128().cmp(&y.as_u128()) == ka.cmp(kb), "key-order", "the keys of {a:?} and {b:?} are not in id order");
                }
                // a complete part is never a proper prefix of another part of the same kind
                if let (Comp::Name(x), Comp::Name(y)) = (&a[0], &b[0]) {
                    let (px, py) = (build(&[Component::Identifier(ident(x))]), build(&[Component::Identifier(ident(y))]));
                    ensure!(x == y || !py.starts_with(&px), "key-prefix", "the name {x:?} encodes to a prefix of {y:?}");
                }
                if a != b {
                    seen.tag("different-keys");
                }
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Self::Case, seen: &Seen) -> bool {
        seen.has("different-keys")
    }
}

/// Everything stored under every combination of confusable keys, each with its own value.
struct Alias {
    rdb: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AliasCase {
    ids: Vec<Uuid>,
    names: Vec<String>,
    types: Vec<String>,
    index: Vec<usize>,
    keep: u64,
    drop: Vec<u16>,
    reopen: bool,
}

impl Part for Alias {
    type Case = AliasCase;
    fn name(&self) -> &'static str {
        if self.rdb {
            "rocksdb-alias"
        } else {
            "memory-alias"
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> AliasCase {
        let w = gen::world(r, 3);
        let mut names: Vec<String> = w.names.clone();
        let mut types: Vec<String> = w.ets.clone();
        for x in ["", "a", "aa"] {
            if chance(r, 0.4) && !names.contains(&x.to_string()) {
                names.push(x.into());
            }
            if chance(r, 0.4) && !types.contains(&x.to_string()) {
                types.push(x.into());
            }
        }
        if chance(r, 0.4) {
            // a name that continues with what an encoded id would look like
            let s = "0".repeat(17);
            names.push(s);
        }
        let mut ids = w.ids.clone();
        if chance(r, 0.6) {
            let t = pick(r, &types).clone();
            let mut b = vec![t.len() as u8];
            b.extend_from_slice(t.as_bytes());
            b.resize(16, b'0');
            let id = Uuid::from_slice(&b[..16]).unwrap();
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
        names.dedup();
        names.truncate(4);
        types.truncate(4);
        AliasCase {
            index: (0..names.len()).filter(|_| chance(r, 0.5)).collect(),
            ids,
            names,
            types,
            keep: r.gen(),
            drop: (0..r.gen_range(0..6)).map(|_| r.gen()).collect(),
            reopen: chance(r, 0.2),
        }
    }
    fn run(&self, c: &AliasCase, seen: &mut Seen) -> R {
        let mut s: Box<dyn Store> = if self.rdb { Box::new(Rdb::new()) } else { Box::new(Mem::new()) };
        let s = s.as_mut();
        let mut m = Model::new();
        let mut r = Rand::seed_from_u64(c.keep);
        for i in &c.index {
            if let Some(n) = c.names.get(*i) {
                step(s, &mut m, &Op::Index(n.clone()), seen)?;
            }
        }
        let mut items: Vec<Item> = c.ids.iter().enumerate().map(|(k, i)| Item::V(*i, c.types.get(k % c.types.len().max(1)).cloned().unwrap_or_default())).collect();
        let mut edges = vec![];
        for o in &c.ids {
            for i in &c.ids {
                for t in &c.types {
                    if r.gen_bool(0.6) {
                        edges.push(E { o: *o, t: t.clone(), i: *i });
                    }
                }
            }
        }
        items.extend(edges.iter().cloned().map(Item::E));
        let mut k = 0;
        for id in &c.ids {
            for n in &c.names {
                if r.gen_bool(0.7) {
                    k += 1;
                    items.push(Item::VP(*id, n.clone(), J(json!(k))));
                }
            }
        }
        for e in &edges {
            for n in &c.names {
                if r.gen_bool(0.6) {
                    k += 1;
                    items.push(Item::EP(e.clone(), n.clone(), J(json!(k))));
                }
            }
        }
        step(s, &mut m, &Op::Bulk(items), seen)?;
        check_all(s, &m, &c.names, &[])?;
        if edges.len() > 2 && k > 4 {
            seen.tag("many-keys");
        }
        for d in &c.drop {
            let d = *d as usize;
            let op = match d % 4 {
                0 if !c.ids.is_empty() => Op::Delete(Q::SpecV(vec![c.ids[d / 4 % c.ids.len()]])),
                1 if !edges.is_empty() => Op::Delete(Q::SpecE(vec![edges[d / 4 % edges.len()].clone()])),
                2 if !c.ids.is_empty() && !c.names.is_empty() => Op::Delete(Q::Props {
                    inner: Box::new(Q::SpecV(vec![c.ids[d / 4 % c.ids.len()]])),
                    name: Some(c.names[d / 64 % c.names.len()].clone()),
                }),
                3 if !edges.is_empty() && !c.names.is_empty() => Op::Delete(Q::Props {
                    inner: Box::new(Q::SpecE(vec![edges[d / 4 % edges.len()].clone()])),
                    name: Some(c.names[d / 64 % c.names.len()].clone()),
                }),
                _ => continue,
            };
            step(s, &mut m, &op, seen)?;
            check_all(s, &m, &c.names, &[])?;
        }
        if c.reopen {
            step(s, &mut m, &Op::Reopen(0), seen)?;
            check_all(s, &m, &c.names, &[])?;
        }
        for n in &c.names {
            step(s, &mut m, &Op::Index(n.clone()), seen)?;
        }
        check_all(s, &m, &c.names, &[])?;
        Ok(())
    }
    fn nontrivial(&self, _c: &AliasCase, seen: &Seen) -> bool {
        seen.has("many-keys")
    }
}

// ---------------------------------------------------------------- C15

struct Threads;

impl Part for Threads {
    type Case = (u8, u32);
    fn name(&self) -> &'static str {
        "threads"
    }
    fn threads(&self) -> usize {
        1
    }
    fn gen(&self, r: &mut Rand, i: usize) -> (u8, u32) {
        if i % 10 == 0 {
            (r.gen_range(1..=8), r.gen_range(20000..60000))
        } else {
            (r.gen_range(2..=8), r.gen_range(10..2000))
        }
    }
    fn run(&self, c: &(u8, u32), seen: &mut Seen) -> R {
        let bar = Arc::new(Barrier::new(c.0 as usize));
        let hs: Vec<_> = (0..c.0)
            .map(|k| {
                let (bar, n) = (bar.clone(), c.1);
                std::thread::spawn(move || {
                    bar.wait();
                    (0..n)
                        .map(|i| if (i + k as u32) % 2 == 0 { db::util::generate_uuid_v1() } else { db::Vertex::new(db::Identifier::default()).id })
                        .collect::<Vec<Uuid>>()
                })
            })
            .collect();
        let mut all: Vec<Uuid> = vec![];
        for h in hs {
            match h.join() {
                Ok(v) => all.extend(v),
                Err(_) => return fail("panic", "generating an id panicked"),
            }
        }
        seen.writes += all.len() as u64;
        let set: HashSet<Uuid> = all.iter().copied().collect();
        ensure!(set.len() == all.len(), "id-unique", "{} of {} ids generated by {} threads are repeated", all.len() - set.len(), all.len(), c.0);
        ensure!(!set.contains(&Uuid::nil()) && !set.contains(&Uuid::from_u128(u128::MAX)), "id-unique", "the nil or largest id was generated");
        Ok(())
    }
    fn nontrivial(&self, c: &(u8, u32), _seen: &Seen) -> bool {
        c.0 > 1
    }
}

/// Vertices made from just a type, by several threads at once, among vertices with ids of the caller's choice.
struct FromType {
    rdb: bool,
}

impl Part for FromType {
    type Case = (u8, u16, bool);
    fn name(&self) -> &'static str {
        if self.rdb {
            "rocksdb-from-type"
        } else {
            "memory-from-type"
        }
    }
    fn threads(&self) -> usize {
        2
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Self::Case {
        (r.gen_range(1..=6), r.gen_range(1..if self.rdb { 120 } else { 400 }), r.gen())
    }
    fn run(&self, c: &Self::Case, seen: &mut Seen) -> R {
        fn go<D: db::Datastore + Sync>(d: &db::Database<D>, c: &(u8, u16, bool)) -> R<u64> {
            let bar = Barrier::new(c.0 as usize);
            let rs: Vec<Result<Vec<Uuid>, String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..c.0)
                    .map(|k| {
                        let bar = &bar;
                        sc.spawn(move || {
                            bar.wait();
                            let t = db::Identifier::new(format!("t{k}")).unwrap();
                            (0..c.1)
                                .map(|i| {
                                    if c.2 && i % 3 == 0 {
                                        let v = db::Vertex::new(t);
                                        match d.create_vertex(&v) {
                                            Ok(true) => Ok(v.id),
                                            x => Err(format!("creating a vertex with a new id gave {x:?}")),
                                        }
                                    } else {
                                        d.create_vertex_from_type(t).map_err(|e| format!("create_vertex_from_type: {e}"))
                                    }
                                })
                                .collect()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
            });
            let mut want: Vec<V> = vec![];
            for (k, r) in rs.into_iter().enumerate() {
                match r {
                    Ok(v) => want.extend(v.into_iter().map(|id| (id, format!("t{k}")))),
                    Err(e) => return fail("from-type", e),
                }
            }
            want.sort();
            let n = want.len();
            want.dedup_by_key(|v| v.0);
            ensure!(want.len() == n, "id-unique", "{} ids were handed out twice", n - want.len());
            let got = match d.get(db::Query::AllVertex) {
                Ok(o) => from_out(&o[0]),
                Err(e) => return fail("get", e.to_string()),
            };
            ensure!(got == O::V(want), "from-type", "not exactly the created vertices are there");
            Ok(n as u64)
        }
        seen.writes += if self.rdb { go(Rdb::new().db(), c)? } else { go(&db::MemoryDatastore::new_db(), c)? };
        Ok(())
    }
    fn nontrivial(&self, c: &Self::Case, _seen: &Seen) -> bool {
        c.0 > 1 && c.1 > 3
    }
}

struct Next;

impl Part for Next {
    type Case = Vec<Uuid>;
    fn name(&self) -> &'static str {
        "successor"
    }
    fn gen(&self, r: &mut Rand, i: usize) -> Vec<Uuid> {
        let mut v: Vec<Uuid> = (0..6)
            .map(|_| {
                let x = gen::rand_id(r).as_u128();
                // with a run of ones, or zeros, at the end
                let k = r.gen_range(0..128u32);
                let ones = (1u128 << k) - 1;
                Uuid::from_u128(match r.gen_range(0..4) {
                    0 => x | ones,
                    1 => x & !ones,
                    2 => (x | ones).wrapping_sub(r.gen_range(0..3)),
                    _ => x,
                })
            })
            .collect();
        if i == 0 {
            v.push(Uuid::from_u128(u128::MAX));
        }
        v
    }
    fn run(&self, c: &Vec<Uuid>, seen: &mut Seen) -> R {
        for u in c {
            let x = u.as_u128();
            match (db::util::next_uuid(*u), x.checked_add(1)) {
                (Ok(n), Some(w)) => {
                    ensure!(n.as_u128() == w, "successor", "the successor of {u} is {n}");
                    // and it is next in every order the datastores use
                    ensure!(n > *u && n.as_bytes() > u.as_bytes(), "successor", "{n} is not above {u}");
                    seen.tag(if (x & 0xff) == 0xff { "carry" } else { "no-carry" });
                }
                (Err(db::ValidationError::CannotIncrementUuid), None) => seen.tag("largest"),
                (got, _) => return fail("successor", format!("the successor of {u} is {got:?}")),
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Vec<Uuid>, seen: &Seen) -> bool {
        seen.has("carry")
    }
}

/// Steps from id to id through a stored range.
struct NextStored;

impl Part for NextStored {
    type Case = (Uuid, Vec<u8>, bool);
    fn name(&self) -> &'static str {
        "successor-stored"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Self::Case {
        let k = r.gen_range(0..100u32);
        let x = gen::rand_id(r).as_u128() | ((1u128 << k) - 1);
        (Uuid::from_u128(x.wrapping_sub(r.gen_range(0..4))), (0..r.gen_range(2..8)).map(|_| r.gen_range(0..6)).collect(), r.gen())
    }
    fn run(&self, c: &Self::Case, seen: &mut Seen) -> R {
        let mut s: Box<dyn Store> = if c.2 { Box::new(Rdb::new()) } else { Box::new(Mem::new()) };
        let mut x = c.0.as_u128();
        let mut ids = vec![Uuid::from_u128(x)];
        for d in &c.1 {
            x = match x.checked_add(*d as u128) {
                Some(y) => y,
                None => break,
            };
            ids.push(Uuid::from_u128(x));
        }
        let mut m = Model::new();
        for id in &ids {
            step(s.as_mut(), &mut m, &Op::CreateV(*id, "t".into()), seen)?;
        }
        let all: BTreeSet<Uuid> = ids.iter().copied().collect();
        for id in &all {
            let Ok(n) = db::util::next_uuid(*id) else {
                ensure!(id.as_u128() == u128::MAX, "successor", "{id} has no successor");
                continue;
            };
            let got = get_ok(s.as_mut(), &Q::RangeV { limit: 1, t: None, start: Some(n) })?;
            let want: Vec<V> = all.range((std::ops::Bound::Excluded(*id), std::ops::Bound::Unbounded)).take(1).map(|i| (*i, "t".to_string())).collect();
            ensure!(got == vec![O::V(want.clone())], "successor-range", "the range from the successor of {id} starts with {got:?}, expected {want:?}");
            if want.first().is_some_and(|w| w.0 == n) {
                seen.tag("neighbours");
            }
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Self::Case, seen: &Seen) -> bool {
        seen.has("neighbours")
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Native {
    Id(Uuid),
    Name(String),
    Json(J),
    Edge(E),
    Vertex(V),
    Query(Q),
    Out(O2),
    Item(Item),
    Set(Q, String, J),
    Index(String),
    VProp(Uuid, J),
    EProp(E, J),
    Named(String, J),
}

/// A serialisable output.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum O2 {
    V(Vec<V>),
    E(Vec<E>),
    N(u64),
    VP(Vec<(V, Vec<(String, J)>)>),
    EP(Vec<(E, Vec<(String, J)>)>),
}
impl O2 {
    pub fn o(&self) -> O {
        match self.clone() {
            O2::V(x) => O::V(x),
            O2::E(x) => O::E(x),
            O2::N(x) => O::N(x),
            O2::VP(x) => O::VP(x),
            O2::EP(x) => O::EP(x),
        }
    }
}

pub fn native(r: &mut Rand) -> Native {
    let w = gen::world(r, 4);
    let mut m = Model::new();
    for id in &w.ids {
        m.create_v(*id, &w.vts[0].clone());
    }
    for n in w.names.iter().take(2) {
        m.idx.insert(n.clone());
    }
    let depth = *pick(r, &[1usize, 3, 6, 20]);
    let props = |r: &mut Rand| -> Vec<(String, J)> { (0..r.gen_range(0..3)).map(|_| (w.nm(r), w.val(r))).collect() };
    match r.gen_range(0..18) {
        0 => Native::Id(gen::rand_id(r)),
        1 => Native::Name(gen::name(r)),
        2 => Native::Json(J(gen::value(r, 4))),
        3 => Native::Edge(w.any_edge(r, &m)),
        4 => Native::Vertex((gen::rand_id(r), gen::name(r))),
        5..=9 => {
            let wild = r.gen();
            Native::Query(gen::query(r, &w, &m, depth, wild))
        }
        10 => Native::Out(match r.gen_range(0..5) {
            0 => O2::V((0..r.gen_range(0..4)).map(|_| (w.id(r), w.vt(r))).collect()),
            1 => O2::E((0..r.gen_range(0..4)).map(|_| w.any_edge(r, &m)).collect()),
            2 => O2::N(*pick(r, &[0, 1, 127, 128, u64::MAX, 1 << 32])),
            3 => O2::VP((0..r.gen_range(0..3)).map(|_| ((w.id(r), w.vt(r)), props(r))).collect()),
            _ => O2::EP((0..r.gen_range(0..3)).map(|_| (w.any_edge(r, &m), props(r))).collect()),
        }),
        11 | 12 => Native::Item(match r.gen_range(0..4) {
            0 => Item::V(w.id(r), w.vt(r)),
            1 => Item::E(w.any_edge(r, &m)),
            2 => Item::VP(w.id(r), w.nm(r), w.val(r)),
            _ => Item::EP(w.any_edge(r, &m), w.nm(r), w.val(r)),
        }),
        13 => Native::Set(gen::query(r, &w, &m, depth, true), w.nm(r), w.val(r)),
        14 => Native::Index(w.nm(r)),
        15 => Native::VProp(w.id(r), w.val(r)),
        16 => Native::EProp(w.any_edge(r, &m), w.val(r)),
        _ => Native::Named(w.nm(r), w.val(r)),
    }
}

fn conv<A, B>(kind: &'static str, what: &dyn std::fmt::Debug, a: A) -> R<B>
where
    A: TryInto<B>,
    A::Error: std::fmt::Display,
{
    a.try_into().map_err(|e: A::Error| Fail { kind: kind.into(), msg: format!("{what:?} is refused on the way back: {e}") })
}

/// Native value to message (compared with our own reading of the .proto file), to bytes, and back.
fn trip<N, M, H>(what: &dyn std::fmt::Debug, h: &H, n: N, own: M, back: impl Fn(&N) -> H) -> R
where
    N: Into<M>,
    M: Message + Default + Clone + PartialEq + TryInto<N>,
    M::Error: std::fmt::Display,
    H: PartialEq + std::fmt::Debug,
{
    let msg: M = n.into();
    ensure!(msg == own, "message", "{what:?} is sent as {msg:?}, by the protocol it is {own:?}");
    let bytes = msg.encode_to_vec();
    let dec = match M::decode(bytes.as_slice()) {
        Ok(d) => d,
        Err(e) => return fail("decode", format!("{what:?} does not decode: {e}")),
    };
    let got: N = conv("round-trip", what, dec)?;
    let got = back(&got);
    ensure!(got == *h, "round-trip", "{h:?} comes back as {got:?}");
    Ok(())
}

struct RoundTrip;

impl Part for RoundTrip {
    type Case = Native;
    fn name(&self) -> &'static str {
        "round-trip"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Native {
        native(r)
    }
    fn run(&self, c: &Native, seen: &mut Seen) -> R {
        let name = |i: &db::Identifier| i.as_str().to_string();
        let j = |v: &db::Json| J((*v.0).clone());
        match c {
            Native::Id(u) => trip(c, u, *u, p_id(u), |x| *x)?,
            Native::Name(s) => trip(c, s, ident(s), p_name(s), name)?,
            Native::Json(v) => {
                // the text of a JSON value is not fixed by the protocol
                let msg: p::Json = json(v).into();
                let own: Result<Value, _> = serde_json::from_str(&msg.value);
                ensure!(own.as_ref().is_ok_and(|o| J(o.clone()) == *v), "message", "{v:?} is sent as {:?}", msg.value);
                trip(c, v, json(v), p::Json { value: msg.value.clone() }, j)?
            }
            Native::Edge(e) => trip(c, e, edge(e), p_edge(e), from_edge)?,
            Native::Vertex(v) => trip(c, v, vertex(v.0, &v.1), p_vertex(v), from_vertex)?,
            Native::Query(q) => {
                if let Q::Pipe { .. } | Q::Props { .. } | Q::PProp { .. } | Q::PVal { .. } = q {
                    seen.tag("nested");
                }
                trip(c, q, query(q), p_query(q), from_query)?
            }
            Native::Out(o) => trip(c, &o.o(), output(&o.o()), p_out(&o.o()), from_out)?,
            Native::Item(i) => trip(c, i, item(i), p_item(i), from_item)?,
            Native::Set(q, n, v) => {
                let h = (q.clone(), n.clone(), v.clone());
                let own = p::SetPropertiesRequest { q: Some(p_query(q)), name: Some(p_name(n)), value: Some(p_json(v)) };
                trip(c, &h, (query(q), ident(n), json(v)), own, |x: &(db::Query, db::Identifier, db::Json)| (from_query(&x.0), name(&x.1), j(&x.2)))?
            }
            Native::Index(n) => {
                let own = p::IndexPropertyRequest { name: Some(p_name(n)) };
                let dec = p::IndexPropertyRequest::decode(own.encode_to_vec().as_slice()).unwrap();
                let got: db::Identifier = conv("round-trip", c, dec)?;
                ensure!(got.as_str() == n, "round-trip", "{n:?} comes back as {got:?}");
            }
            Native::VProp(id, v) => {
                let own = p::VertexProperty { id: Some(p_id(id)), value: Some(p_json(v)) };
                trip(c, &(*id, v.clone()), db::VertexProperty::new(*id, json(v)), own, |x| (x.id, j(&x.value)))?
            }
            Native::EProp(e, v) => {
                let own = p::EdgeProperty { edge: Some(p_edge(e)), value: Some(p_json(v)) };
                trip(c, &(e.clone(), v.clone()), db::EdgeProperty::new(edge(e), json(v)), own, |x| (from_edge(&x.edge), j(&x.value)))?
            }
            Native::Named(n, v) => trip(c, &(n.clone(), v.clone()), db::NamedProperty::new(ident(n), json(v)), p_named(&(n.clone(), v.clone())), |x| (name(&x.name), j(&x.value)))?,
        }
        Ok(())
    }
    fn nontrivial(&self, c: &Native, _seen: &Seen) -> bool {
        !matches!(c, Native::Id(_) | Native::Name(_) | Native::Query(Q::AllV | Q::AllE))
    }
}

/// Converts a message and compares with the strict decoder.
fn judge<M, N, H>(m: M, own: Result<H, Bad>, back: impl Fn(&N) -> H, again: impl Fn(N) -> Option<M>) -> R<bool>
where
    M: TryInto<N> + Clone + std::fmt::Debug + PartialEq,
    M::Error: std::fmt::Display,
    H: PartialEq + std::fmt::Debug,
{
    let show = || {
        let s = format!("{m:?}");
        s.chars().take(1500).collect::<String>()
    };
    let r: Result<N, M::Error> = m.clone().try_into();
    match (r, own) {
        (Ok(_), Err(Bad::Malformed)) => fail("accepted", format!("a malformed message is accepted: {}", show())),
        (Err(e), Ok(_)) => fail("refused", format!("a well-formed message is refused ({e}): {}", show())),
        (Ok(n), Ok(h)) => {
            let got = back(&n);
            ensure!(got == h, "misread", "{} is read as {got:?}", show());
            // what was accepted can be sent on
            if let Some(m2) = again(n) {
                let r: Result<N, M::Error> = m2.try_into();
                match r {
                    Ok(n2) => ensure!(loosely(|| back(&n2) == h), "unstable", "{} changes when sent on: {:?}", show(), back(&n2)),
                    Err(e) => return fail("unstable", format!("{} is refused when sent on: {e}", show())),
                }
            }
            Ok(true)
        }
        _ => Ok(false),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    Query,
    Out,
    Item,
    Set,
    Index,
    Vertex,
    Edge,
    VProps,
    EProps,
}

fn judge_bytes(k: Kind, b: &[u8]) -> R<Option<bool>> {
    macro_rules! dec {
        ($t:ty) => {
            match <$t>::decode(b) {
                Ok(m) => m,
                Err(_) => return Ok(None),
            }
        };
    }
    let name = |i: &db::Identifier| i.as_str().to_string();
    let j = |v: &db::Json| J((*v.0).clone());
    Ok(Some(match k {
        Kind::Query => {
            let m = dec!(p::Query);
            let own = d_query(&m);
            judge(m, own, from_query, |n: db::Query| Some(n.into()))?
        }
        Kind::Out => {
            let m = dec!(p::QueryOutputValue);
            let own = d_out(&m);
            judge(m, own, from_out, |n: db::QueryOutputValue| Some(n.into()))?
        }
        Kind::Item => {
            let m = dec!(p::BulkInsertItem);
            let own = d_item(&m);
            judge(m, own, from_item, |n: db::BulkInsertItem| Some(n.into()))?
        }
        Kind::Set => {
            let m = dec!(p::SetPropertiesRequest);
            let own = d_set(&m);
            judge(m, own, |x: &(db::Query, db::Identifier, db::Json)| (from_query(&x.0), name(&x.1), j(&x.2)), |n| Some(n.into()))?
        }
        Kind::Index => {
            let m = dec!(p::IndexPropertyRequest);
            let own = d_index(&m);
            judge(m, own, |x: &db::Identifier| name(x), |_| None)?
        }
        Kind::Vertex => {
            let m = dec!(p::Vertex);
            let own = d_vertex(&m);
            judge(m, own, from_vertex, |n: db::Vertex| Some(n.into()))?
        }
        Kind::Edge => {
            let m = dec!(p::Edge);
            let own = d_edge(&m);
            judge(m, own, from_edge, |n: db::Edge| Some(n.into()))?
        }
        Kind::VProps => {
            let m = dec!(p::VertexProperty);
            let own = (|| Ok((d_id(m.id.as_ref().ok_or(Bad::Malformed)?)?, d_json(m.value.as_ref().ok_or(Bad::Malformed)?)?)))();
            judge(m, own, |x: &db::VertexProperty| (x.id, j(&x.value)), |n| Some(n.into()))?
        }
        Kind::EProps => {
            let m = dec!(p::EdgeProperty);
            let own = (|| Ok((d_edge(m.edge.as_ref().ok_or(Bad::Malformed)?)?, d_json(m.value.as_ref().ok_or(Bad::Malformed)?)?)))();
            judge(m, own, |x: &db::EdgeProperty| (from_edge(&x.edge), j(&x.value)), |n| Some(n.into()))?
        }
    }))
}

fn encoded(n: &Native) -> Option<(Kind, Vec<u8>)> {
    Some(match n {
        Native::Query(q) => (Kind::Query, p_query(q).encode_to_vec()),
        Native::Out(o) => (Kind::Out, p_out(&o.o()).encode_to_vec()),
        Native::Item(i) => (Kind::Item, p_item(i).encode_to_vec()),
        Native::Set(q, n, v) => (Kind::Set, p::SetPropertiesRequest { q: Some(p_query(q)), name: Some(p_name(n)), value: Some(p_json(v)) }.encode_to_vec()),
        Native::Index(n) => (Kind::Index, p::IndexPropertyRequest { name: Some(p_name(n)) }.encode_to_vec()),
        Native::Vertex(v) => (Kind::Vertex, p_vertex(v).encode_to_vec()),
        Native::Edge(e) => (Kind::Edge, p_edge(e).encode_to_vec()),
        Native::VProp(id, v) => (Kind::VProps, p::VertexProperty { id: Some(p_id(id)), value: Some(p_json(v)) }.encode_to_vec()),
        Native::EProp(e, v) => (Kind::EProps, p::EdgeProperty { edge: Some(p_edge(e)), value: Some(p_json(v)) }.encode_to_vec()),
        _ => return None,
    })
}

/// A valid message with one part made wrong.
struct Malformed;

impl Part for Malformed {
    type Case = (Native, u32, u32);
    fn name(&self) -> &'static str {
        "malformed"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Self::Case {
        loop {
            let n = native(r);
            if encoded(&n).is_some() {
                return (n, r.gen(), r.gen());
            }
        }
    }
    fn run(&self, c: &Self::Case, seen: &mut Seen) -> R {
        let (k, bytes) = encoded(&c.0).unwrap_or((Kind::Index, vec![]));
        macro_rules! spoiled {
            ($t:ty, $walk:expr) => {{
                let mut m = <$t>::decode(bytes.as_slice()).unwrap();
                let mut n = 0u32;
                $walk(&mut m, &mut |_| n += 1);
                if n == 0 {
                    return Ok(());
                }
                let (want, mut at, mut done) = (c.1 % n, 0, false);
                $walk(&mut m, &mut |s: Site| {
                    if at == want {
                        done = spoil(s, c.2);
                    }
                    at += 1;
                });
                (m.encode_to_vec(), done)
            }};
        }
        let (b, done) = match k {
            Kind::Query => spoiled!(p::Query, s_query),
            Kind::Out => spoiled!(p::QueryOutputValue, s_out),
            Kind::Item => spoiled!(p::BulkInsertItem, s_item),
            Kind::Set => spoiled!(p::SetPropertiesRequest, s_set),
            Kind::Index => spoiled!(p::IndexPropertyRequest, |m: &mut p::IndexPropertyRequest, f: &mut dyn FnMut(Site)| f(Site::Name(&mut m.name))),
            Kind::Vertex => spoiled!(p::Vertex, s_vertex),
            Kind::Edge => spoiled!(p::Edge, s_edge),
            Kind::VProps => spoiled!(p::VertexProperty, |m: &mut p::VertexProperty, f: &mut dyn FnMut(Site)| {
                f(Site::Id(&mut m.id));
                f(Site::Json(&mut m.value))
            }),
            Kind::EProps => spoiled!(p::EdgeProperty, |m: &mut p::EdgeProperty, f: &mut dyn FnMut(Site)| {
                f(Site::Json(&mut m.value));
                if let Some(e) = &mut m.edge {
                    s_edge(e, f)
                }
                f(Site::OptEdge(&mut m.edge));
            }),
        };
        let ok = judge_bytes(k, &b)?;
        if done {
            ensure!(ok != Some(true), "accepted", "a message with a malformed part is accepted: {:?}", c.0);
            seen.tag("spoiled");
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Self::Case, seen: &Seen) -> bool {
        seen.has("spoiled")
    }
}

/// Messages with bytes changed, removed, repeated or exchanged.
struct Bytes;

impl Part for Bytes {
    type Case = (Kind, Vec<u8>);
    fn name(&self) -> &'static str {
        "bytes"
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> Self::Case {
        if chance(r, 0.05) {
            let k = *pick(r, &[Kind::Query, Kind::Out, Kind::Item, Kind::Set, Kind::Index, Kind::Vertex, Kind::Edge, Kind::VProps, Kind::EProps]);
            return (k, (0..r.gen_range(0..60)).map(|_| r.gen()).collect());
        }
        let mut one = || loop {
            if let Some(x) = encoded(&native(r)) {
                if x.1.len() < 2000 {
                    return x;
                }
            }
        };
        let (mut k, mut b) = one();
        let (k2, other) = one();
        if chance(r, 0.1) {
            k = k2;
        }
        for _ in 0..r.gen_range(1..5) {
            if b.is_empty() {
                b.push(0);
            }
            let i = r.gen_range(0..b.len());
            match r.gen_range(0..9) {
                0 => b[i] = r.gen(),
                1 => b[i] ^= 1 << r.gen_range(0..8),
                2 => {
                    b.remove(i);
                }
                3 => b.insert(i, r.gen()),
                4 => b.truncate(i),
                5 => b[i] = b[i].wrapping_add(*pick(r, &[1, 255, 8, 248])),
                6 => {
                    let j = r.gen_range(i..b.len().min(i + 20));
                    let part = b[i..=j].to_vec();
                    let at = r.gen_range(0..=b.len());
                    b.splice(at..at, part);
                }
                7 => {
                    let j = r.gen_range(0..=other.len());
                    b.truncate(i);
                    b.extend_from_slice(&other[j..]);
                }
                _ => b.extend_from_slice(&other),
            }
        }
        (k, b)
    }
    fn run(&self, c: &Self::Case, seen: &mut Seen) -> R {
        match judge_bytes(c.0, &c.1)? {
            None => seen.tag("no-message"),
            Some(true) => seen.tag("accepted"),
            Some(false) => seen.tag("refused"),
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &Self::Case, seen: &Seen) -> bool {
        !seen.has("no-message")
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C13",
            level: "exploration",
            rule: "laws: some two different values of the case are ordered; stores: at least three different values are stored",
            assumptions: &[
                "floats whose shortest text form this serde_json build does not read back exactly are left out of the stored values (known finding float-last-bit)",
                "values nest at most 120 deep (known finding nesting-128)",
            ],
            parts: vec![
                part(Laws, 300000, 4000000),
                part(Stored { at: Where::Mem }, 6000, 300000),
                part(Stored { at: Where::Image }, 5000, 250000),
                part(Stored { at: Where::Rdb }, 3000, 120000),
            ],
            dbg_share: 0.25,
            known: c13_known,
        },
        Check {
            id: "C14",
            level: "exploration",
            rule: "rule: a case with an accepted and a refused name; codec: keys of different parts; alias: more than two edges and four properties under confusable keys",
            assumptions: &["letters and digits are those of Rust's char::is_alphanumeric"],
            parts: vec![part(Rule, 300000, 4000000), part(Codec, 300000, 4000000), part(Alias { rdb: false }, 6000, 300000), part(Alias { rdb: true }, 4000, 150000)],
            dbg_share: 0.25,
            known: no_known,
        },
        Check {
            id: "C15",
            level: "exploration",
            rule: "ids generated by more than one thread; successors with a carry; vertices at neighbouring ids",
            assumptions: &["the system clock does not go backwards while the check runs"],
            parts: vec![
                part(Threads, 1500, 30000),
                part(FromType { rdb: false }, 400, 10000),
                part(FromType { rdb: true }, 150, 3000),
                part(Next, 1000000, 5000000),
                part(NextStored, 4000, 150000),
            ],
            dbg_share: 0.25,
            known: no_known,
        },
        Check {
            id: "C16",
            level: "exploration",
            rule: "round-trip: a value with parts; malformed: a message with one part made wrong; bytes: changed bytes that still decode as a message",
            assumptions: &["a direction number the protocol does not define is left unspecified", "JSON text is judged by serde_json"],
            parts: vec![part(RoundTrip, 600000, 4000000), part(Malformed, 800000, 5000000), part(Bytes, 1500000, 10000000)],
            dbg_share: 0.25,
            known: no_known,
        },
    ]
}
