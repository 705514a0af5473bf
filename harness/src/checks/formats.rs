//! What lies on disk: databases and images as earlier builds left them, written and read here by an independent
//! implementation of the two stored formats.
use crate::driver::*;
use crate::ensure;
use crate::gen::{self, chance, pick, Mix, Rand};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use indradb::{MemoryDatastore, RocksdbDatastore};
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hasher;
use std::path::Path;
use uuid::Uuid;

use super::durable::{fatten, Img};
use super::wide::{numbers, Numbers};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FormatCase {
    /// what the stored database holds
    before: Before,
    /// what happens to it then
    ops: Vec<Op>,
    /// the order in which it is written
    order: u64,
    /// RocksDB: how it is written; image: bits
    how: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Before {
    Ops(Vec<Op>),
    Wide(Numbers),
}

impl Before {
    fn ops(&self) -> Vec<Op> {
        match self {
            Before::Ops(o) => o.clone(),
            Before::Wide(n) => n.writes(),
        }
    }
    /// What a database holds after them, written with validated operations only.
    fn model(&self) -> Model {
        let mut m = Model::new();
        for o in self.ops() {
            let o = match o {
                Op::Bulk(i) => Op::Bulk(m.sanitise(&i)),
                o => o,
            };
            gen::guess(&mut m, &o);
        }
        m
    }
}

fn format_case(r: &mut Rand) -> FormatCase {
    let w = gen::world(r, 6);
    let mix = Mix { index: 3, bulk: 3, get: 0, vdel: 0.15, sync: 0, reopen: 0, bulk_max: *pick(r, &[8, 40]), ..Mix::BASE };
    let mut m = Model::new();
    let mut grow = |r: &mut Rand, mix: &Mix, n: usize| -> Vec<Op> {
        (0..n)
            .map(|_| {
                let o = gen::op(r, &w, &m, mix);
                gen::guess(&mut m, &o);
                o
            })
            .collect()
    };
    let (n, k) = (r.gen_range(3..40), r.gen_range(0..12));
    let mut before = grow(r, &mix, n);
    fatten(r, &mut before, 90000);
    let after = Mix { get: 3, sync: 1, reopen: 1, ..mix };
    FormatCase { before: Before::Ops(before), ops: grow(r, &after, k), order: r.gen(), how: r.gen() }
}

fn wide_case(r: &mut Rand) -> FormatCase {
    let mut n = numbers(r, 600);
    n.names = n.names.min(12);
    n.held = n.held.min(120);
    FormatCase { before: Before::Wide(n), ops: vec![], order: r.gen(), how: r.gen() }
}

fn tags(m: &Model, seen: &mut Seen) {
    if m.v.len() > 1 && !m.e.is_empty() {
        seen.tag("edges");
    }
    if m.vp.keys().any(|k| m.idx.contains(&k.1)) || m.ep.keys().any(|k| m.idx.contains(&k.1)) {
        seen.tag("indexed");
    }
    if m.ep.keys().any(|k| m.idx.contains(&k.1)) {
        seen.tag("indexed-edges");
    }
}

// ---- RocksDB: keys are ids, length-prefixed names and hashes one after the other ----

const FAMILIES: [&str; 8] = [
    "vertices:v2",
    "edge_ranges:v2",
    "reversed_edge_ranges:v2",
    "vertex_properties:v2",
    "edge_properties:v2",
    "vertex_property_values:v2",
    "edge_property_values:v2",
    "metadata:v2",
];

type Bytes = Vec<u8>;
type Family = BTreeMap<Bytes, Bytes>;

fn sized(s: &str) -> Bytes {
    let mut b = vec![s.len() as u8];
    b.extend(s.as_bytes());
    b
}

fn edge_key(e: &E) -> Bytes {
    [e.o.as_bytes() as &[u8], &sized(&e.t), e.i.as_bytes()].concat()
}

fn hashed(v: &Value, out: &mut Bytes) {
    match v {
        Value::Null => out.push(0),
        Value::Bool(b) => out.extend([1, *b as u8]),
        Value::Number(n) => {
            out.push(2);
            if let Some(i) = n.as_i64() {
                out.extend(i.to_ne_bytes());
            } else if let Some(u) = n.as_u64() {
                out.extend(u.to_ne_bytes());
            } else {
                out.extend(n.as_f64().unwrap().to_bits().to_ne_bytes());
            }
        }
        Value::String(s) => {
            out.push(3);
            out.extend(s.as_bytes());
            out.push(0xff);
        }
        Value::Array(a) => {
            out.push(4);
            a.iter().for_each(|x| hashed(x, out));
        }
        Value::Object(o) => {
            out.push(5);
            for (k, x) in o {
                out.extend(k.as_bytes());
                out.push(0xff);
                hashed(x, out);
            }
        }
    }
}

fn hash(j: &J) -> Bytes {
    let mut b = vec![];
    hashed(&j.0, &mut b);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(&b);
    h.finish().to_be_bytes().into()
}

fn text(j: &J) -> Bytes {
    serde_json::to_vec(&j.0).unwrap()
}

/// The families of a database that holds this, but for the metadata.
fn families(m: &Model) -> Vec<Family> {
    let mut f: Vec<Family> = vec![Family::new(); 7];
    for (id, t) in &m.v {
        f[0].insert(id.as_bytes().to_vec(), sized(t));
    }
    for e in &m.e {
        f[1].insert(edge_key(e), vec![]);
        f[2].insert(edge_key(&E { o: e.i, t: e.t.clone(), i: e.o }), vec![]);
    }
    for ((id, n), j) in &m.vp {
        f[3].insert([id.as_bytes() as &[u8], n.as_bytes()].concat(), text(j));
        if m.idx.contains(n) {
            f[5].insert([sized(n), hash(j), id.as_bytes().to_vec()].concat(), vec![]);
        }
    }
    for ((e, n), j) in &m.ep {
        f[4].insert([edge_key(e), n.as_bytes().to_vec()].concat(), text(j));
        if m.idx.contains(n) {
            f[6].insert([sized(n), hash(j), edge_key(e)].concat(), vec![]);
        }
    }
    f
}

fn names_of(b: &[u8]) -> Option<BTreeSet<String>> {
    let word = |b: &[u8], at: usize| b.get(at..at + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()) as usize);
    let n = word(b, 0)?;
    let mut at = 8;
    let mut out = BTreeSet::new();
    for _ in 0..n {
        let len = word(b, at)?;
        out.insert(String::from_utf8(b.get(at + 8..at + 8 + len)?.to_vec()).ok()?);
        at += 8 + len;
    }
    (at == b.len() && out.len() == n).then_some(out)
}

fn names_bytes(names: &[&String]) -> Bytes {
    let mut b = (names.len() as u64).to_le_bytes().to_vec();
    for n in names {
        b.extend((n.len() as u64).to_le_bytes());
        b.extend(n.as_bytes());
    }
    b
}

fn options(how: u8) -> rocksdb::Options {
    let mut o = if how & 1 == 0 { rocksdb::Options::default() } else { RocksdbDatastore::get_options(None) };
    o.create_if_missing(true);
    o.create_missing_column_families(true);
    if how & 2 != 0 {
        o.set_write_buffer_size(1 << 16);
    }
    o
}

fn write_db(p: &Path, m: &Model, order: u64, how: u8) {
    let r = &mut Rand::seed_from_u64(order);
    let mut order: Vec<&str> = FAMILIES.to_vec();
    if how & 4 != 0 {
        order.shuffle(r);
    }
    let db = rocksdb::DB::open_cf(&options(how), p, &order).unwrap();
    let mut all: Vec<(usize, Bytes, Bytes)> = vec![];
    for (k, f) in families(m).into_iter().enumerate() {
        all.extend(f.into_iter().map(|(a, b)| (k, a, b)));
    }
    if !m.idx.is_empty() || how & 8 != 0 {
        let mut names: Vec<&String> = m.idx.iter().collect();
        names.shuffle(r);
        all.push((7, b"indexed_properties".to_vec(), names_bytes(&names)));
    }
    all.shuffle(r);
    // (some overwritten or deleted again)
    let cut = r.gen_range(0..=all.len());
    let mut batch = rocksdb::WriteBatch::default();
    for (k, (f, key, value)) in all.iter().enumerate() {
        let cf = db.cf_handle(FAMILIES[*f]).unwrap();
        if r.gen_range(0..8) == 0 {
            batch.put_cf(&cf, key, b"0");
            batch.delete_cf(&cf, key);
        }
        batch.put_cf(&cf, key, value);
        if k == cut || r.gen_range(0..20) == 0 {
            db.write(std::mem::take(&mut batch)).unwrap();
        }
        if k == cut && how & 16 != 0 {
            FAMILIES.iter().for_each(|n| db.flush_cf(&db.cf_handle(n).unwrap()).unwrap());
        }
    }
    db.write(batch).unwrap();
    if how & 32 != 0 {
        FAMILIES.iter().for_each(|n| db.compact_range_cf(&db.cf_handle(n).unwrap(), None::<&[u8]>, None::<&[u8]>));
    }
}

/// Reads what a closed database stored and compares it with the model.
fn read_db(p: &Path, m: &Model) -> R {
    let db = match rocksdb::DB::list_cf(&rocksdb::Options::default(), p).and_then(|f| rocksdb::DB::open_cf(&rocksdb::Options::default(), p, f)) {
        Ok(db) => db,
        Err(e) => return fail("format-open", format!("an earlier build could not open the database: {e}")),
    };
    for (k, want) in families(m).into_iter().enumerate() {
        let name = FAMILIES[k];
        let Some(cf) = db.cf_handle(name) else { return fail("format-family", format!("the database has no column family {name}")) };
        let mut left = want;
        for item in db.iterator_cf(&cf, rocksdb::IteratorMode::Start) {
            let (key, value) = item.map_err(|e| Fail { kind: "format-open".into(), msg: e.to_string() })?;
            let Some(w) = left.remove(&*key) else {
                return fail("format-extra", format!("{name} holds an entry an earlier build would take for data: {:?} = {:?}", String::from_utf8_lossy(&key), String::from_utf8_lossy(&value)));
            };
            // (edges' and index entries' values say nothing)
            let same = match k {
                0 => *value == *w,
                3 | 4 => value == w.clone().into() || serde_json::from_slice::<Value>(&value).is_ok_and(|v| J(v) == J(serde_json::from_slice(&w).unwrap())),
                _ => true,
            };
            ensure!(same, "format-value", "{name} holds {:?} for {:?}, an earlier build would have written {:?}", String::from_utf8_lossy(&value), String::from_utf8_lossy(&key), String::from_utf8_lossy(&w));
        }
        if let Some((key, _)) = left.first_key_value() {
            return fail("format-missing", format!("{name} has no entry at {:?}, where an earlier build would look", String::from_utf8_lossy(key)));
        }
    }
    let Some(cf) = db.cf_handle(FAMILIES[7]) else { return fail("format-family", "no metadata family".to_string()) };
    let names = match db.get_cf(&cf, "indexed_properties").unwrap() {
        None => Some(BTreeSet::new()),
        Some(b) => names_of(&b),
    };
    ensure!(names.as_ref() == Some(&m.idx), "format-metadata", "an earlier build would read {names:?} as the indexed properties, which are {:?}", m.idx);
    Ok(())
}

struct Db {
    wide: bool,
}

impl Part for Db {
    type Case = FormatCase;
    fn name(&self) -> &'static str {
        if self.wide {
            "rocksdb-wide"
        } else {
            "rocksdb"
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> FormatCase {
        if self.wide {
            wide_case(r)
        } else {
            format_case(r)
        }
    }
    fn run(&self, c: &FormatCase, seen: &mut Seen) -> R {
        let mut m = c.before.model();
        tags(&m, seen);
        let mut s = Rdb { db: None, dir: Scratch::new() };
        write_db(&s.path(), &m, c.order, c.how);
        if let Err(e) = s.open(if c.how & 64 != 0 { 1 } else { 0 }) {
            return fail("format-open", format!("a database an earlier build stored does not open: {e}"));
        }
        continue_with(&mut s, &mut m, c, seen)?;
        s.db = None;
        read_db(&s.path(), &m)
    }
    fn nontrivial(&self, _c: &FormatCase, seen: &Seen) -> bool {
        seen.has("edges") && seen.has("indexed")
    }
}

fn continue_with(s: &mut dyn Store, m: &mut Model, c: &FormatCase, seen: &mut Seen) -> R {
    let mut all = match &c.before {
        Before::Ops(o) => o.clone(),
        _ => vec![],
    };
    all.extend(c.ops.iter().cloned());
    let x = mentions(&all);
    let names: Vec<String> = x.names.iter().cloned().collect();
    let vals: Vec<J> = x.vals.iter().take(6).cloned().collect();
    check_all(s, m, &names, &vals).map_err(|f| Fail { kind: f.kind, msg: format!("opened as an earlier build stored it: {}", f.msg) })?;
    if let Before::Ops(_) = c.before {
        s.txn_probe(m, &x).map_err(|f| Fail { kind: f.kind, msg: format!("opened as an earlier build stored it: {}", f.msg) })?;
    }
    for (k, o) in c.ops.iter().enumerate() {
        step(s, m, o, seen).map_err(|f| Fail { kind: f.kind, msg: format!("at operation {k}: {}", f.msg) })?;
    }
    if !c.ops.is_empty() {
        check_all(s, m, &names, &vals)?;
    }
    Ok(())
}

// ---- images: MessagePack ----

#[derive(Clone, Debug, PartialEq)]
enum M {
    Nil,
    Bool(bool),
    Int(i128),
    F(f64),
    Str(Bytes),
    Bin(Bytes),
    Arr(Vec<M>),
    Map(Vec<(M, M)>),
}

fn m_id(id: &Uuid) -> M {
    M::Bin(id.as_bytes().to_vec())
}

fn m_str(s: &str) -> M {
    M::Str(s.as_bytes().to_vec())
}

fn m_edge(e: &E) -> M {
    M::Arr(vec![m_id(&e.o), m_str(&e.t), m_id(&e.i)])
}

fn m_json(v: &Value) -> M {
    match v {
        Value::Null => M::Nil,
        Value::Bool(b) => M::Bool(*b),
        Value::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => M::Int(i.into()),
            (_, Some(u)) => M::Int(u.into()),
            _ => M::F(n.as_f64().unwrap()),
        },
        Value::String(s) => m_str(s),
        Value::Array(a) => M::Arr(a.iter().map(m_json).collect()),
        Value::Object(o) => M::Map(o.iter().map(|(k, v)| (m_str(k), m_json(v))).collect()),
    }
}

impl M {
    fn write(&self, out: &mut Bytes) {
        let head = |out: &mut Bytes, n: usize, fix: (u8, usize), b8: Option<u8>, b16: u8, b32: u8| {
            if n < fix.1 {
                out.push(fix.0 | n as u8);
            } else if n < 256 && b8.is_some() {
                out.extend([b8.unwrap(), n as u8]);
            } else if n < 65536 {
                out.push(b16);
                out.extend((n as u16).to_be_bytes());
            } else {
                out.push(b32);
                out.extend((n as u32).to_be_bytes());
            }
        };
        match self {
            M::Nil => out.push(0xc0),
            M::Bool(b) => out.push(0xc2 + *b as u8),
            M::F(f) => {
                out.push(0xcb);
                out.extend(f.to_bits().to_be_bytes());
            }
            M::Int(i) => match *i {
                0..=0x7f => out.push(*i as u8),
                0x80..=0xff => out.extend([0xcc, *i as u8]),
                0x100..=0xffff => {
                    out.push(0xcd);
                    out.extend((*i as u16).to_be_bytes())
                }
                0x1_0000..=0xffff_ffff => {
                    out.push(0xce);
                    out.extend((*i as u32).to_be_bytes())
                }
                0x1_0000_0000.. => {
                    out.push(0xcf);
                    out.extend((*i as u64).to_be_bytes())
                }
                -32..=-1 => out.push(*i as i8 as u8),
                -128..=-33 => out.extend([0xd0, *i as i8 as u8]),
                -0x8000..=-129 => {
                    out.push(0xd1);
                    out.extend((*i as i16).to_be_bytes())
                }
                -0x8000_0000..=-0x8001 => {
                    out.push(0xd2);
                    out.extend((*i as i32).to_be_bytes())
                }
                _ => {
                    out.push(0xd3);
                    out.extend((*i as i64).to_be_bytes())
                }
            },
            M::Str(s) => {
                head(out, s.len(), (0xa0, 32), Some(0xd9), 0xda, 0xdb);
                out.extend(s);
            }
            M::Bin(s) => {
                head(out, s.len(), (0, 0), Some(0xc4), 0xc5, 0xc6);
                out.extend(s);
            }
            M::Arr(a) => {
                head(out, a.len(), (0x90, 16), None, 0xdc, 0xdd);
                a.iter().for_each(|x| x.write(out));
            }
            M::Map(a) => {
                head(out, a.len(), (0x80, 16), None, 0xde, 0xdf);
                a.iter().for_each(|(k, x)| {
                    k.write(out);
                    x.write(out)
                });
            }
        }
    }
    fn read(b: &mut &[u8]) -> Option<M> {
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
            let (x, rest) = (b.get(..n)?, b.get(n..)?);
            *b = rest;
            Some(x)
        }
        fn num(b: &mut &[u8], n: usize) -> Option<u64> {
            Some(take(b, n)?.iter().fold(0, |a, x| a << 8 | *x as u64))
        }
        let h = take(b, 1)?[0];
        let arr = |b: &mut &[u8], n: u64| (0..n).map(|_| M::read(b)).collect::<Option<Vec<_>>>().map(M::Arr);
        let map = |b: &mut &[u8], n: u64| (0..n).map(|_| Some((M::read(b)?, M::read(b)?))).collect::<Option<Vec<_>>>().map(M::Map);
        Some(match h {
            0..=0x7f => M::Int(h.into()),
            0x80..=0x8f => map(b, (h & 15).into())?,
            0x90..=0x9f => arr(b, (h & 15).into())?,
            0xa0..=0xbf => M::Str(take(b, (h & 31).into())?.to_vec()),
            0xe0..=0xff => M::Int((h as i8).into()),
            0xc0 => M::Nil,
            0xc2 | 0xc3 => M::Bool(h == 0xc3),
            0xc4..=0xc6 => {
                let n = num(b, 1 << (h - 0xc4))?;
                M::Bin(take(b, n as usize)?.to_vec())
            }
            0xca => M::F(f32::from_bits(num(b, 4)? as u32).into()),
            0xcb => M::F(f64::from_bits(num(b, 8)?)),
            0xcc..=0xcf => M::Int(num(b, 1 << (h - 0xcc))?.into()),
            0xd0 => M::Int((num(b, 1)? as i8).into()),
            0xd1 => M::Int((num(b, 2)? as i16).into()),
            0xd2 => M::Int((num(b, 4)? as i32).into()),
            0xd3 => M::Int((num(b, 8)? as i64).into()),
            0xd9..=0xdb => {
                let n = num(b, 1 << (h - 0xd9))?;
                M::Str(take(b, n as usize)?.to_vec())
            }
            0xdc | 0xdd => {
                let n = num(b, 2 << (h - 0xdc))?;
                arr(b, n)?
            }
            0xde | 0xdf => {
                let n = num(b, 2 << (h - 0xde))?;
                map(b, n)?
            }
            _ => return None,
        })
    }
    fn id(&self) -> Option<Uuid> {
        match self {
            M::Bin(b) => Uuid::from_slice(b).ok(),
            _ => None,
        }
    }
    fn str(&self) -> Option<String> {
        match self {
            M::Str(b) => String::from_utf8(b.clone()).ok(),
            _ => None,
        }
    }
    fn arr(&self) -> Option<&[M]> {
        match self {
            M::Arr(a) => Some(a),
            _ => None,
        }
    }
    fn map(&self) -> Option<&[(M, M)]> {
        match self {
            M::Map(a) => Some(a),
            _ => None,
        }
    }
    /// The members of a struct.
    fn members<'a>(&'a self, names: &[&str]) -> Option<Vec<&'a M>> {
        match self {
            M::Arr(a) if a.len() == names.len() => Some(a.iter().collect()),
            M::Map(a) if a.len() == names.len() => names.iter().map(|n| a.iter().find(|x| x.0 == m_str(n)).map(|x| &x.1)).collect(),
            _ => None,
        }
    }
    fn edge(&self) -> Option<E> {
        let a = self.members(&["outbound_id", "t", "inbound_id"])?;
        Some(E { o: a[0].id()?, t: a[1].str()?, i: a[2].id()? })
    }
    fn json(&self) -> Option<J> {
        fn value(m: &M) -> Option<Value> {
            Some(match m {
                M::Nil => Value::Null,
                M::Bool(b) => Value::Bool(*b),
                M::Int(i) => match (i64::try_from(*i), u64::try_from(*i)) {
                    (Ok(i), _) => i.into(),
                    (_, Ok(u)) => u.into(),
                    _ => return None,
                },
                M::F(f) => serde_json::Number::from_f64(*f)?.into(),
                M::Str(_) => m.str()?.into(),
                M::Bin(_) => return None,
                M::Arr(a) => Value::Array(a.iter().map(value).collect::<Option<_>>()?),
                M::Map(a) => Value::Object(a.iter().map(|(k, v)| Some((k.str()?, value(v)?))).collect::<Option<_>>()?),
            })
        }
        value(self).map(J)
    }
}

const MEMBERS: [&str; 6] = ["vertices", "edges", "reversed_edges", "vertex_properties", "edge_properties", "property_values"];

fn m_image(m: &Model, order: u64, how: u8) -> M {
    let r = &mut Rand::seed_from_u64(order);
    let rev = |e: &E| E { o: e.i, t: e.t.clone(), i: e.o };
    let pair = |a: M, n: &str| M::Arr(vec![a, m_str(n)]);
    let mut index = vec![];
    for n in &m.idx {
        let mut by: BTreeMap<&J, Vec<M>> = BTreeMap::new();
        for ((id, k), j) in &m.vp {
            if k == n {
                by.entry(j).or_default().push(M::Map(vec![(m_str("Vertex"), m_id(id))]));
            }
        }
        for ((e, k), j) in &m.ep {
            if k == n {
                by.entry(j).or_default().push(M::Map(vec![(m_str("Edge"), m_edge(e))]));
            }
        }
        if how & 1 != 0 {
            // values that are no longer held
            for j in m.vp.values().take(2) {
                by.entry(j).or_default();
            }
        }
        let mut by: Vec<(M, M)> = by
            .into_iter()
            .map(|(j, mut x)| {
                x.shuffle(r);
                (m_json(&j.0), M::Arr(x))
            })
            .collect();
        by.shuffle(r);
        index.push((m_str(n), M::Map(by)));
    }
    index.shuffle(r);
    let mut reversed: Vec<E> = m.e.iter().map(rev).collect();
    reversed.sort();
    M::Arr(vec![
        M::Map(m.v.iter().map(|(id, t)| (m_id(id), m_str(t))).collect()),
        M::Arr(m.e.iter().map(m_edge).collect()),
        M::Arr(reversed.iter().map(m_edge).collect()),
        M::Map(m.vp.iter().map(|((id, n), j)| (pair(m_id(id), n), m_json(&j.0))).collect()),
        M::Map(m.ep.iter().map(|((e, n), j)| (pair(m_edge(e), n), m_json(&j.0))).collect()),
        M::Map(index),
    ])
}

/// What an earlier build would read from an image.
fn read_image(b: &[u8], m: &Model) -> R {
    let mut rest = b;
    let Some(x) = M::read(&mut rest) else { return fail("format-image", "the image is no MessagePack".to_string()) };
    let Some(a) = x.members(&MEMBERS) else { return fail("format-image", format!("the image does not have the members {MEMBERS:?}")) };
    fn part<T>(what: &str, x: Option<T>) -> R<T> {
        match x {
            Some(x) => Ok(x),
            None => fail("format-image", format!("an earlier build could not read the image's {what}")),
        }
    }
    fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: &T) -> R {
        ensure!(got == *want, "format-value", "an earlier build would read the {what} {got:?} from the image, they are {want:?}");
        Ok(())
    }
    let v = part(MEMBERS[0], a[0].map().and_then(|x| x.iter().map(|(k, t)| Some((k.id()?, t.str()?))).collect::<Option<BTreeMap<_, _>>>()))?;
    same(MEMBERS[0], v, &m.v)?;
    let edges = |x: &M| x.arr().and_then(|x| x.iter().map(|e| e.edge()).collect::<Option<BTreeSet<_>>>());
    same(MEMBERS[1], part(MEMBERS[1], edges(a[1]))?, &m.e)?;
    let rev: BTreeSet<E> = m.e.iter().map(|e| E { o: e.i, t: e.t.clone(), i: e.o }).collect();
    same(MEMBERS[2], part(MEMBERS[2], edges(a[2]))?, &rev)?;
    let two = |k: &M| k.arr().filter(|k| k.len() == 2).map(|k| (k[0].clone(), k[1].clone()));
    let vp = a[3].map().and_then(|x| {
        x.iter()
            .map(|(k, j)| {
                let (id, n) = two(k)?;
                Some(((id.id()?, n.str()?), j.json()?))
            })
            .collect::<Option<BTreeMap<_, _>>>()
    });
    same(MEMBERS[3], part(MEMBERS[3], vp)?, &m.vp)?;
    let ep = a[4].map().and_then(|x| {
        x.iter()
            .map(|(k, j)| {
                let (e, n) = two(k)?;
                Some(((e.edge()?, n.str()?), j.json()?))
            })
            .collect::<Option<BTreeMap<_, _>>>()
    });
    same(MEMBERS[4], part(MEMBERS[4], ep)?, &m.ep)?;
    // (sets without members say nothing)
    type Index = BTreeMap<String, BTreeSet<(J, String)>>;
    let index = a[5].map().and_then(|x| {
        x.iter()
            .map(|(n, by)| {
                let mut set = BTreeSet::new();
                for (j, members) in by.map()? {
                    let j = j.json()?;
                    for w in members.arr()? {
                        let (kind, of) = w.map().filter(|w| w.len() == 1).map(|w| (&w[0].0, &w[0].1))?;
                        let of = match kind.str()?.as_str() {
                            "Vertex" => of.id()?.to_string(),
                            "Edge" => format!("{:?}", of.edge()?),
                            _ => return None,
                        };
                        set.insert((j.clone(), of));
                    }
                }
                Some((n.str()?, set))
            })
            .collect::<Option<Index>>()
    });
    let mut want: Index = m.idx.iter().map(|n| (n.clone(), BTreeSet::new())).collect();
    for ((id, n), j) in &m.vp {
        if let Some(s) = want.get_mut(n) {
            s.insert((j.clone(), id.to_string()));
        }
    }
    for ((e, n), j) in &m.ep {
        if let Some(s) = want.get_mut(n) {
            s.insert((j.clone(), format!("{e:?}")));
        }
    }
    same(MEMBERS[5], part(MEMBERS[5], index)?, &want)
}

struct Image {
    wide: bool,
}

impl Part for Image {
    type Case = FormatCase;
    fn name(&self) -> &'static str {
        if self.wide {
            "image-wide"
        } else {
            "image"
        }
    }
    fn gen(&self, r: &mut Rand, _i: usize) -> FormatCase {
        let mut c = if self.wide { wide_case(r) } else { format_case(r) };
        c.ops.retain(|o| !matches!(o, Op::Reopen(_)));
        c.how &= if chance(r, 0.5) { 0xfe } else { 0xff };
        c
    }
    fn run(&self, c: &FormatCase, seen: &mut Seen) -> R {
        let mut m = c.before.model();
        tags(&m, seen);
        let dir = Scratch::new();
        let p = dir.path("image");
        let mut b = vec![];
        m_image(&m, c.order, c.how).write(&mut b);
        std::fs::write(&p, &b).unwrap();
        let mut s = Img::load(&p)?;
        continue_with(&mut s, &mut m, c, seen)?;
        if let Err(e) = s.db.sync() {
            return fail("sync", e.to_string());
        }
        read_image(&std::fs::read(&p).unwrap(), &m)?;
        // and one that was never an image before
        let q = dir.path("new");
        let mut s = Img { db: MemoryDatastore::create_msgpack_db(&q), path: q.clone() };
        if let Before::Ops(ops) = &c.before {
            let mut m = Model::new();
            for o in ops {
                step(&mut s, &mut m, o, seen)?;
            }
            if let Err(e) = s.db.sync() {
                return fail("sync", e.to_string());
            }
            read_image(&std::fs::read(&q).unwrap(), &m)?;
        }
        Ok(())
    }
    fn nontrivial(&self, _c: &FormatCase, seen: &Seen) -> bool {
        seen.has("edges") && seen.has("indexed")
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        level: "exploration",
        rule: "the stored database had edges and an indexed property that an element held",
        assumptions: &["the formats are those of the pinned revision", "values within the limits of C13's known findings"],
        parts: vec![
            part(Db { wide: false }, 1200, 60000),
            part(Image { wide: false }, 20000, 600000),
            part(Db { wide: true }, 150, 4000),
            part(Image { wide: true }, 600, 10000),
        ],
        dbg_share: 0.0,
        known: no_known,
    }]
}
