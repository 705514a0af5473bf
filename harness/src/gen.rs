//! Generators: worlds (small pools of ids, names and values, chosen to collide and to sit on boundaries) and,
//! within a world and guided by the model's current state, values, queries and operations.
use crate::model::*;
use crate::types::*;
use rand::prelude::*;

use serde_json::{json, Value};
use uuid::Uuid;

pub use rand_chacha::ChaCha8Rng as Rand;

#[derive(Clone, Debug)]
pub struct World {
    pub ids: Vec<Uuid>,
    pub vts: Vec<String>,
    pub ets: Vec<String>,
    pub names: Vec<String>,
    pub vals: Vec<J>,
}

pub fn pick<'a, T>(r: &mut Rand, xs: &'a [T]) -> &'a T {
    &xs[r.gen_range(0..xs.len())]
}

pub fn chance(r: &mut Rand, p: f64) -> bool {
    r.gen_bool(p)
}

const LETTERS: &[char] = &[
    'a', 'b', 'z', 'A', 'Z', '0', '9', '-', '_', 'é', 'ß', 'λ', 'Ж', 'ש', '中', '語', '한', '𐐀', '𝒳', '٣', '५', 'Ⅷ', '½', 'ª', 'ǅ', 'ﬁ', '²',
];

pub fn name(r: &mut Rand) -> String {
    match r.gen_range(0..10) {
        0 => String::new(),
        1 => "a".repeat(255),
        2 => {
            // exactly 255 bytes with multi-byte characters
            let mut s = "é".repeat(127);
            s.push('x');
            s
        }
        3 => "a".repeat(r.gen_range(250..=255)),
        4 => "b".into(),
        5 => (*pick(r, &["aa", "ab", "a-", "a_", "A", "0", "-", "_"])).into(),
        _ => (0..r.gen_range(1..6)).map(|_| *pick(r, LETTERS)).collect(),
    }
}

fn name_pool(r: &mut Rand, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let fixed = [vec!["a", "ab", "b"], vec!["", "a", "aa"], vec!["a", "b", "c"], vec!["", "x"], vec!["foo", "foo-bar", "foo_bar"]];
    if chance(r, 0.7) {
        out.extend(pick(r, &fixed).iter().map(|s| s.to_string()));
    }
    while out.len() < n {
        let s = if chance(r, 0.3) && !out.is_empty() {
            // extend or cut an existing one, so that one is a prefix of the other
            let mut s = pick(r, &out).clone();
            if s.len() < 255 {
                s.push(*pick(r, &['a', '0', '-']));
            } else {
                s.pop();
            }
            s
        } else {
            name(r)
        };
        if !out.contains(&s) {
            out.push(s);
        }
    }
    out.truncate(n);
    out
}

pub fn rand_id(r: &mut Rand) -> Uuid {
    match r.gen_range(0..8) {
        0 => Uuid::nil(),
        1 => Uuid::from_u128(u128::MAX),
        2 => Uuid::from_u128(u128::MAX - r.gen_range(0..4)),
        3 => Uuid::from_u128(r.gen_range(0..4)),
        4 => Uuid::from_u128(r.gen::<u128>() | 0xff),
        5 => Uuid::from_u128((r.gen_range(0..256u128) << 120) | r.gen_range(0..3)),
        _ => Uuid::from_u128(r.gen()),
    }
}

fn id_pool(r: &mut Rand, n: usize) -> Vec<Uuid> {
    let mut out: Vec<Uuid> = vec![];
    while out.len() < n {
        let id = if chance(r, 0.35) && !out.is_empty() {
            let x = pick(r, &out).as_u128();
            Uuid::from_u128(if chance(r, 0.5) { x.wrapping_add(1) } else { x.wrapping_sub(1) })
        } else {
            rand_id(r)
        };
        if !out.contains(&id) {
            out.push(id);
        }
    }
    out
}

pub fn roundtrips(f: f64) -> bool {
    // mirrors what a text round trip through this build's serde_json does to the number
    let v = json!(f);
    match serde_json::from_str::<Value>(&serde_json::to_string(&v).unwrap()) {
        Ok(w) => w.is_f64() && w.as_f64().unwrap().to_bits() == f.to_bits(),
        Err(_) => false,
    }
}

/// Floats that the text form keeps (see the known finding about the ones it does not).
pub fn float(r: &mut Rand) -> f64 {
    loop {
        let f = match r.gen_range(0..6) {
            0 => *pick(r, &[0.0, -0.0, 1.0, -1.0, 0.5, 3.0, 1e16, 9007199254740992.0, 9007199254740994.0, 1.8446744073709552e19, -9.223372036854775808e18]),
            1 => *pick(r, &[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 1e308, 1e-308, 1e21, 1e-7]),
            2 => r.gen_range(-1000i64..1000) as f64,
            3 => r.gen_range(-1000i64..1000) as f64 / 8.0,
            4 => r.gen::<u64>() as f64,
            _ => f64::from_bits(r.gen()),
        };
        if f.is_finite() && roundtrips(f) {
            return f;
        }
    }
}

pub fn string(r: &mut Rand) -> String {
    match r.gen_range(0..8) {
        0 => String::new(),
        1 => "\u{0}".into(),
        2 => (*pick(r, &["1", "1.0", "null", "true", "[]", "{}", "\"", "\\", "a\u{0}b", "\u{ffff}", "🦀", "e\u{301}", "é", "\u{202e}", "\n\t\r\u{8}\u{c}"])).into(),
        3 => "x".repeat(r.gen_range(0..300)),
        _ => (0..r.gen_range(0..8)).map(|_| if chance(r, 0.7) { *pick(r, LETTERS) } else { r.gen::<char>() }).collect(),
    }
}

pub fn value(r: &mut Rand, depth: u32) -> Value {
    match r.gen_range(0..if depth == 0 { 8 } else { 12 }) {
        0 => Value::Null,
        1 => json!(r.gen::<bool>()),
        2 => match r.gen_range(0..6) {
            0 => json!(*pick(r, &[u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1u64 << 53, (1u64 << 53) + 1, 0, 1, 127, 128, 255, 256])),
            1 => json!(*pick(r, &[i64::MIN, i64::MIN + 1, -1, -(1i64 << 53) - 1, -32, -33, -128, -129])),
            2 => json!(r.gen::<u64>()),
            3 => json!(r.gen::<i64>()),
            _ => json!(r.gen_range(-3..6)),
        },
        3 => json!(float(r)),
        4 => json!(r.gen_range(0..3)),
        5..=7 => Value::String(string(r)),
        8 | 9 => Value::Array((0..r.gen_range(0..4)).map(|_| value(r, depth - 1)).collect()),
        _ => Value::Object((0..r.gen_range(0..4)).map(|_| (string(r), value(r, depth - 1))).collect()),
    }
}

/// Groups of values that are easily taken for each other.
pub fn lookalikes(r: &mut Rand) -> Vec<Value> {
    let groups: [Vec<Value>; 14] = [
        vec![json!(3), json!(3.0), json!("3"), json!([3])],
        vec![json!(0), json!(0.0), json!(-0.0), json!(false), json!(null), json!("")],
        vec![json!([[1], 2]), json!([[1, 2]]), json!([1, [2]]), json!([[[1]], 2]), json!([1, 2])],
        vec![json!({"a": 1}), json!(["a", 1]), json!({"a": {"a": 1}}), json!({"a": [1]})],
        vec![json!(9007199254740993u64), json!(9007199254740992u64), json!(9007199254740992.0), json!(9007199254740994u64)],
        vec![json!([]), json!({}), json!([[]]), json!([null]), json!(null)],
        vec![json!(true), json!(1), json!(false), json!(0), json!("true")],
        vec![json!(u64::MAX), json!(-1), json!(18446744073709551615.0), json!(i64::MIN), json!(9223372036854775808u64)],
        vec![json!("a"), json!("ab"), json!("a\u{0}"), json!(["a"]), json!("A")],
        vec![json!({"a": [], "b": 1}), json!({"a": ["b", 1]}), json!({"b": 1, "a": {}}), json!({"a": {"b": 1}})],
        vec![json!("é"), json!("e\u{301}"), json!("É"), json!("\u{e9}\u{0}")],
        vec![json!({"a": 1, "b": 2}), json!({"b": 2}), json!({"a": 1}), json!({"a": 2, "b": 1})],
        vec![json!([null, null]), json!([null]), json!([[null], null]), json!([[null, null]])],
        vec![json!(1e16), json!(10000000000000000u64), json!("1e16"), json!(1.0000000000000002e16)],
    ];
    pick(r, &groups).clone()
}

pub fn world(r: &mut Rand, n_ids: usize) -> World {
    let mut vals: Vec<J> = lookalikes(r).into_iter().map(J).collect();
    if chance(r, 0.5) {
        vals.truncate(2);
    }
    while vals.len() < 4 || chance(r, 0.3) {
        vals.push(J(value(r, 3)));
    }
    World {
        ids: id_pool(r, n_ids),
        vts: name_pool(r, 2),
        ets: name_pool(r, 3),
        names: name_pool(r, 3),
        vals,
    }
}

impl World {
    pub fn id(&self, r: &mut Rand) -> Uuid {
        *pick(r, &self.ids)
    }
    pub fn vt(&self, r: &mut Rand) -> String {
        pick(r, &self.vts).clone()
    }
    pub fn et(&self, r: &mut Rand) -> String {
        pick(r, &self.ets).clone()
    }
    pub fn nm(&self, r: &mut Rand) -> String {
        pick(r, &self.names).clone()
    }
    pub fn val(&self, r: &mut Rand) -> J {
        if chance(r, 0.1) {
            J(value(r, 2))
        } else {
            pick(r, &self.vals).clone()
        }
    }
    pub fn live_id(&self, r: &mut Rand, m: &Model) -> Uuid {
        if !m.v.is_empty() && chance(r, 0.85) {
            let n = r.gen_range(0..m.v.len());
            *m.v.keys().nth(n).unwrap()
        } else {
            self.id(r)
        }
    }
    pub fn any_edge(&self, r: &mut Rand, m: &Model) -> E {
        let o = self.live_id(r, m);
        let i = if chance(r, 0.15) { o } else { self.live_id(r, m) };
        E { o, t: self.et(r), i }
    }
    pub fn live_edge(&self, r: &mut Rand, m: &Model) -> E {
        if !m.e.is_empty() && chance(r, 0.85) {
            let n = r.gen_range(0..m.e.len());
            m.e.iter().nth(n).unwrap().clone()
        } else {
            self.any_edge(r, m)
        }
    }
    /// A value that some element holds under the name, mostly.
    pub fn held(&self, r: &mut Rand, m: &Model, n: &str) -> J {
        let vs: Vec<&J> = m.vp.iter().filter(|(k, _)| k.1 == n).map(|(_, v)| v).chain(m.ep.iter().filter(|(k, _)| k.1 == n).map(|(_, v)| v)).collect();
        if !vs.is_empty() && chance(r, 0.75) {
            (*pick(r, &vs)).clone()
        } else {
            self.val(r)
        }
    }
    /// A name that is indexed, mostly.
    pub fn inm(&self, r: &mut Rand, m: &Model, p_any: f64) -> String {
        if m.idx.is_empty() || chance(r, p_any) {
            self.nm(r)
        } else {
            let v: Vec<&String> = m.idx.iter().collect();
            (*pick(r, &v)).clone()
        }
    }
}

pub fn limit(r: &mut Rand) -> u32 {
    match r.gen_range(0..10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => r.gen_range(0..8),
        4 => u32::MAX - 1,
        _ => u32::MAX,
    }
}

fn opt<T>(r: &mut Rand, p: f64, f: impl FnOnce(&mut Rand) -> T) -> Option<T> {
    if chance(r, p) {
        Some(f(r))
    } else {
        None
    }
}

pub fn leaf(r: &mut Rand, w: &World, m: &Model, want: Option<Ty>) -> Q {
    let any = 0.15;
    loop {
        let q = match r.gen_range(0..14) {
            0 => Q::AllV,
            1 | 2 => Q::RangeV { limit: limit(r), t: opt(r, 0.4, |r| w.vt(r)), start: opt(r, 0.6, |r| if chance(r, 0.8) { w.live_id(r, m) } else { rand_id(r) }) },
            3..=5 => Q::SpecV((0..*pick(r, &[0usize, 1, 1, 1, 2, 3, 5])).map(|_| w.live_id(r, m)).collect()),
            6 => Q::VProp(w.inm(r, m, any)),
            7 => {
                let n = w.inm(r, m, any);
                let v = w.held(r, m, &n);
                Q::VVal(n, v)
            }
            8 => Q::AllE,
            9..=11 => Q::SpecE((0..*pick(r, &[0usize, 1, 1, 1, 2, 3])).map(|_| w.live_edge(r, m)).collect()),
            12 => Q::EProp(w.inm(r, m, any)),
            _ => {
                let n = w.inm(r, m, any);
                let v = w.held(r, m, &n);
                Q::EVal(n, v)
            }
        };
        // index queries are mostly pointless while nothing is indexed
        if is_index_leaf(&q) && m.idx.is_empty() && chance(r, 0.85) {
            continue;
        }
        if want.is_none_or(|t| t == leaf_ty(&q)) {
            return q;
        }
    }
}

/// A query of up to `depth` stages. With `wild`, stages that do not compose are generated too.
pub fn query(r: &mut Rand, w: &World, m: &Model, depth: usize, wild: bool) -> Q {
    let mut q = leaf(r, w, m, None);
    let mut ty = leaf_ty(&q);
    let n = r.gen_range(0..=depth);
    for _ in 0..n {
        if chance(r, 0.3) {
            q = Q::Include(Box::new(q));
            if chance(r, 0.1) {
                q = Q::Include(Box::new(q));
            }
        }
        let ve = matches!(ty, Ty::V | Ty::E);
        let k = if ve {
            r.gen_range(0..12)
        } else if wild {
            if chance(r, 0.5) {
                11
            } else {
                r.gen_range(0..12)
            }
        } else if ty != Ty::N && chance(r, 0.5) {
            11
        } else {
            break;
        };
        let inner = Box::new(q.clone());
        let (nq, st) = match k {
            0..=4 => {
                let (dir, limit, t) = (if chance(r, 0.5) { Dir::Out } else { Dir::In }, limit(r), opt(r, 0.35, |r| if ty == Ty::V { w.et(r) } else { w.vt(r) }));
                (Q::Pipe { inner, dir, limit, t: t.clone() }, Stage::Pipe { dir, limit, t })
            }
            5 | 6 => {
                let name = opt(r, 0.5, |r| w.nm(r));
                (Q::Props { inner, name: name.clone() }, Stage::Props(name))
            }
            7 | 8 if !m.idx.is_empty() || chance(r, 0.2) => {
                let (name, exists) = (w.inm(r, m, 0.1), r.gen());
                (Q::PProp { inner, name: name.clone(), exists }, Stage::PProp(name, exists))
            }
            9 | 10 if !m.idx.is_empty() || chance(r, 0.2) => {
                let name = w.inm(r, m, 0.1);
                let (value, equal) = (w.held(r, m, &name), r.gen());
                (Q::PVal { inner, name: name.clone(), value: value.clone(), equal }, Stage::PVal(name, value, equal))
            }
            11 => (Q::Count(inner), Stage::Count),
            _ => continue,
        };
        q = nq;
        match stage_ty(ty, &st) {
            Some(t) => ty = t,
            None => {
                if chance(r, 0.7) {
                    break;
                }
            }
        }
    }
    if chance(r, 0.05) {
        q = Q::Include(Box::new(q));
    }
    q
}

/// A query whose last output is vertices, edges or (if allowed) properties, for writes and deletes. Limits
/// over index queries are avoided, since what they select is not determined by the query.
pub fn target(r: &mut Rand, w: &World, m: &Model, props_ok: bool, wild: bool) -> Q {
    for _ in 0..50 {
        let q = if chance(r, 0.45) {
            // something narrow
            if chance(r, 0.55) {
                Q::SpecV(vec![w.live_id(r, m)])
            } else {
                Q::SpecE(vec![w.live_edge(r, m)])
            }
        } else {
            query(r, w, m, 3, wild)
        };
        let q = if props_ok && chance(r, 0.35) { Q::Props { inner: Box::new(q), name: opt(r, 0.6, |r| w.nm(r)) } } else { q };
        let q = determined(&q);
        match m.classify(&unroll(&q)) {
            Ok(Ty::V | Ty::E) => return q,
            Ok(Ty::VP | Ty::EP) if props_ok => return q,
            _ if wild => return q,
            _ => {}
        }
    }
    Q::SpecV(vec![w.live_id(r, m)])
}

/// Lifts limits over leaves whose order differs from call to call.
pub fn determined(q: &Q) -> Q {
    let mut c = unroll(q);
    if is_index_leaf(&c.leaf) {
        for (s, _) in c.stages.iter_mut() {
            if let Stage::Pipe { limit, .. } = s {
                if *limit > 0 {
                    *limit = u32::MAX;
                }
            }
        }
        return roll(&c);
    }
    q.clone()
}

/// Lifts all limits but those of the leaf.
pub fn unlimited(q: &Q) -> Q {
    let mut c = unroll(q);
    for (s, _) in c.stages.iter_mut() {
        if let Stage::Pipe { limit, .. } = s {
            if *limit > 0 {
                *limit = u32::MAX;
            }
        }
    }
    roll(&c)
}

pub fn items(r: &mut Rand, w: &World, m: &Model, n: usize, dangling: f64) -> Vec<Item> {
    let mut mm = m.clone();
    let mut out = vec![];
    for _ in 0..n {
        let it = match r.gen_range(0..10) {
            0..=2 => Item::V(w.id(r), w.vt(r)),
            3..=5 => Item::E(w.any_edge(r, &mm)),
            6 | 7 => Item::VP(w.live_id(r, &mm), w.nm(r), w.val(r)),
            _ => Item::EP(w.live_edge(r, &mm), w.nm(r), w.val(r)),
        };
        if mm.item_ok(&it) {
            mm.apply_item(&it);
            out.push(it);
        } else if dangling > 0.0 && chance(r, dangling) {
            out.push(it);
        }
    }
    out
}

/// Relative weights of the kinds of operation in a history.
#[derive(Clone, Copy, Debug)]
pub struct Mix {
    pub cv: u32,
    pub cvt: u32,
    pub ce: u32,
    pub set: u32,
    pub del: u32,
    pub bulk: u32,
    pub index: u32,
    pub sync: u32,
    pub get: u32,
    pub reopen: u32,
    pub wild: bool,
    pub qdepth: usize,
    /// Share of the deletes that delete vertices.
    pub vdel: f64,
    /// Share of the bulk items whose references may be missing.
    pub dangling: f64,
    /// Items per bulk insertion, at most.
    pub bulk_max: usize,
}

impl Mix {
    pub const BASE: Mix = Mix { cv: 5, cvt: 0, ce: 7, set: 6, del: 3, bulk: 2, index: 1, sync: 0, get: 0, reopen: 0, wild: false, qdepth: 3, vdel: 0.0, dangling: 0.0, bulk_max: 8 };
}

pub fn op(r: &mut Rand, w: &World, m: &Model, mix: &Mix) -> Op {
    // start a history by building something to work on
    let ws = [mix.cv * if m.v.len() < 3 { 4 } else { 1 }, mix.cvt, mix.ce, mix.set, mix.del, mix.bulk, mix.index, mix.sync, mix.get, mix.reopen];
    let mut n = r.gen_range(0..ws.iter().sum::<u32>());
    let mut k = 0;
    while n >= ws[k] {
        n -= ws[k];
        k += 1;
    }
    match k {
        0 => Op::CreateV(w.id(r), w.vt(r)),
        1 => Op::CreateVT(w.vt(r)),
        2 => Op::CreateE(w.any_edge(r, m)),
        3 => Op::Set(target(r, w, m, false, mix.wild), w.nm(r), w.val(r)),
        4 if mix.vdel > 0.0 && chance(r, mix.vdel) => {
            for _ in 0..20 {
                let q = target(r, w, m, false, false);
                if let Ok(Ty::V) = m.classify(&unroll(&q)) {
                    return Op::Delete(q);
                }
            }
            Op::Delete(Q::SpecV((0..r.gen_range(1..4)).map(|_| w.live_id(r, m)).collect()))
        }
        4 => Op::Delete(target(r, w, m, true, mix.wild)),
        5 => {
            let n = r.gen_range(0..mix.bulk_max);
            Op::Bulk(items(r, w, m, n, mix.dangling))
        }
        6 => Op::Index(w.nm(r)),
        7 => Op::Sync,
        8 => Op::Get(query(r, w, m, mix.qdepth, mix.wild)),
        _ => Op::Reopen(r.gen()),
    }
}

/// The model's own guess at what an operation does, to guide generation (targets cut by a limit over an
/// unfixed order are taken as they come).
pub fn guess(m: &mut Model, op: &Op) {
    match op {
        Op::CreateV(id, t) => {
            m.create_v(*id, t);
        }
        Op::CreateE(e) => {
            m.create_e(e);
        }
        Op::Set(q, n, j) => {
            let c = unroll(q);
            if let Ok(Ty::V | Ty::E) = m.classify(&c) {
                let o = m.eval(&c).0.pop().unwrap();
                m.set(&o, n, j);
            }
        }
        Op::Delete(q) => {
            let c = unroll(q);
            if let Ok(Ty::V | Ty::E | Ty::VP | Ty::EP) = m.classify(&c) {
                let o = m.eval(&c).0.pop().unwrap();
                m.delete(&o);
            }
        }
        Op::Bulk(items) => items.iter().for_each(|i| {
            if m.item_ok(i) {
                m.apply_item(i)
            }
        }),
        Op::Index(n) => {
            m.idx.insert(n.clone());
        }
        _ => {}
    }
}

pub fn history(r: &mut Rand, w: &World, mix: &Mix, n: usize) -> Vec<Op> {
    let mut m = Model::new();
    let mut out = vec![];
    // often index something early, so that writes go through an index
    if mix.index > 0 && chance(r, 0.5) {
        let o = Op::Index(w.nm(r));
        guess(&mut m, &o);
        out.push(o);
    }
    for _ in 0..n {
        let o = op(r, w, &m, mix);
        guess(&mut m, &o);
        out.push(o);
    }
    out
}
