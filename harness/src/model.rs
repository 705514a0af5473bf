//! The reference model: an abstract graph in ordinary maps, and what every query and write means on it.
use crate::ensure;
use crate::types::*;
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub v: BTreeMap<Uuid, String>,
    pub e: BTreeSet<E>,
    pub vp: BTreeMap<(Uuid, String), J>,
    pub ep: BTreeMap<(E, String), J>,
    pub idx: BTreeSet<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stage {
    Pipe { dir: Dir, limit: u32, t: Option<String> },
    Props(Option<String>),
    PProp(String, bool),
    PVal(String, J, bool),
    Count,
}

/// A query taken apart: a leaf and the stages over it, with whether each stage's input was marked included.
#[derive(Clone, Debug)]
pub struct Chain {
    pub leaf: Q,
    pub stages: Vec<(Stage, bool)>,
}

pub fn unroll(q: &Q) -> Chain {
    fn go(q: &Q) -> (Chain, bool) {
        let (inner, st) = match q {
            Q::Include(i) => return (go(i).0, true),
            Q::Pipe { inner, dir, limit, t } => (inner, Stage::Pipe { dir: *dir, limit: *limit, t: t.clone() }),
            Q::Props { inner, name } => (inner, Stage::Props(name.clone())),
            Q::PProp { inner, name, exists } => (inner, Stage::PProp(name.clone(), *exists)),
            Q::PVal { inner, name, value, equal } => (inner, Stage::PVal(name.clone(), value.clone(), *equal)),
            Q::Count(inner) => (inner, Stage::Count),
            leaf => return (Chain { leaf: leaf.clone(), stages: vec![] }, false),
        };
        let (mut c, inc) = go(inner);
        c.stages.push((st, inc));
        (c, false)
    }
    go(q).0
}

pub fn roll(c: &Chain) -> Q {
    let mut q = c.leaf.clone();
    for (st, inc) in &c.stages {
        let inner = Box::new(if *inc { Q::Include(Box::new(q)) } else { q });
        q = match st.clone() {
            Stage::Pipe { dir, limit, t } => Q::Pipe { inner, dir, limit, t },
            Stage::Props(name) => Q::Props { inner, name },
            Stage::PProp(name, exists) => Q::PProp { inner, name, exists },
            Stage::PVal(name, value, equal) => Q::PVal { inner, name, value, equal },
            Stage::Count => Q::Count(inner),
        };
    }
    q
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    V,
    E,
    N,
    VP,
    EP,
}

pub fn leaf_ty(q: &Q) -> Ty {
    match q {
        Q::AllV | Q::RangeV { .. } | Q::SpecV(_) | Q::VProp(_) | Q::VVal(..) => Ty::V,
        _ => Ty::E,
    }
}

pub fn is_index_leaf(q: &Q) -> bool {
    matches!(q, Q::VProp(_) | Q::VVal(..) | Q::EProp(_) | Q::EVal(..))
}

pub fn stage_ty(t: Ty, s: &Stage) -> Option<Ty> {
    Some(match (t, s) {
        (Ty::V, Stage::Pipe { .. }) => Ty::E,
        (Ty::E, Stage::Pipe { .. }) => Ty::V,
        (Ty::V, Stage::Props(_)) => Ty::VP,
        (Ty::E, Stage::Props(_)) => Ty::EP,
        (Ty::V | Ty::E, Stage::PProp(..) | Stage::PVal(..)) => t,
        (Ty::N, _) => return None,
        (_, Stage::Count) => Ty::N,
        _ => return None,
    })
}

impl Model {
    pub fn new() -> Model {
        Model::default()
    }

    /// The error a query must be refused with, if any, and otherwise its output type.
    pub fn classify(&self, c: &Chain) -> Result<Ty, EK> {
        match &c.leaf {
            Q::VProp(n) | Q::VVal(n, _) | Q::EProp(n) | Q::EVal(n, _) if !self.idx.contains(n) => return Err(EK::NotIndexed),
            _ => {}
        }
        let mut t = leaf_ty(&c.leaf);
        for (s, _) in &c.stages {
            t = stage_ty(t, s).ok_or(EK::OpOnQuery)?;
            match s {
                Stage::PProp(n, _) | Stage::PVal(n, _, _) if !self.idx.contains(n) => return Err(EK::NotIndexed),
                _ => {}
            }
        }
        Ok(t)
    }

    /// The edges of the given vertices on one side, by vertex.
    fn sides(&self, vs: &[V], dir: Dir, t: &Option<String>) -> BTreeMap<Uuid, BTreeSet<E>> {
        let mut out: BTreeMap<Uuid, BTreeSet<E>> = vs.iter().map(|v| (v.0, BTreeSet::new())).collect();
        for e in &self.e {
            if t.as_ref().is_none_or(|t| *t == e.t) {
                if let Some(g) = out.get_mut(if dir == Dir::Out { &e.o } else { &e.i }) {
                    g.insert(e.clone());
                }
            }
        }
        out
    }

    fn v_props(&self, id: Uuid, name: &Option<String>) -> Vec<(String, J)> {
        self.vp
            .range((id, String::new())..)
            .take_while(|(k, _)| k.0 == id)
            .filter(|(k, _)| name.as_ref().is_none_or(|n| *n == k.1))
            .map(|(k, v)| (k.1.clone(), v.clone()))
            .collect()
    }

    fn e_props(&self, e: &E, name: &Option<String>) -> Vec<(String, J)> {
        self.ep
            .range((e.clone(), String::new())..)
            .take_while(|(k, _)| k.0 == *e)
            .filter(|(k, _)| name.as_ref().is_none_or(|n| *n == k.1))
            .map(|(k, v)| (k.1.clone(), v.clone()))
            .collect()
    }

    /// What a leaf query outputs, in the order fixed by the query where there is one (all vertices, ranges and
    /// specific lists); for the others the order here is arbitrary.
    pub fn leaf(&self, q: &Q) -> O {
        match q {
            Q::AllV => O::V(self.v.iter().map(|(a, b)| (*a, b.clone())).collect()),
            Q::RangeV { limit, t, start } => O::V(
                self.v
                    .iter()
                    .filter(|(id, vt)| start.is_none_or(|s| s <= **id) && t.as_ref().is_none_or(|t| t == *vt))
                    .take(*limit as usize)
                    .map(|(a, b)| (*a, b.clone()))
                    .collect(),
            ),
            Q::SpecV(ids) => O::V(ids.iter().filter_map(|id| self.v.get(id).map(|t| (*id, t.clone()))).collect()),
            Q::VProp(n) => O::V(self.v.iter().filter(|(id, _)| self.vp.contains_key(&(**id, n.clone()))).map(|(a, b)| (*a, b.clone())).collect()),
            Q::VVal(n, val) => {
                O::V(self.v.iter().filter(|(id, _)| self.vp.get(&(**id, n.clone())) == Some(val)).map(|(a, b)| (*a, b.clone())).collect())
            }
            Q::AllE => O::E(self.e.iter().cloned().collect()),
            Q::SpecE(es) => O::E(es.iter().filter(|e| self.e.contains(e)).cloned().collect()),
            Q::EProp(n) => O::E(self.e.iter().filter(|e| self.ep.contains_key(&((*e).clone(), n.clone()))).cloned().collect()),
            Q::EVal(n, val) => O::E(self.e.iter().filter(|e| self.ep.get(&((*e).clone(), n.clone())) == Some(val)).cloned().collect()),
            _ => unreachable!("not a leaf"),
        }
    }

    fn has_v(&self, id: Uuid, n: &str, val: Option<&J>) -> bool {
        match (self.vp.get(&(id, n.to_string())), val) {
            (None, _) => false,
            (Some(_), None) => true,
            (Some(a), Some(b)) => a == b,
        }
    }

    fn has_e(&self, e: &E, n: &str, val: Option<&J>) -> bool {
        match (self.ep.get(&(e.clone(), n.to_string())), val) {
            (None, _) => false,
            (Some(_), None) => true,
            (Some(a), Some(b)) => a == b,
        }
    }

    /// What a stage outputs on a given input; for a pipe from vertices the edges of one vertex are in an
    /// arbitrary order. The flag says whether a limit cut something whose order is not fixed.
    pub fn stage(&self, s: &Stage, input: &O, ordered: bool) -> (O, bool, bool) {
        match (s, input) {
            (Stage::Pipe { dir, limit, t }, O::E(es)) => {
                let all: Vec<V> = es
                    .iter()
                    .map(|e| if *dir == Dir::Out { e.o } else { e.i })
                    .filter_map(|id| self.v.get(&id).map(|t| (id, t.clone())))
                    .filter(|v| t.as_ref().is_none_or(|t| *t == v.1))
                    .collect();
                let cut = all.len() > *limit as usize && *limit > 0;
                let inexact = cut && !ordered && !all.windows(2).all(|w| w[0] == w[1]);
                (O::V(all.into_iter().take(*limit as usize).collect()), ordered, inexact)
            }
            (Stage::Pipe { dir, limit, t }, O::V(vs)) => {
                let mut out = vec![];
                let (mut ord, mut inexact) = (ordered, false);
                let limit = *limit as usize;
                let sides = self.sides(vs, *dir, t);
                let total: usize = vs.iter().map(|v| sides[&v.0].len()).sum();
                if total > limit && limit > 0 && !ordered && vs.windows(2).any(|w| w[0] != w[1]) {
                    inexact = true;
                }
                for v in vs {
                    let g = &sides[&v.0];
                    if g.len() > 1 {
                        ord = false;
                    }
                    let room = limit - out.len();
                    if room < g.len() && room > 0 {
                        inexact = true;
                    }
                    out.extend(g.iter().take(room).cloned());
                    if out.len() >= limit {
                        break;
                    }
                }
                (O::E(out), ord, inexact)
            }
            (Stage::Props(n), O::V(vs)) => (
                O::VP(vs.iter().map(|v| (v.clone(), self.v_props(v.0, n))).filter(|p| !p.1.is_empty()).collect()),
                ordered,
                false,
            ),
            (Stage::Props(n), O::E(es)) => (
                O::EP(es.iter().map(|e| (e.clone(), self.e_props(e, n))).filter(|p| !p.1.is_empty()).collect()),
                ordered,
                false,
            ),
            (Stage::PProp(n, x), O::V(vs)) => (O::V(vs.iter().filter(|v| self.has_v(v.0, n, None) == *x).cloned().collect()), ordered, false),
            (Stage::PProp(n, x), O::E(es)) => (O::E(es.iter().filter(|e| self.has_e(e, n, None) == *x).cloned().collect()), ordered, false),
            (Stage::PVal(n, j, x), O::V(vs)) => (O::V(vs.iter().filter(|v| self.has_v(v.0, n, Some(j)) == *x).cloned().collect()), ordered, false),
            (Stage::PVal(n, j, x), O::E(es)) => (O::E(es.iter().filter(|e| self.has_e(e, n, Some(j)) == *x).cloned().collect()), ordered, false),
            (Stage::Count, o) => (O::N(o.len()), true, false),
            _ => unreachable!("stage does not compose"),
        }
    }

    /// Evaluates a whole query: every output in turn, whether the final one's order is fixed, and whether the
    /// result is exact (false when a limit cuts a list whose order is not fixed).
    pub fn eval(&self, c: &Chain) -> (Vec<O>, bool, bool) {
        let mut outs = vec![self.leaf(&c.leaf)];
        let mut ordered = matches!(c.leaf, Q::AllV | Q::RangeV { .. } | Q::SpecV(_) | Q::SpecE(_));
        let mut exact = true;
        for (s, _) in &c.stages {
            let (o, ord, inexact) = self.stage(s, outs.last().unwrap(), ordered);
            outs.push(o);
            ordered = ord;
            exact &= !inexact;
        }
        (outs, ordered, exact)
    }

    /// How many elements evaluating the query goes through.
    pub fn cost(&self, c: &Chain) -> u64 {
        let mut vs: BTreeMap<Uuid, u64> = BTreeMap::new();
        let mut es: BTreeMap<&E, u64> = BTreeMap::new();
        let mut on_v = true;
        let leaf = self.leaf(&c.leaf);
        let mut total = leaf.len();
        match &leaf {
            O::V(l) => l.iter().for_each(|v| *vs.entry(v.0).or_default() += 1),
            O::E(l) => {
                on_v = false;
                l.iter().for_each(|e| *es.entry(self.e.get(e).unwrap()).or_default() += 1)
            }
            _ => {}
        }
        for (s, _) in &c.stages {
            if let Stage::Pipe { dir, .. } = s {
                if on_v {
                    es = self.e.iter().filter_map(|e| vs.get(if *dir == Dir::Out { &e.o } else { &e.i }).map(|n| (e, *n))).collect();
                    total = total.saturating_add(es.values().sum());
                } else {
                    vs.clear();
                    for (e, n) in &es {
                        *vs.entry(if *dir == Dir::Out { e.o } else { e.i }).or_default() += n;
                    }
                    total = total.saturating_add(vs.values().sum());
                }
                on_v = !on_v;
            }
        }
        total
    }

    /// Checks a leaf's actual output.
    pub fn check_leaf(&self, q: &Q, got: &O) -> R {
        let want = self.leaf(q);
        let ok = match q {
            Q::AllV | Q::RangeV { .. } | Q::SpecV(_) | Q::SpecE(_) => want == *got,
            _ => want.sorted() == got.sorted(),
        };
        ensure!(ok, "query-leaf", "query {q:?}\n  returned {got:?}\n  expected {want:?}");
        Ok(())
    }

    /// Checks a stage's actual output against its actual input.
    pub fn check_stage(&self, s: &Stage, input: &O, got: &O) -> R {
        if let (Stage::Pipe { dir, limit, t }, O::V(vs), O::E(es)) = (s, input, got) {
            let mut rest: &[E] = es;
            let mut room = *limit as usize;
            let sides = self.sides(vs, *dir, t);
            for v in vs {
                let group = &sides[&v.0];
                let n = group.len().min(room);
                ensure!(rest.len() >= n, "query-pipe", "stage {s:?} on {input:?}\n  returned too little: {got:?}\n  for {v:?} expected {n} of {group:?}");
                let (mine, r) = rest.split_at(n);
                let set: BTreeSet<&E> = mine.iter().collect();
                ensure!(
                    set.len() == n && mine.iter().all(|e| group.contains(e)),
                    "query-pipe",
                    "stage {s:?} on {input:?}\n  returned {got:?}\n  for {v:?} expected {n} of {group:?}, got {mine:?}"
                );
                rest = r;
                room -= n;
            }
            ensure!(rest.is_empty(), "query-pipe", "stage {s:?} on {input:?}\n  returned {got:?}\n  too many: {rest:?}");
            return Ok(());
        }
        let (want, _, _) = self.stage(s, input, true);
        ensure!(want.normal() == got.normal(), "query-stage", "stage {s:?} on {input:?}\n  returned {got:?}\n  expected {want:?}");
        Ok(())
    }

    // ---- writes ----

    pub fn create_v(&mut self, id: Uuid, t: &str) -> bool {
        if self.v.contains_key(&id) {
            return false;
        }
        self.v.insert(id, t.to_string());
        true
    }

    pub fn create_e(&mut self, e: &E) -> bool {
        if !self.v.contains_key(&e.o) || !self.v.contains_key(&e.i) {
            return false;
        }
        self.e.insert(e.clone());
        true
    }

    pub fn del_v(&mut self, id: Uuid) {
        self.v.remove(&id);
        self.vp.retain(|k, _| k.0 != id);
        self.e.retain(|e| e.o != id && e.i != id);
        self.ep.retain(|k, _| k.0.o != id && k.0.i != id);
    }

    pub fn del_e(&mut self, e: &E) {
        self.e.remove(e);
        self.ep.retain(|k, _| k.0 != *e);
    }

    pub fn set(&mut self, targets: &O, name: &str, value: &J) {
        match targets {
            O::V(vs) => vs.iter().for_each(|v| {
                self.vp.insert((v.0, name.to_string()), value.clone());
            }),
            O::E(es) => es.iter().for_each(|e| {
                self.ep.insert((e.clone(), name.to_string()), value.clone());
            }),
            _ => unreachable!(),
        }
    }

    pub fn delete(&mut self, targets: &O) {
        match targets {
            O::V(vs) => {
                let ids: BTreeSet<Uuid> = vs.iter().map(|v| v.0).collect();
                self.v.retain(|id, _| !ids.contains(id));
                self.vp.retain(|k, _| !ids.contains(&k.0));
                self.e.retain(|e| !ids.contains(&e.o) && !ids.contains(&e.i));
                self.ep.retain(|k, _| !ids.contains(&k.0.o) && !ids.contains(&k.0.i));
            }
            O::E(es) => {
                let es: BTreeSet<&E> = es.iter().collect();
                self.e.retain(|e| !es.contains(e));
                self.ep.retain(|k, _| !es.contains(&k.0));
            }
            O::VP(ps) => ps.iter().for_each(|(v, p)| {
                p.iter().for_each(|(n, _)| {
                    self.vp.remove(&(v.0, n.clone()));
                })
            }),
            O::EP(ps) => ps.iter().for_each(|(e, p)| {
                p.iter().for_each(|(n, _)| {
                    self.ep.remove(&(e.clone(), n.clone()));
                })
            }),
            O::N(_) => unreachable!(),
        }
    }

    /// Whether a bulk item's references are satisfied.
    pub fn item_ok(&self, it: &Item) -> bool {
        match it {
            Item::V(..) => true,
            Item::E(e) => self.v.contains_key(&e.o) && self.v.contains_key(&e.i),
            Item::VP(id, _, _) => self.v.contains_key(id),
            Item::EP(e, _, _) => self.e.contains(e),
        }
    }

    pub fn apply_item(&mut self, it: &Item) {
        match it {
            Item::V(id, t) => {
                self.v.entry(*id).or_insert_with(|| t.clone());
            }
            Item::E(e) => {
                self.e.insert(e.clone());
            }
            Item::VP(id, n, j) => {
                self.vp.insert((*id, n.clone()), j.clone());
            }
            Item::EP(e, n, j) => {
                self.ep.insert((e.clone(), n.clone()), j.clone());
            }
        }
    }

    /// Keeps the items whose references are satisfied by the model or by earlier kept items.
    pub fn sanitise(&self, items: &[Item]) -> Vec<Item> {
        let mut m = self.clone();
        let mut out = vec![];
        for it in items {
            if m.item_ok(it) {
                m.apply_item(it);
                out.push(it.clone());
            }
        }
        out
    }
}
