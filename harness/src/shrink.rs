//! A shrinker that works on the serialised form of any case: it removes array elements, replaces nodes by
//! their descendants and simplifies scalars, keeping a change only if the case still parses and still fails
//! in the same way.
use serde_json::Value;
use std::time::{Duration, Instant};

pub struct Budget {
    pub until: Instant,
    pub runs: usize,
}

impl Budget {
    pub fn new(secs: u64, runs: usize) -> Budget {
        Budget { until: Instant::now() + Duration::from_secs(secs), runs }
    }
    fn spent(&self) -> bool {
        self.runs == 0 || Instant::now() > self.until
    }
}

type Path = Vec<Step>;
#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn at<'a>(v: &'a Value, p: &[Step]) -> Option<&'a Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::Key(k) => v.get(k)?,
            Step::Idx(i) => v.get(*i)?,
        }
    }
    Some(v)
}

fn replaced(v: &Value, p: &[Step], new: Value) -> Value {
    let mut out = v.clone();
    {
        let mut cur = &mut out;
        for s in p {
            cur = match s {
                Step::Key(k) => cur.get_mut(k).unwrap(),
                Step::Idx(i) => cur.get_mut(*i).unwrap(),
            }
        }
        *cur = new;
    }
    out
}

fn paths(v: &Value, pre: &mut Path, out: &mut Vec<Path>) {
    out.push(pre.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                pre.push(Step::Idx(i));
                paths(x, pre, out);
                pre.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                pre.push(Step::Key(k.clone()));
                paths(x, pre, out);
                pre.pop();
            }
        }
        _ => {}
    }
}

fn all_paths(v: &Value) -> Vec<Path> {
    let mut out = vec![];
    paths(v, &mut vec![], &mut out);
    out
}

fn descendants(v: &Value, depth: usize, out: &mut Vec<Value>) {
    if depth == 0 {
        return;
    }
    match v {
        Value::Array(a) => a.iter().for_each(|x| {
            out.push(x.clone());
            descendants(x, depth - 1, out);
        }),
        Value::Object(o) => o.values().for_each(|x| {
            out.push(x.clone());
            descendants(x, depth - 1, out);
        }),
        _ => {}
    }
}

/// A limit is simplest when it is the largest one, i.e. none.
fn scalars(v: &Value, limit: bool) -> Vec<Value> {
    match v {
        Value::Number(n) => {
            let mut out = vec![];
            if let Some(n) = n.as_u64() {
                let none = u32::MAX as u64;
                if limit && n != none {
                    out.push(Value::from(none));
                }
                for c in [0, 1, n / 2, n.saturating_sub(1)] {
                    if c < n && !(limit && n == none) {
                        out.push(Value::from(c));
                    }
                }
            } else if n.as_i64().is_some() {
                out.push(Value::from(-1));
            }
            out
        }
        Value::String(s) => {
            if uuid::Uuid::parse_str(s).is_ok() && s.len() == 36 {
                let me = s.clone();
                return (1..4u128).map(|k| uuid::Uuid::from_u128(k).to_string()).filter(|c| *c < me).map(Value::from).collect();
            }
            let mut out = vec![];
            for c in ["", "a", "b", "c"] {
                if c.len() < s.len() || (c.len() == s.len() && c < s.as_str()) {
                    out.push(Value::from(c));
                }
            }
            let n = s.chars().count();
            if n > 3 {
                out.push(s.chars().take(n / 2).collect::<String>().into());
                out.push(s.chars().take(n - 1).collect::<String>().into());
            }
            out
        }
        Value::Bool(true) => vec![Value::Bool(false)],
        Value::Bool(false) => vec![],
        Value::Array(_) | Value::Object(_) => vec![Value::Null],
        Value::Null => vec![],
    }
}

/// `fails` says whether a candidate parses and still fails in the same way.
pub fn shrink(start: Value, mut fails: impl FnMut(&Value) -> bool, mut b: Budget) -> Value {
    let mut cur = start;
    loop {
        let before = cur.clone();
        // 1. drop array elements, big arrays first
        let mut arrays: Vec<Path> = all_paths(&cur).into_iter().filter(|p| at(&cur, p).is_some_and(|v| v.is_array())).collect();
        arrays.sort_by_key(|p| p.len());
        for p in arrays {
            let mut chunk = match at(&cur, &p) {
                Some(Value::Array(a)) if !a.is_empty() => a.len(),
                _ => continue,
            };
            while chunk > 0 {
                let mut i = 0;
                loop {
                    let a = match at(&cur, &p) {
                        Some(Value::Array(a)) => a.clone(),
                        _ => break,
                    };
                    if i >= a.len() || b.spent() {
                        break;
                    }
                    let mut s = a.clone();
                    s.drain(i..(i + chunk).min(a.len()));
                    let cand = replaced(&cur, &p, Value::Array(s));
                    b.runs -= 1;
                    if fails(&cand) {
                        cur = cand;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // 2. replace a node by something inside it, then 3. simplify scalars
        for pass in 0..2 {
            let mut k = 0;
            loop {
                let ps = all_paths(&cur);
                if k >= ps.len() || b.spent() {
                    break;
                }
                let p = &ps[k];
                let node = at(&cur, p).unwrap().clone();
                let cands = if pass == 0 {
                    let mut d = vec![];
                    descendants(&node, 3, &mut d);
                    d
                } else {
                    scalars(&node, matches!(p.last(), Some(Step::Key(k)) if k == "limit"))
                };
                for c in cands {
                    if c == node || b.spent() {
                        continue;
                    }
                    let cand = replaced(&cur, p, c);
                    b.runs -= 1;
                    if fails(&cand) {
                        cur = cand;
                        break;
                    }
                }
                k += 1;
            }
        }
        if cur == before || b.spent() {
            return cur;
        }
    }
}
