//! Long histories: thousands of operations, one after the other, on one database and few elements, so that
//! whatever counts, accumulates or wraps around gets the time to.
use crate::driver::*;
use crate::gen::{self, pick, Mix, Rand};
use crate::hist::*;
use crate::model::*;
use crate::store::*;
use crate::types::*;
use rand::prelude::*;
use serde::{Deserialize, Serialize};

use super::graph::{new_store, Kind};
use super::remote::{remote, Any};
use super::wide::{At, Saved};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Marathon {
    pub seed: u64,
    pub ids: u8,
    pub ops: u32,
    /// everything is looked at after so many
    pub every: u32,
    /// what is done: the usual, or mostly one kind of operation
    pub kind: u8,
}

pub struct Long {
    pub at: At,
    pub mix: Mix,
    pub max: u32,
}

impl Long {
    fn mix(&self, c: &Marathon) -> Mix {
        let m = Mix { qdepth: 2, wild: c.kind & 8 != 0, cvt: 0, get: 6, ..self.mix };
        let m = match c.kind % 6 {
            0 => Mix { cv: 20, vdel: 1.0, del: 8, ..m },
            1 => Mix { ce: 30, ..m },
            2 => Mix { set: 30, ..m },
            3 => Mix { bulk: 20, bulk_max: 4, ..m },
            _ => m,
        };
        // opening again takes much longer than anything else
        let k = if matches!(self.at, At::Rdb) { 12 } else { 3 };
        let m = Mix { cv: m.cv * k, ce: m.ce * k, set: m.set * k, del: m.del * k, bulk: m.bulk * k, index: m.index * 2, get: m.get * k, ..m };
        match self.at {
            At::Rdb => Mix { sync: m.sync.min(1), reopen: m.reopen.min(1), ..m },
            At::Image => Mix { sync: 1, reopen: 1, ..m },
            _ => Mix { sync: 0, reopen: 0, ..m },
        }
    }

    fn long(&self, s: &mut dyn Store, c: &Marathon, seen: &mut Seen) -> R {
        let r = &mut Rand::seed_from_u64(c.seed);
        let w = gen::world(r, c.ids.max(2) as usize);
        let mix = self.mix(c);
        let mut m = Model::new();
        let vals: Vec<J> = w.vals.iter().take(3).cloned().collect();
        for k in 0..c.ops {
            let op = gen::op(r, &w, &m, &mix);
            let at = |f: Fail| Fail { kind: f.kind, msg: format!("at operation {k} ({op:?}): {}", f.msg) };
            step(s, &mut m, &op, seen).map_err(at)?;
            if (k + 1) % c.every.max(1) == 0 {
                check_all(s, &m, &w.names, &vals).map_err(at)?;
            }
        }
        check_all(s, &m, &w.names, &vals)?;
        seen.tag("long");
        for (at, l) in [(4096, "over-4096"), (10000, "over-10000"), (65536, "over-65536")] {
            if c.ops > at {
                seen.tag(l);
            }
        }
        Ok(())
    }
}

impl Part for Long {
    type Case = Marathon;
    fn name(&self) -> &'static str {
        match self.at {
            At::Mem => "memory-long",
            At::Rdb => "rocksdb-long",
            At::Image => "image-long",
            At::Net(Kind::Mem) => "net-memory-long",
            At::Net(Kind::Rdb) => "net-rocksdb-long",
        }
    }
    fn gen(&self, r: &mut Rand, i: usize) -> Marathon {
        let at = [1100, 2100, 4200, 5100, 8300, 10100, 16500, 20100, 33000, 50100, 66000, 100100, 131100];
        // half of the cases are not the longest, nor RocksDB's first ones: it takes its time
        let slow = matches!(self.at, At::Rdb | At::Net(_));
        let max = if i % 2 == 0 || slow && i < 16 { self.max.min(16500) } else { self.max };
        let ok: Vec<u32> = at.iter().copied().filter(|x| *x <= max).collect();
        Marathon { seed: r.gen(), ids: r.gen_range(2..7), ops: *pick(r, &ok) + r.gen_range(0..100), every: *pick(r, &[100, 256, 1000]), kind: r.gen() }
    }
    fn run(&self, c: &Marathon, seen: &mut Seen) -> R {
        match self.at {
            At::Mem => self.long(new_store(Kind::Mem).as_mut(), c, seen),
            At::Rdb => self.long(new_store(Kind::Rdb).as_mut(), c, seen),
            At::Image => self.long(&mut Saved::new(), c, seen),
            At::Net(k) => match &mut remote(k, 0, 1) {
                Any::Mem(s) => self.net(s, c, seen),
                Any::Rdb(s) => self.net(s, c, seen),
            },
        }
    }
    fn nontrivial(&self, c: &Marathon, seen: &Seen) -> bool {
        seen.has("long") && c.ops > 1000
    }
    fn shrink_budget(&self) -> (u64, usize) {
        (60, 200)
    }
}

impl Long {
    fn net<D: indradb::Datastore + Send + Sync + 'static>(&self, s: &mut super::remote::Remote<D>, c: &Marathon, seen: &mut Seen) -> R {
        self.long(s, c, seen)?;
        match s.diff.take() {
            Some(d) => fail("differs", d.chars().take(1500).collect::<String>()),
            None => Ok(()),
        }
    }
}
