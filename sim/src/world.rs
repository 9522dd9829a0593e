//! LIB: simulated clients, each owning filters, and a simulated disk, driving the real library through its
//! public API. A run is an explicit list of steps (the plan); executing a plan is a pure function of it.

use crate::refimpl::{self, RefFilter};
use crate::rng::{Digest, Rng};
use crate::simio::*;
use poppy_filters::{v1, v2, BloomFilter, Error, OptLevel, Params, PoppyHash};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const SLOTS: usize = 5;
pub const FILES: usize = 4;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub v: u8,
    pub cap: u64,
    /// f64 bits, so that replay files are exact
    pub fpp: u64,
    pub opt: u8,
}

impl Cfg {
    pub fn p(&self) -> f64 {
        f64::from_bits(self.fpp)
    }
    fn same(&self, o: &Cfg) -> bool {
        self.v == o.v && self.cap == o.cap && self.fpp == o.fpp && (self.v == 1 || self.opt == o.opt)
    }
    pub fn text(&self) -> String {
        format!("v{} cap={} fpp={:e} opt={}", self.v, self.cap, self.p(), self.opt)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ent {
    pub ty: u8,
    pub kind: u8,
    pub id: u32,
}

#[derive(Hash)]
struct Custom {
    a: u64,
    s: String,
}
impl PoppyHash for Custom {}

const FRESH: u32 = 1 << 28;

pub fn ent_bytes(kind: u8, id: u32) -> Vec<u8> {
    match kind {
        0 => id.to_le_bytes().to_vec(),
        1 => ((id as u64).wrapping_mul(0x9E3779B97F4A7C15)).to_le_bytes().to_vec(),
        2 => format!("entry-{id:08}-{}", "x".repeat((id % 29) as usize)).into_bytes(),
        3 => format!("{id:x}/{}", "long entry ".repeat(5 + (id % 23) as usize)).into_bytes(),
        4 => {
            let mut r = Rng::new(0x5a5a ^ id as u64);
            let n = [2, 4, 5, 8][(id % 4) as usize];
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(&format!("{:016x}", r.next()));
            }
            s.into_bytes()
        }
        5 => {
            // every length from 0 to 80, distinct content per id
            let mut r = Rng::new(0x77 ^ id as u64);
            let n = (id % 81) as usize;
            (0..n).map(|_| b'a' + (r.next() % 26) as u8).collect()
        }
        6 => format!("éàü-{id}-Ωß").into_bytes(),
        _ => {
            let mut r = Rng::new(0x99 ^ id as u64);
            // mostly some pages, now and then beyond 64 KiB
            let most = if r.below(16) == 0 { 9 } else { 5 };
            let n = (200usize << r.below(most)) + r.below(3000) as usize;
            let mut v = Vec::with_capacity(n + 8);
            while v.len() < n {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(n);
            v
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    /// keep only the first n bytes
    Truncate(u64),
    /// overwrite bytes at an offset
    Patch(u64, Vec<u8>),
    /// xor one byte
    Flip(u64, u8),
    /// replace everything
    Replace(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Create { s: usize, cfg: Cfg, api: u8 },
    Ins { s: usize, e: Ent, via: u8 },
    InsRange { s: usize, ty: u8, kind: u8, start: u32, n: u32, via: u8 },
    Query { s: usize, e: Ent, via: u8 },
    Clone { s: usize, t: usize },
    Union { s: usize, t: usize, api: u8 },
    Inter { s: usize, t: usize, api: u8 },
    Common { s: usize, t: usize },
    Save { s: usize, f: usize, w: WPlan },
    Load { s: usize, f: usize, r: RPlan, api: u8 },
    Partial { f: usize, r: RPlan },
    Crash { s: usize },
    Clear { s: usize },
    Data { s: usize, n: u32 },
    Damaged { f: usize, d: Damage, r: RPlan, partial: bool, api: u8 },
    /// the other implementation loads the file, inserts and saves it
    RefTurn { f: usize, ty: u8, kind: u8, start: u32, n: u32 },
    /// the other implementation creates a file
    RefCreate { f: usize, cfg: Cfg, data: u32, count: u64 },
    /// the other implementation merges file g into file f
    RefMerge { f: usize, g: usize },
    Probe { s: usize, n: u32, seed: u64 },
    Fpp { s: usize, n: u32, kind: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Default)]
pub struct Counters(pub BTreeMap<&'static str, u64>);
impl Counters {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.0.entry(k).or_insert(0) += n;
        }
    }
}

#[derive(Default)]
pub struct Outcome {
    pub digest: u64,
    pub violation: Option<String>,
    pub other: u64,
    pub ops: u64,
    pub counters: Counters,
    pub sim_calls: u64,
}

#[derive(Clone)]
struct Model {
    cfg: Cfg,
    must: BTreeSet<Ent>,
    data: Vec<u8>,
    cnt: u64,
    /// bits are exactly those of `must` (no intersection)
    pure: bool,
    /// came from the other implementation at some point
    foreign: bool,
}

#[derive(Clone)]
struct Slot {
    f: BloomFilter,
    m: Model,
    twin: Option<BloomFilter>,
    shadow: Option<RefFilter>,
}

#[derive(Clone)]
struct FileSt {
    bytes: Vec<u8>,
    /// complete content expected, with its model; None once torn
    full: usize,
    m: Model,
    twin: Option<BloomFilter>,
    shadow: Option<RefFilter>,
}

struct Stop(String);

enum Ins {
    New,
    Old,
    Accepted,
    Refused,
    Other(String),
}

fn conv(r: Result<bool, Error>) -> Ins {
    match r {
        Ok(true) => Ins::New,
        Ok(false) => Ins::Old,
        Err(Error::TooManyEntries) => Ins::Refused,
        Err(e) => Ins::Other(e.to_string()),
    }
}

fn ins_code(i: &Ins) -> u64 {
    match i {
        Ins::New => 1,
        Ins::Old => 2,
        Ins::Accepted => 3,
        Ins::Refused => 4,
        Ins::Other(_) => 5,
    }
}

fn custom(id: u32) -> Custom {
    Custom { a: id as u64, s: format!("c{id}") }
}

fn do_insert(f: &mut BloomFilter, e: &Ent, via: u8) -> Ins {
    let b = ent_bytes(e.kind, e.id);
    if via == 6 && (e.ty == 0 || f.version() == 1) {
        return match f.fill(vec![b]) {
            Ok(()) => Ins::Accepted,
            Err(Error::TooManyEntries) => Ins::Refused,
            Err(e) => Ins::Other(e.to_string()),
        };
    }
    if via == 0 && (e.ty == 0 || f.version() == 1) {
        return conv(f.insert_bytes(&b));
    }
    match f {
        BloomFilter::V1(v) => conv(v.insert_bytes(&b)),
        BloomFilter::V2(v) => {
            let x = e.id as u64;
            if e.ty == 0 {
                let s = std::str::from_utf8(&b).ok();
                return conv(match (via, s) {
                    (2, Some(s)) => v.insert(&s),
                    (3, Some(s)) => v.insert(&s.to_string()),
                    (4, _) => v.insert(&b),
                    (5, _) => v.insert_iter(v2::BloomFilter::build_index_iter(&b.as_slice())),
                    _ => v.insert_bytes(&b),
                });
            }
            macro_rules! g {
                ($v:expr) => {
                    if via % 2 == 1 {
                        v.insert_iter(v2::BloomFilter::build_index_iter(&$v))
                    } else {
                        v.insert(&$v)
                    }
                };
            }
            conv(match e.ty {
                1 => g!(x),
                2 => g!(e.id),
                3 => g!(-(x as i64) - 1),
                4 => g!((x as u128) << 64 | 7),
                5 => g!(e.id as u16),
                6 => g!(if x % 7 == 0 { None } else { Some(x) }),
                7 => g!(x as usize),
                8 => g!(x as i8),
                _ => g!(custom(e.id)),
            })
        }
    }
}

fn do_contains(f: &BloomFilter, e: &Ent, via: u8) -> bool {
    let b = ent_bytes(e.kind, e.id);
    if via % 6 == 0 && (e.ty == 0 || f.version() == 1) {
        return f.contains_bytes(&b);
    }
    match f {
        BloomFilter::V1(v) => v.contains_bytes(&b),
        BloomFilter::V2(v) => {
            let x = e.id as u64;
            if e.ty == 0 {
                let s = std::str::from_utf8(&b).ok();
                return match (via % 6, s) {
                    (2, Some(s)) => v.contains(&s),
                    (3, Some(s)) => v.contains(&s.to_string()),
                    (4, _) => v.contains(&b),
                    (5, _) => v.contains_iter(v2::BloomFilter::build_index_iter(&b.as_slice())).unwrap_or(false),
                    _ => v.contains_bytes(&b),
                };
            }
            macro_rules! g {
                ($v:expr) => {
                    if via % 2 == 1 {
                        v.contains_iter(v2::BloomFilter::build_index_iter(&$v)).unwrap_or(false)
                    } else {
                        v.contains(&$v)
                    }
                };
            }
            match e.ty {
                1 => g!(x),
                2 => g!(e.id),
                3 => g!(-(x as i64) - 1),
                4 => g!((x as u128) << 64 | 7),
                5 => g!(e.id as u16),
                6 => g!(if x % 7 == 0 { None } else { Some(x) }),
                7 => g!(x as usize),
                8 => g!(x as i8),
                _ => g!(custom(e.id)),
            }
        }
    }
}

fn ref_hash(e: &Ent) -> refimpl::EntryHash {
    let mut h = refimpl::hash_bytes(&ent_bytes(e.kind, e.id));
    match e.ty {
        1 => h.h64 = refimpl::wy(&(e.id as u64).to_le_bytes()),
        2 => h.h64 = refimpl::wy(&e.id.to_le_bytes()),
        _ => {}
    }
    h
}

/// through the common interface, or that of the version
fn same_params(a: &BloomFilter, b: &BloomFilter, api: u8) -> bool {
    match (api % 3, a, b) {
        (1, BloomFilter::V1(x), BloomFilter::V1(y)) => x.has_same_params(y),
        (1, BloomFilter::V2(x), BloomFilter::V2(y)) => x.has_same_params(y),
        _ => a.has_same_params(b),
    }
}

fn common_entries(a: &BloomFilter, b: &BloomFilter, api: u8) -> Result<usize, Error> {
    match (api % 3, a, b) {
        (1, BloomFilter::V1(x), BloomFilter::V1(y)) => x.count_common_entries(y),
        (1, BloomFilter::V2(x), BloomFilter::V2(y)) => x.count_common_entries(y),
        _ => a.count_common_entries(b),
    }
}

pub fn make(cfg: &Cfg, api: u8) -> Result<BloomFilter, Error> {
    let opt = OptLevel::try_from(cfg.opt).unwrap();
    let (cap, p) = (cfg.cap as usize, cfg.p());
    match api % 4 {
        1 => BloomFilter::try_from(Params::new(cap, p).version(cfg.v).opt(opt)),
        2 => {
            let pr = Params::new(cap, p).version(cfg.v).opt(opt);
            Ok(if cfg.v == 1 { BloomFilter::V1(pr.try_into_v1()?) } else { BloomFilter::V2(pr.try_into_v2()?) })
        }
        3 if cfg.opt == 0 => match cfg.v {
            1 if cfg.cap % 2 == 0 => BloomFilter::with_version_capacity(1, cap, p),
            1 => Ok(BloomFilter::V1(v1::BloomFilter::with_capacity(cfg.cap, p)?)),
            _ => BloomFilter::with_capacity(cap, p),
        },
        _ => BloomFilter::with_version_capacity_opt(cfg.v, cap, p, opt),
    }
}

pub fn plain_bytes(f: &BloomFilter) -> Vec<u8> {
    let mut v = vec![];
    let _ = f.write(&mut v);
    v
}

fn ones(f: &BloomFilter) -> usize {
    match f {
        BloomFilter::V1(b) => b.count_ones(),
        BloomFilter::V2(b) => b.count_ones(),
    }
}

fn payload(p: Box<dyn std::any::Any + Send>) -> String {
    if p.is::<SimHang>() {
        return "endless loop (stream call budget exhausted)".into();
    }
    if p.is::<SimCrash>() {
        return "SIMCRASH".into();
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        return s.to_string();
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return s.clone();
    }
    "panic".into()
}

pub struct World<'a> {
    prop: &'a str,
    slots: Vec<Option<Slot>>,
    files: Vec<Option<FileSt>>,
    out: Outcome,
    dg: Digest,
    twins: bool,
    shadows: bool,
    refused: u64,
}

pub fn exec(plan: &Plan) -> Outcome {
    let mut w = World {
        prop: &plan.prop,
        slots: vec![None; SLOTS],
        files: vec![None; FILES],
        out: Outcome::default(),
        dg: Digest::default(),
        twins: matches!(plan.prop.as_str(), "C02" | "C19"),
        shadows: plan.prop == "C13",
        refused: 0,
    };
    for (i, op) in plan.ops.iter().enumerate() {
        w.out.ops += 1;
        if let Err(Stop(m)) = w.step(op) {
            w.out.violation = Some(format!("step {i} {}: {m}", brief(op)));
            break;
        }
        if let Err(Stop(m)) = w.invariants(op, plan.seed ^ i as u64, i + 1 == plan.ops.len()) {
            w.out.violation = Some(format!("after step {i} {}: {m}", brief(op)));
            break;
        }
    }
    if let Some(v) = &w.out.violation {
        w.dg.bytes(v.as_bytes());
    }
    w.out.digest = w.dg.0;
    w.out
}

fn brief(op: &Op) -> String {
    let s = format!("{op:?}");
    s.chars().take(160).collect()
}

type R = Result<(), Stop>;

/// bound on |estimate - distinct| after a merge, for entries with well spread hashes
pub fn count_tolerance(cfg: &Cfg, d: u64) -> f64 {
    let s = refimpl::sizing(cfg.v, cfg.cap, cfg.p(), cfg.opt);
    let (m, parts) = if cfg.v == 1 { (s.m as f64, 1.0) } else { (32768.0, s.n_buckets.max(1) as f64) };
    let k = s.k.max(1) as f64;
    // allow one part to be loaded well above the average
    let nb = d as f64 / parts + 6.0 * (d as f64 / parts).sqrt() + 6.0;
    let t = (k * nb / m).min(30.0);
    let var = parts * (m / (k * k)) * (t.exp() - t - 1.0);
    let base = 8.0 * var.sqrt() + parts + 2.0;
    if cfg.v == 1 {
        base + 0.25 * d as f64 + 2.0
    } else {
        base + 0.01 * d as f64
    }
}

impl<'a> World<'a> {
    fn on(&self, p: &str) -> bool {
        self.prop == p
    }

    /// a failed oracle: stops the run when it belongs to the property under check
    fn fail(&mut self, props: &[&str], m: String) -> R {
        if props.contains(&self.prop) {
            return Err(Stop(m));
        }
        self.out.other += 1;
        Ok(())
    }

    fn guard<T>(&mut self, props: &[&str], what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, Stop> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(Some(v)),
            Err(p) => {
                let m = payload(p);
                self.fail(props, format!("{what} panicked: {m}"))?;
                Ok(None)
            }
        }
    }

    fn bytes(&mut self, s: usize) -> Result<Vec<u8>, Stop> {
        let f = match &self.slots[s] {
            Some(x) => x.f.clone(),
            None => return Ok(vec![]),
        };
        Ok(self.guard(&["C02", "C03", "C13"], "plain save", || plain_bytes(&f))?.unwrap_or_default())
    }

    fn step(&mut self, op: &Op) -> R {
        match op.clone() {
            Op::Create { s, cfg, api } => self.create(s, cfg, api),
            Op::Ins { s, e, via } => self.insert(s, e, via),
            Op::InsRange { s, ty, kind, start, n, via } => {
                if via == 7 && ty == 0 {
                    return self.fill(s, kind, start, n);
                }
                for i in 0..n {
                    self.insert(s, Ent { ty, kind, id: start + i }, via)?;
                }
                Ok(())
            }
            Op::Query { s, e, via } => self.query(s, e, via),
            Op::Clone { s, t } => {
                if let Some(x) = &self.slots[s] {
                    let f = x.f.clone();
                    let mut y = x.clone();
                    y.f = f;
                    self.slots[t] = Some(y);
                    self.out.counters.add("op_clone", 1);
                }
                Ok(())
            }
            Op::Union { s, t, api } => self.union(s, t, api),
            Op::Inter { s, t, api } => self.inter(s, t, api),
            Op::Common { s, t } => self.common(s, t),
            Op::Save { s, f, w } => self.save(s, f, &w),
            Op::Load { s, f, r, api } => self.load(s, f, &r, api),
            Op::Partial { f, r } => self.partial(f, &r),
            Op::Crash { s } => {
                if self.slots[s].take().is_some() {
                    self.out.counters.add("fault_client_crash", 1);
                }
                Ok(())
            }
            Op::Clear { s } => self.clear(s),
            Op::Data { s, n } => {
                if let Some(x) = &mut self.slots[s] {
                    let d: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31) ^ n as u8).collect();
                    let set = |f: &mut BloomFilter| match f {
                        BloomFilter::V1(b) => b.data = d.clone(),
                        BloomFilter::V2(b) => b.data = d.clone(),
                    };
                    set(&mut x.f);
                    if let Some(t) = &mut x.twin {
                        set(t)
                    }
                    if let Some(t) = &mut x.shadow {
                        t.data = d.clone()
                    }
                    x.m.data = d;
                }
                Ok(())
            }
            Op::Damaged { f, d, r, partial, api } => self.damaged(f, &d, &r, partial, api),
            Op::RefTurn { f, ty, kind, start, n } => self.ref_turn(f, ty, kind, start, n),
            Op::RefCreate { f, cfg, data, count } => {
                let mut x = RefFilter::create(cfg.v, cfg.cap, cfg.p(), cfg.opt);
                x.count = count;
                x.data = (0..data).map(|i| i as u8).collect();
                let bytes = x.write();
                self.out.counters.add("op_ref_create", 1);
                self.files[f] = Some(FileSt {
                    full: bytes.len(),
                    m: Model { cfg, must: BTreeSet::new(), data: x.data.clone(), cnt: count, pure: true, foreign: true },
                    twin: if self.prop == "C02" { BloomFilter::from_reader(std::io::Cursor::new(&bytes)).ok() } else { None },
                    shadow: Some(x),
                    bytes,
                });
                Ok(())
            }
            Op::RefMerge { f, g } => {
                let (Some(a), Some(b)) = (self.files[f].clone(), self.files[g].clone()) else { return Ok(()) };
                let (Some(mut x), Some(y)) = (RefFilter::read(&a.bytes), RefFilter::read(&b.bytes)) else { return Ok(()) };
                if !a.m.cfg.same(&b.m.cfg) || x.bits.len() != y.bits.len() || x.cache.len() != y.cache.len() {
                    return Ok(());
                }
                x.or(&y);
                let mut m = a.m.clone();
                m.must.extend(b.m.must.iter().cloned());
                m.foreign = true;
                m.pure &= b.m.pure;
                let bytes = x.write();
                self.out.counters.add("op_ref_merge", 1);
                self.files[f] = Some(FileSt { full: bytes.len(), bytes, m, twin: None, shadow: Some(x) });
                Ok(())
            }
            Op::Probe { s, n, seed } => self.probe(s, n, seed),
            Op::Fpp { s, n, kind } => self.fpp(s, n, kind),
        }
    }

    fn create(&mut self, s: usize, cfg: Cfg, api: u8) -> R {
        self.out.counters.add("op_create", 1);
        let r = self.guard(&["C01", "C05", "C13", "C17", "C22"], "create", || make(&cfg, api))?;
        match r {
            Some(Ok(f)) => {
                let twin = if self.twins { make(&cfg, 0).ok() } else { None };
                let shadow =
                    if self.shadows { Some(RefFilter::create(cfg.v, cfg.cap, cfg.p(), cfg.opt)) } else { None };
                let (c, p, ver) = (f.capacity() as u64, f.fpp(), f.version());
                let m = Model { cfg, must: BTreeSet::new(), data: vec![], cnt: 0, pure: true, foreign: false };
                let n = f.count_estimate();
                self.slots[s] = Some(Slot { f, m, twin, shadow });
                if c != cfg.cap || p.to_bits() != cfg.fpp || ver != cfg.v || n != 0 {
                    self.fail(&["C05", "C13", "C02", "C19"], format!("new filter {} reports capacity {c} fpp {p} version {ver} count {n}", cfg.text()))?;
                }
                if self.shadows && !refimpl::sizing(cfg.v, cfg.cap, cfg.p(), cfg.opt).ambiguous {
                    let b = self.bytes(s)?;
                    let want = self.slots[s].as_ref().unwrap().shadow.as_ref().unwrap().write();
                    if b != want {
                        self.fail(&["C13"], format!("new filter {} is laid out differently from the published format: {}", cfg.text(), first_diff(&b, &want)))?;
                    }
                }
            }
            Some(Err(e)) => {
                self.slots[s] = None;
                self.fail(&["C01", "C05", "C13", "C17"], format!("creating {} failed: {e}", cfg.text()))?;
            }
            None => self.slots[s] = None,
        }
        Ok(())
    }

    /// many at once must be the same as one by one up to the first that is refused
    fn fill(&mut self, s: usize, kind: u8, start: u32, n: u32) -> R {
        let props = ["C01", "C05", "C13", "C02", "C19"];
        let Some(mut f) = self.slots[s].as_ref().map(|x| x.f.clone()) else { return Ok(()) };
        let all: Vec<Vec<u8>> = (0..n).map(|i| ent_bytes(kind, start + i)).collect();
        let Some(r) = self.guard(&props, "fill", || f.fill(all).map_err(|e| matches!(e, Error::TooManyEntries)))? else { return Ok(()) };
        self.out.counters.add("op_fill", 1);
        let mut refused = 0;
        for i in 0..n {
            refused = self.refused;
            self.insert(s, Ent { ty: 0, kind, id: start + i }, 0)?;
            refused = self.refused - refused;
            if refused > 0 {
                break;
            }
        }
        let Some(x) = self.slots[s].as_ref() else { return Ok(()) };
        let text = x.m.cfg.text();
        if plain_bytes(&x.f) != plain_bytes(&f) {
            self.fail(&props, format!("filling {text} with {n} entries at once gives a different filter from inserting them one by one"))?;
        }
        let want = if refused > 0 { Err(true) } else { Ok(()) };
        if r != want {
            self.fail(&props, format!("filling {text} with {n} entries at once gives {r:?}, one by one {want:?}"))?;
        }
        Ok(())
    }

    fn insert(&mut self, s: usize, e: Ent, via: u8) -> R {
        let Some(mut x) = self.slots[s].take() else { return Ok(()) };
        self.out.counters.add("op_insert", 1);
        let before = x.f.count_estimate();
        let cap = x.m.cfg.cap;
        let at_cap = before >= cap;
        let c05 = self.on("C05");
        let pre = if at_cap && c05 { plain_bytes(&x.f) } else { vec![] };
        let had = match catch_unwind(AssertUnwindSafe(|| do_contains(&x.f, &e, via))) {
            Ok(b) => b,
            Err(p) => return self.fail(&["C01", "C05"], format!("query panicked: {}", payload(p))),
        };
        let r = match catch_unwind(AssertUnwindSafe(|| do_insert(&mut x.f, &e, via))) {
            Ok(r) => r,
            Err(p) => return self.fail(&["C01", "C05", "C13", "C06"], format!("insert into {} panicked: {}", x.m.cfg.text(), payload(p))),
        };
        let after = x.f.count_estimate();
        self.dg.u64(ins_code(&r));
        self.dg.u64(after);
        let text = x.m.cfg.text();
        let accepted = match &r {
            Ins::New | Ins::Old | Ins::Accepted => true,
            Ins::Refused => false,
            Ins::Other(m) => {
                self.slots[s] = Some(x);
                return self.fail(&["C01", "C05"], format!("insert into {text} failed: {m}"));
            }
        };
        if !accepted {
            self.refused += 1;
            self.out.counters.add("probe_refused_insert", 1);
        }
        if at_cap {
            self.out.counters.add("probe_insert_at_capacity", 1);
        }
        let mut bad = vec![];
        // capacity rules
        if !at_cap && !accepted {
            bad.push(format!("insert refused although count {before} is below capacity {cap} ({text})"));
        }
        if at_cap && cap > 0 && had && !accepted {
            bad.push(format!("entry already present was refused at capacity ({text})"));
        }
        if at_cap && matches!(r, Ins::New) {
            bad.push(format!("new entry accepted although count {before} has reached capacity {cap} ({text})"));
        }
        if at_cap && !had && accepted && (x.m.cfg.v == 1 || x.m.cfg.opt < 2) {
            bad.push(format!("entry not present was accepted although count {before} has reached capacity {cap} ({text})"));
        }
        if cap == 0 && accepted {
            bad.push(format!("insert accepted by a filter of capacity 0 ({text})"));
        }
        if had && matches!(r, Ins::New) {
            bad.push(format!("entry already present was counted as new ({text})"));
        }
        if !had && matches!(r, Ins::Old) && (x.m.cfg.v == 1 || x.m.cfg.opt < 2) {
            bad.push(format!("entry not present was reported as already present ({text})"));
        }
        let grow = match r {
            Ins::New => Some(1),
            Ins::Old | Ins::Refused => Some(0),
            _ => None,
        };
        if let Some(g) = grow {
            if after != before.wrapping_add(g) {
                bad.push(format!("count went from {before} to {after} on an insertion that was {} ({text})", match r { Ins::New => "new", Ins::Old => "a duplicate", _ => "refused" }));
            }
        } else if after != before && after != before.wrapping_add(1) {
            bad.push(format!("count went from {before} to {after} on one insertion ({text})"));
        }
        if !accepted && c05 && plain_bytes(&x.f) != pre {
            bad.push(format!("refused insertion changed the filter ({text})"));
        }
        x.m.cnt = after;
        if accepted {
            x.m.must.insert(e);
        }
        // no false negative
        let now = match catch_unwind(AssertUnwindSafe(|| do_contains(&x.f, &e, via.wrapping_add(1)))) {
            Ok(b) => b,
            Err(p) => return self.fail(&["C01"], format!("query panicked: {}", payload(p))),
        };
        let mut missing = false;
        if accepted && !now {
            missing = true;
        }
        // twin
        let mut twin_bad = None;
        if let Some(t) = &mut x.twin {
            let tr = do_insert(t, &e, via);
            if ins_code(&tr) != ins_code(&r) {
                twin_bad = Some(format!("insertion gave result {} where the {} filter gave {} ({text})", ins_code(&r), self.twin_name(), ins_code(&tr)));
            }
        }
        let mut sh_bad = None;
        if let Some(t) = &mut x.shadow {
            let tr = t.insert(ref_hash(&e));
            let same = match (&r, &tr) {
                (Ins::New, Ok(true)) | (Ins::Old, Ok(false)) | (Ins::Accepted, Ok(_)) | (Ins::Refused, Err(())) => true,
                _ => false,
            };
            if !same {
                sh_bad = Some(format!("insertion of {:?} gave result {} here and {tr:?} in the other implementation ({text})", e, ins_code(&r)));
            }
        }
        self.slots[s] = Some(x);
        for b in bad {
            self.fail(&["C05"], b)?;
        }
        if missing {
            self.fail(&["C01"], format!("insertion of {e:?} was accepted but a query right after answers no ({text})"))?;
        }
        if let Some(b) = twin_bad {
            self.fail(&["C02", "C19"], b)?;
        }
        if let Some(b) = sh_bad {
            self.fail(&["C13"], b)?;
        }
        Ok(())
    }

    fn twin_name(&self) -> &'static str {
        if self.on("C19") {
            "newly created"
        } else {
            "never reloaded"
        }
    }

    fn query(&mut self, s: usize, e: Ent, via: u8) -> R {
        let Some(x) = self.slots[s].clone() else { return Ok(()) };
        self.out.counters.add("op_query", 1);
        let Some(a) = self.guard(&["C01", "C04"], "query", || do_contains(&x.f, &e, via))? else { return Ok(()) };
        self.dg.u64(a as u64);
        if !a && x.m.must.contains(&e) {
            self.fail(&["C01"], format!("{e:?} was accepted earlier but a query answers no ({})", x.m.cfg.text()))?;
        }
        if let Some(t) = &x.twin {
            let b = do_contains(t, &e, via);
            if a != b {
                let n = self.twin_name();
                self.fail(&["C02", "C19"], format!("query of {e:?} answers {a}, the {n} filter answers {b} ({})", x.m.cfg.text()))?;
            }
        }
        if let Some(t) = &x.shadow {
            let b = t.contains(ref_hash(&e));
            if a != b {
                self.fail(&["C13"], format!("query of {e:?} answers {a}, the other implementation answers {b} ({})", x.m.cfg.text()))?;
            }
        }
        Ok(())
    }

    fn union(&mut self, s: usize, t: usize, api: u8) -> R {
        if s == t {
            return Ok(());
        }
        let (Some(a), Some(b)) = (self.slots[s].clone(), self.slots[t].clone()) else { return Ok(()) };
        self.out.counters.add("op_union", 1);
        let compat = a.m.cfg.same(&b.m.cfg);
        let (pa, pb) = (plain_bytes(&a.f), plain_bytes(&b.f));
        let props = ["C01", "C06", "C05", "C13"];
        let mut f = a.f.clone();
        let g = b.f.clone();
        let Some(res) = self.guard(&props, "union", || {
            let r = match (api % 3, &mut f, &g) {
                (1, BloomFilter::V1(x), BloomFilter::V1(y)) => x.union_merge(y),
                (1, BloomFilter::V2(x), BloomFilter::V2(y)) => x.union_merge(y),
                (2, BloomFilter::V2(x), BloomFilter::V2(y)) => match x.clone().union(y.clone()) {
                    Ok(u) => {
                        *x = u;
                        Ok(())
                    }
                    Err(e) => Err(e),
                },
                _ => f.union_merge(&g),
            };
            r.map_err(|e| e.to_string())
        })?
        else {
            return Ok(());
        };
        let same_b = plain_bytes(&g) == pb;
        if !same_b {
            self.fail(&["C06"], "union changed its argument".into())?;
        }
        let hsp = same_params(&a.f, &b.f, api);
        if hsp != compat {
            self.fail(&["C06"], format!("parameter comparison of {} and {} answers {hsp}", a.m.cfg.text(), b.m.cfg.text()))?;
        }
        let cc = self.guard(&["C06"], "count_common_entries", || common_entries(&a.f, &b.f, api).is_ok())?;
        if cc.is_some_and(|ok| ok != compat) {
            self.fail(&["C06"], format!("comparing entries of {} and {}: accepted={}", a.m.cfg.text(), b.m.cfg.text(), cc.unwrap()))?;
        }
        match res {
            Err(e) => {
                self.out.counters.add("probe_union_refused", 1);
                if compat {
                    self.fail(&["C06", "C13", "C01"], format!("union of filters with equal parameters ({}) refused: {e}", a.m.cfg.text()))?;
                } else if plain_bytes(&f) != pa {
                    self.fail(&["C06"], "refused union changed the filter".into())?;
                }
                Ok(())
            }
            Ok(()) => {
                if !compat {
                    self.fail(&["C06"], format!("union of {} with {} was accepted", a.m.cfg.text(), b.m.cfg.text()))?;
                    return Ok(());
                }
                let mut m = a.m.clone();
                m.must.extend(b.m.must.iter().cloned());
                m.pure = a.m.pure && b.m.pure;
                m.foreign |= b.m.foreign;
                let est = f.count_estimate();
                m.cnt = est;
                self.dg.u64(est);
                if est > m.cfg.cap {
                    self.out.counters.add("probe_count_above_capacity", 1);
                }
                if f.data() != m.data.as_slice() {
                    self.fail(&["C06"], "union changed the attached data".into())?;
                }
                if self.on("C06") {
                    for p in probes(&m.must, 60, 40, est ^ 0x55) {
                        let (u, x, y) = (do_contains(&f, &p, 1), do_contains(&a.f, &p, 1), do_contains(&b.f, &p, 1));
                        if (x || y) && !u {
                            self.fail(&["C06"], format!("{p:?} is in an operand but not in the union ({})", m.cfg.text()))?;
                        }
                    }
                    self.check_exact(&f, &m)?;
                    self.check_estimate(&f, &m)?;
                }
                let twin = match (a.twin, &b.twin) {
                    (Some(mut x), Some(y)) => {
                        let _ = x.union_merge(y);
                        Some(x)
                    }
                    _ => None,
                };
                let shadow = match (a.shadow, &b.shadow) {
                    (Some(mut x), Some(y)) => {
                        x.or(y);
                        x.count = est;
                        Some(x)
                    }
                    _ => None,
                };
                self.slots[s] = Some(Slot { f, m, twin, shadow });
                Ok(())
            }
        }
    }

    /// a filter whose bits come only from `must` answers like one filled with `must` directly
    fn check_exact(&mut self, f: &BloomFilter, m: &Model) -> R {
        if !m.pure || m.cfg.cap == 0 {
            return Ok(());
        }
        let Ok(mut all) = make(&m.cfg, 0) else { return Ok(()) };
        for e in &m.must {
            if matches!(do_insert(&mut all, e, 1), Ins::Refused | Ins::Other(_)) {
                return Ok(());
            }
        }
        self.out.counters.add("probe_exactness_checked", 1);
        let (o1, o2) = (ones(f), ones(&all));
        if o1 != o2 {
            self.fail(&["C06"], format!("merged filter has {o1} bits set, one filter holding the same {} entries has {o2} ({})", m.must.len(), m.cfg.text()))?;
        }
        for p in probes(&m.must, 60, 120, o1 as u64) {
            let (u, v) = (do_contains(f, &p, 1), do_contains(&all, &p, 1));
            if u != v {
                self.fail(&["C06"], format!("query of {p:?} answers {u} on the merged filter, {v} on one filter holding the same entries ({})", m.cfg.text()))?;
            }
        }
        Ok(())
    }

    fn check_estimate(&mut self, f: &BloomFilter, m: &Model) -> R {
        let d = m.must.len() as u64;
        if !m.pure || m.cfg.p() > 0.5 || d > m.cfg.cap || m.must.iter().any(|e| e.ty != 0 || !(2..=4).contains(&e.kind)) {
            return Ok(());
        }
        if m.cfg.v == 1 && d < 20 && m.cfg.cap < 100 {
            // a handful of entries in a few hundred bits of the legacy hash says little
            return Ok(());
        }
        self.out.counters.add("probe_estimate_checked", 1);
        let est = f.count_estimate() as f64;
        let tol = count_tolerance(&m.cfg, d);
        if (est - d as f64).abs() > tol {
            self.fail(&["C06"], format!("element count after merge is {est}, {d} distinct entries were inserted, allowed error {tol:.1} ({})", m.cfg.text()))?;
        }
        Ok(())
    }

    fn inter(&mut self, s: usize, t: usize, api: u8) -> R {
        if s == t {
            return Ok(());
        }
        let (Some(a), Some(b)) = (self.slots[s].clone(), self.slots[t].clone()) else { return Ok(()) };
        if a.f.version() != 2 || b.f.version() != 2 {
            return Ok(());
        }
        self.out.counters.add("op_intersection", 1);
        let compat = a.m.cfg.same(&b.m.cfg);
        let (pa, pb) = (plain_bytes(&a.f), plain_bytes(&b.f));
        let mut f = a.f.clone();
        let g = b.f.clone();
        let Some(res) = self.guard(&["C06"], "intersection", || match (&mut f, &g) {
            (BloomFilter::V2(x), BloomFilter::V2(y)) => {
                if api % 2 == 0 {
                    x.intersection_merge(y).map_err(|e| e.to_string())
                } else {
                    match x.clone().intersection(y.clone()) {
                        Ok(u) => {
                            *x = u;
                            Ok(())
                        }
                        Err(e) => Err(e.to_string()),
                    }
                }
            }
            _ => Ok(()),
        })?
        else {
            return Ok(());
        };
        if plain_bytes(&g) != pb {
            self.fail(&["C06"], "intersection changed its argument".into())?;
        }
        match res {
            Err(e) => {
                if compat {
                    self.fail(&["C06"], format!("intersection of filters with equal parameters refused: {e}"))?;
                } else if plain_bytes(&f) != pa {
                    self.fail(&["C06"], "refused intersection changed the filter".into())?;
                }
            }
            Ok(()) => {
                if !compat {
                    return self.fail(&["C06"], format!("intersection of {} with {} was accepted", a.m.cfg.text(), b.m.cfg.text()));
                }
                let mut m = a.m.clone();
                m.must = a.m.must.intersection(&b.m.must).cloned().collect();
                m.pure = false;
                m.cnt = f.count_estimate();
                self.dg.u64(m.cnt);
                let mut all = a.m.must.clone();
                all.extend(b.m.must.iter().cloned());
                for p in probes(&all, 80, 60, m.cnt) {
                    let (u, x, y) = (do_contains(&f, &p, 1), do_contains(&a.f, &p, 1), do_contains(&b.f, &p, 1));
                    if u && !(x && y) {
                        self.fail(&["C06"], format!("{p:?} is in the intersection but not in both operands ({})", m.cfg.text()))?;
                    }
                    if x && y && !u {
                        self.fail(&["C06"], format!("{p:?} is in both operands but not in the intersection ({})", m.cfg.text()))?;
                    }
                }
                let twin = match (a.twin, &b.twin) {
                    (Some(BloomFilter::V2(mut x)), Some(BloomFilter::V2(y))) => {
                        let _ = x.intersection_merge(y);
                        Some(BloomFilter::V2(x))
                    }
                    _ => None,
                };
                self.slots[s] = Some(Slot { f, m, twin, shadow: None });
            }
        }
        Ok(())
    }

    fn common(&mut self, s: usize, t: usize) -> R {
        let (Some(a), Some(b)) = (self.slots[s].clone(), self.slots[t].clone()) else { return Ok(()) };
        if !a.m.cfg.same(&b.m.cfg) {
            return Ok(());
        }
        self.out.counters.add("op_common", 1);
        let (pa, pb) = (plain_bytes(&a.f), plain_bytes(&b.f));
        let mut ask = |x: &BloomFilter, y: &BloomFilter| self.guard(&["C23"], "comparing entries", || common_entries(x, y, (s + t) as u8).map_err(|e| e.to_string()));
        let (Some(ab), Some(ba)) = (ask(&a.f, &b.f)?, ask(&b.f, &a.f)?) else { return Ok(()) };
        if ab != ba {
            self.fail(&["C23"], format!("{ab:?} entries in common one way, {ba:?} the other ({})", a.m.cfg.text()))?;
        }
        if plain_bytes(&a.f) != pa || plain_bytes(&b.f) != pb {
            self.fail(&["C23"], "comparing entries changed a filter".into())?;
        }
        let n = match ab {
            Ok(n) => n as f64,
            Err(e) => return self.fail(&["C23"], format!("comparing filters with equal parameters ({}) failed: {e}", a.m.cfg.text())),
        };
        self.dg.u64(n as u64);
        let cfg = &a.m.cfg;
        let weak = |m: &Model| !m.pure || m.must.len() as u64 > cfg.cap || m.must.iter().any(|e| e.ty != 0 || !(2..=4).contains(&e.kind));
        if cfg.p() > 0.5 || weak(&a.m) || weak(&b.m) {
            return Ok(());
        }
        let c = a.m.must.intersection(&b.m.must).count() as f64;
        let (na, nb) = (a.m.must.len() as f64 - c, b.m.must.len() as f64 - c);
        if cfg.v == 1 && c + na + nb < 20.0 && cfg.cap < 100 {
            return Ok(());
        }
        self.out.counters.add("probe_common_checked", 1);
        let sz = refimpl::sizing(cfg.v, cfg.cap, cfg.p(), cfg.opt);
        let (m, parts) = if cfg.v == 1 { (sz.m as f64, 1.0) } else { (32768.0, sz.n_buckets.max(1) as f64) };
        let k = sz.k.max(1) as f64;
        let free = |x: f64| (-k * x / parts / m).exp();
        // bits of what is in both, and bits two unrelated entries happen to share
        let shared = 1.0 - free(c) + free(c) * (1.0 - free(na)) * (1.0 - free(nb));
        let most = -parts * m * (1.0 - shared).ln() / k;
        let lo = c - count_tolerance(cfg, c as u64);
        let hi = most + 2.0 * count_tolerance(cfg, most as u64) + 0.1 * most + 8.0 * ((most - c).max(0.0) + 1.0).sqrt();
        if n < lo || n > hi {
            self.fail(
                &["C23"],
                format!("{n} entries in common reported, {c} were inserted in both, {na} and {nb} in one only: expected {lo:.1} to {hi:.1} ({})", cfg.text()),
            )?;
        }
        Ok(())
    }

    fn save(&mut self, s: usize, fi: usize, w: &WPlan) -> R {
        let Some(x) = self.slots[s].clone() else { return Ok(()) };
        self.out.counters.add("op_save", 1);
        let want = self.bytes(s)?;
        let mut dev = SimWriter::new(w, want.len());
        let r = catch_unwind(AssertUnwindSafe(|| x.f.write(&mut dev).map_err(|e| e.to_string())));
        self.out.counters.add("fault_write_eintr", dev.eintrs);
        self.out.counters.add("fault_short_write", dev.shorts);
        if dev.fired {
            self.out.counters.add(
                match w.fault {
                    WFault::Err { sticky: true, .. } => "fault_write_error",
                    WFault::Err { .. } => "fault_write_error_once",
                    WFault::Zero { .. } => "fault_write_zero",
                    WFault::Flush => "fault_flush_error",
                    WFault::Crash { .. } => "fault_crash_in_save",
                    WFault::None => "fault_none",
                },
                1,
            );
        }
        self.dg.u64(dev.out.len() as u64);
        let text = x.m.cfg.text();
        let complete = dev.out == want;
        let fs = |bytes: Vec<u8>| FileSt { full: want.len(), bytes, m: x.m.clone(), twin: x.twin.clone(), shadow: x.shadow.clone() };
        match r {
            Ok(Ok(())) => {
                self.dg.u64(1);
                if !complete {
                    let m = format!("save of {text} reported success but the destination holds {} of {} bytes{}", dev.out.len(), want.len(), if dev.out.len() == want.len() { " (content differs)" } else { "" });
                    self.fail(if dev.fired { &["C03"] } else { &["C02", "C03"] }, m)?;
                }
                self.files[fi] = Some(fs(dev.out));
            }
            Ok(Err(e)) => {
                self.dg.u64(2);
                if !dev.fired {
                    self.fail(&["C02"], format!("save of {text} to a healthy destination failed: {e}"))?;
                }
                self.files[fi] = Some(fs(dev.out));
                if self.on("C03") {
                    let again = self.bytes(s)?;
                    if again != want {
                        self.fail(&["C03"], format!("after a failed save the filter {text} no longer saves to the same bytes"))?;
                    }
                }
            }
            Err(p) => {
                if dev.fired && matches!(w.fault, WFault::Crash { .. }) {
                    // the client died in the middle of the save
                    self.slots[s] = None;
                    self.files[fi] = Some(fs(dev.out));
                } else {
                    self.fail(&["C02", "C03"], format!("save of {text} panicked: {}", payload(p)))?;
                }
            }
        }
        Ok(())
    }

    fn read_with(&mut self, bytes: &[u8], r: &RPlan, partial: bool, api: u8, ver: u8) -> (Result<Result<BloomFilter, String>, String>, RStat) {
        let st = RefCell::new(RStat::default());
        let res = catch_unwind(AssertUnwindSafe(|| {
            let rd = SimReader::new(r, bytes, &st);
            // position the stream behind the junk, as a caller would
            let out = if partial {
                BloomFilter::partial_from_reader(rd)
            } else if api % 3 == 1 && ver == 1 {
                v1::BloomFilter::from_reader(rd).map(BloomFilter::V1)
            } else if api % 3 == 1 && ver == 2 {
                v2::BloomFilter::from_reader(rd).map(BloomFilter::V2)
            } else {
                BloomFilter::from_reader(rd)
            };
            out.map_err(|e| e.to_string())
        }));
        let st = st.into_inner();
        self.out.counters.add("fault_read_eintr", st.eintrs);
        self.out.counters.add("fault_short_read", st.shorts);
        self.out.sim_calls += st.calls;
        if st.fired {
            self.out.counters.add(if matches!(r.fault, RFault::Seek { .. }) { "fault_seek_error" } else { "fault_read_error" }, 1);
        }
        (res.map_err(payload), st)
    }

    fn load(&mut self, s: usize, fi: usize, r: &RPlan, api: u8) -> R {
        let Some(f) = self.files[fi].clone() else { return Ok(()) };
        self.out.counters.add("op_load", 1);
        let text = f.m.cfg.text();
        let (res, st) = self.read_with(&f.bytes, r, false, api, f.m.cfg.v);
        let torn = f.bytes.len() < f.full;
        let cut = f.bytes.len() + f.m.data.len() < f.full;
        if torn {
            self.out.counters.add("probe_load_torn_file", 1);
        }
        match res {
            Err(m) => {
                self.dg.u64(9);
                self.fail(&["C04", "C02"], format!("loading {text} panicked: {m}"))?;
            }
            Ok(Err(e)) => {
                self.dg.u64(2);
                if !torn && !st.fired {
                    let props: &[&str] = if f.m.foreign { &["C13", "C02", "C01"] } else { &["C02", "C01"] };
                    self.fail(props, format!("loading the intact file of {text} failed: {e}"))?;
                }
            }
            Ok(Ok(b)) => {
                self.dg.u64(1);
                if st.fired {
                    self.fail(&["C04"], format!("loading {text} succeeded although reading it failed"))?;
                    return Ok(());
                }
                if cut {
                    self.fail(&["C04"], format!("loading the first {} of {} bytes of {text} succeeded", f.bytes.len(), f.full))?;
                    return Ok(());
                }
                if torn {
                    return Ok(());
                }
                let m = &f.m;
                let mut bad = vec![];
                if b.version() != m.cfg.v || b.capacity() as u64 != m.cfg.cap || b.fpp().to_bits() != m.cfg.fpp {
                    bad.push(format!("loaded filter reports version {} capacity {} fpp {}", b.version(), b.capacity(), b.fpp()));
                }
                if b.count_estimate() != m.cnt {
                    bad.push(format!("loaded filter counts {} elements, saved one counted {}", b.count_estimate(), m.cnt));
                }
                if b.data() != m.data.as_slice() {
                    bad.push(format!("loaded filter has {} bytes of data, saved one had {}", b.data().len(), m.data.len()));
                }
                if !m.foreign {
                    if let Ok(n) = make(&m.cfg, 0) {
                        if !n.has_same_params(&b) {
                            bad.push("loaded filter no longer has the parameters it was created with".into());
                        }
                    }
                }
                let again = plain_bytes(&b);
                if again != f.bytes {
                    bad.push(format!("saving the loaded filter again gives different bytes: {}", first_diff(&again, &f.bytes)));
                }
                for m in bad {
                    let props: &[&str] = if f.m.foreign { &["C13", "C02"] } else { &["C02"] };
                    self.fail(props, format!("{m} ({text})"))?;
                }
                self.slots[s] = Some(Slot { f: b, m: f.m.clone(), twin: f.twin.clone(), shadow: f.shadow.clone() });
                self.probe(s, 24, st.calls ^ fi as u64)?;
            }
        }
        Ok(())
    }

    fn partial(&mut self, fi: usize, r: &RPlan) -> R {
        let Some(f) = self.files[fi].clone() else { return Ok(()) };
        self.out.counters.add("op_partial_load", 1);
        let text = f.m.cfg.text();
        let (res, st) = self.read_with(&f.bytes, r, true, 0, f.m.cfg.v);
        let torn = f.bytes.len() < f.full;
        match res {
            Err(m) => self.fail(&["C04", "C14"], format!("metadata load of {text} panicked: {m}"))?,
            Ok(Err(e)) => {
                self.dg.u64(2);
                if !torn && !st.fired {
                    self.fail(&["C14"], format!("metadata load of the intact file of {text} failed: {e}"))?;
                }
            }
            Ok(Ok(b)) => {
                self.dg.u64(1);
                if st.fired {
                    return self.fail(&["C14", "C04"], format!("metadata load of {text} succeeded although reading it failed"));
                }
                if torn {
                    return Ok(());
                }
                let Ok(Ok(Ok(full))) = catch_unwind(AssertUnwindSafe(|| BloomFilter::from_reader(std::io::Cursor::new(&f.bytes)))).map(Ok::<_, ()>) else { return Ok(()) };
                let meta = |b: &BloomFilter| (b.version(), b.capacity(), b.fpp().to_bits(), b.count_estimate(), b.data().to_vec(), b.size_in_bytes(), b.is_full());
                let Some((p, q)) = self.guard(&["C14"], "metadata", || (meta(&b), meta(&full)))? else { return Ok(()) };
                if p != q {
                    self.fail(&["C14"], format!("metadata load of {text} reports {}, full load {}", meta_text(&p), meta_text(&q)))?;
                }
                let m = &f.m;
                if p.0 != m.cfg.v || p.1 as u64 != m.cfg.cap || p.2 != m.cfg.fpp || p.3 != m.cnt || p.4 != m.data {
                    self.fail(&["C14"], format!("metadata load of {text} with {} elements and {} bytes of data reports {}", m.cnt, m.data.len(), meta_text(&p)))?;
                }
                let storage = f.full - m.data.len() - if m.cfg.v == 1 { 48 } else { 56 };
                if p.5 != storage {
                    self.fail(&["C14"], format!("metadata load of {text} reports a size of {} bytes, the file has {storage} bytes of bit storage", p.5))?;
                }
            }
        }
        Ok(())
    }

    fn damaged(&mut self, fi: usize, d: &Damage, r: &RPlan, partial: bool, api: u8) -> R {
        let Some(f) = self.files[fi].clone() else { return Ok(()) };
        if f.bytes.len() < f.full {
            return Ok(());
        }
        let mut b = f.bytes.clone();
        let data = f.m.data.len();
        let v = f.m.cfg.v;
        let mut must_fail = None;
        let mut nhash_hit = false;
        match d {
            Damage::Truncate(n) => {
                let n = (*n as usize).min(b.len());
                b.truncate(n);
                self.out.counters.add("fault_truncated", 1);
                if n + data < f.full && (!partial || n < 48) {
                    must_fail = Some(format!("truncated to {n} of {} bytes", f.full));
                }
            }
            Damage::Patch(off, p) => {
                let off = *off as usize;
                if off + p.len() > b.len() {
                    return Ok(());
                }
                b[off..off + p.len()].copy_from_slice(p);
                self.out.counters.add("fault_damaged_field", 1);
                nhash_hit = off < 32 && off + p.len() > 24;
                must_fail = impossible(&b, partial);
            }
            Damage::Flip(off, x) => {
                let off = *off as usize;
                if off >= b.len() {
                    return Ok(());
                }
                b[off] ^= x;
                self.out.counters.add("fault_flipped_byte", 1);
                nhash_hit = (24..32).contains(&off);
                must_fail = impossible(&b, partial);
            }
            Damage::Replace(x) => {
                b = x.clone();
                nhash_hit = true;
                self.out.counters.add("fault_foreign_bytes", 1);
                must_fail = impossible(&b, partial);
            }
        }
        // with any loader, with that of the version of the file, with that of the other one
        let lv = if api % 3 == 2 { 3 - v } else { v };
        if !partial && api % 3 > 0 && b.first().is_some_and(|x| *x != lv) {
            self.out.counters.add("probe_other_version", 1);
            must_fail = Some(format!("it is of version {} and was loaded as version {lv}", b[0]));
        }
        crate::alloc::limit(Some((4 << 20) + 8 * b.len()));
        let (res, st) = self.read_with(&b, r, partial, (api % 3).min(1), lv);
        crate::alloc::limit(None);
        let what = if partial { "metadata load" } else { "load" };
        let text = f.m.cfg.text();
        match res {
            Err(m) => self.fail(&["C04"], format!("{what} of a damaged file of {text} panicked: {m}"))?,
            Ok(Err(_)) => {
                self.dg.u64(2);
                self.out.counters.add("probe_damage_rejected", 1);
            }
            Ok(Ok(x)) => {
                self.dg.u64(1);
                if st.fired {
                    self.fail(&["C04"], format!("{what} succeeded although reading failed ({text})"))?;
                }
                if let Some(why) = must_fail {
                    self.fail(&["C04"], format!("{what} of a damaged file of {text} succeeded: {why}"))?;
                }
                self.out.counters.add("probe_damage_accepted", 1);
                if !nhash_hit {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let mut n = 0;
                        for i in 0..12u32 {
                            for kind in [0, 2, 4] {
                                n += do_contains(&x, &Ent { ty: 0, kind, id: FRESH + i }, 1) as u64;
                            }
                        }
                        for e in f.m.must.iter().take(8) {
                            n += do_contains(&x, e, 0) as u64;
                        }
                        n + x.count_estimate().min(1) + x.is_full() as u64 + (x.capacity() as u64 & 0xffff)
                    }));
                    match r {
                        Ok(n) => self.dg.u64(n),
                        Err(p) => self.fail(&["C04"], format!("querying the filter returned by {what} of a damaged file of {text} panicked: {}", payload(p)))?,
                    }
                }
            }
        }
        Ok(())
    }

    fn clear(&mut self, s: usize) -> R {
        let Some(mut x) = self.slots[s].take() else { return Ok(()) };
        self.out.counters.add("op_clear", 1);
        let text = x.m.cfg.text();
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| x.f.clear())) {
            return self.fail(&["C19"], format!("clear of {text} panicked: {}", payload(p)));
        }
        x.m.must.clear();
        x.m.cnt = 0;
        x.m.pure = true;
        let set = |f: &mut BloomFilter, d: &[u8]| match f {
            BloomFilter::V1(b) => b.data = d.to_vec(),
            BloomFilter::V2(b) => b.data = d.to_vec(),
        };
        if self.on("C19") {
            x.twin = make(&x.m.cfg, 0).ok();
            if let Some(t) = &mut x.twin {
                set(t, &x.m.data);
            }
        } else if let Some(t) = &mut x.twin {
            t.clear();
        }
        if let Some(t) = &mut x.shadow {
            t.bits.iter_mut().for_each(|b| *b = 0);
            t.cache.iter_mut().for_each(|b| *b = 0);
            t.count = 0;
        }
        let n = x.f.count_estimate();
        let full = x.f.is_full();
        let fresh = make(&x.m.cfg, 0).map(|f| (f.count_estimate(), f.is_full(), f.size_in_bytes(), f.capacity())).ok();
        let mine = (n, full, x.f.size_in_bytes(), x.f.capacity());
        let bytes = plain_bytes(&x.f);
        let tb = x.twin.as_ref().map(plain_bytes);
        self.slots[s] = Some(x);
        if n != 0 {
            self.fail(&["C19"], format!("cleared filter {text} counts {n} elements"))?;
        }
        if fresh.is_some_and(|f| f != mine) {
            self.fail(&["C19"], format!("cleared filter {text} reports (count, full, size, capacity) {mine:?}, a new one {:?}", fresh.unwrap()))?;
        }
        if let Some(tb) = tb {
            if tb != bytes {
                let m = format!("cleared filter {text} saves differently from a new one: {}", first_diff(&bytes, &tb));
                self.fail(&["C19"], m)?;
            }
        }
        Ok(())
    }

    fn ref_turn(&mut self, fi: usize, ty: u8, kind: u8, start: u32, n: u32) -> R {
        let Some(mut f) = self.files[fi].clone() else { return Ok(()) };
        if f.bytes.len() < f.full {
            return Ok(());
        }
        self.out.counters.add("op_ref_turn", 1);
        let text = f.m.cfg.text();
        let Some(mut x) = RefFilter::read(&f.bytes) else {
            return self.fail(&["C13"], format!("the other implementation cannot read the file of {text}"));
        };
        if x.ver != f.m.cfg.v || x.cap != f.m.cfg.cap || x.fpp.to_bits() != f.m.cfg.fpp || x.count != f.m.cnt || x.data != f.m.data {
            return self.fail(&["C13"], format!("the other implementation reads version {} capacity {} fpp {} count {} data {} from the file of {text}", x.ver, x.cap, x.fpp, x.count, x.data.len()));
        }
        if x.m == 0 && x.ver == 1 && x.k > 0 || x.ver == 2 && x.bits.is_empty() && x.cap > 0 {
            return self.fail(&["C13"], format!("the file of {text} has an unusable layout"));
        }
        for e in &f.m.must {
            if e.ty <= 2 && !x.contains(ref_hash(&eff(e, x.ver))) {
                return self.fail(&["C13"], format!("the other implementation does not find {e:?} in the file of {text}"));
            }
        }
        for i in 0..n {
            let e = Ent { ty, kind, id: start + i };
            if x.insert(ref_hash(&eff(&e, x.ver))).is_ok() {
                f.m.must.insert(e);
            }
        }
        f.m.cnt = x.count;
        f.m.foreign = true;
        f.bytes = x.write();
        f.full = f.bytes.len();
        f.twin = None;
        f.shadow = if self.shadows { Some(x) } else { None };
        self.files[fi] = Some(f);
        Ok(())
    }

    fn probe(&mut self, s: usize, n: u32, seed: u64) -> R {
        let Some(x) = self.slots[s].clone() else { return Ok(()) };
        for (i, p) in probes(&x.m.must, n as usize, n as usize, seed).into_iter().enumerate() {
            if self.shadows && p.ty > 2 {
                continue;
            }
            self.query(s, p, i as u8)?;
        }
        Ok(())
    }

    fn fpp(&mut self, s: usize, n: u32, kind: u8) -> R {
        let Some(x) = self.slots[s].clone() else { return Ok(()) };
        if x.m.cfg.v != 2 || x.m.must.len() as u64 > x.m.cfg.cap || !x.m.pure {
            return Ok(());
        }
        let Some(hits) = self.guard(&["C17"], "query", || {
            let mut hits = 0u64;
            for i in 0..n {
                hits += do_contains(&x.f, &Ent { ty: 0, kind, id: FRESH + i }, 0) as u64;
            }
            hits
        })?
        else {
            return Ok(());
        };
        self.dg.u64(hits);
        self.out.counters.add("probe_fpp_measured", 1);
        self.out.counters.add("probe_fpp_queries", n as u64);
        let bound = fpp_bound(x.m.cfg.p(), n);
        if hits as f64 > bound {
            self.fail(&["C17"], format!("{hits} of {n} queries for entries never inserted answer yes (allowed {bound:.0}) on a filter holding {} entries ({})", x.m.must.len(), x.m.cfg.text()))?;
        }
        Ok(())
    }

    /// what the filter says about its bits against what it saves
    fn figures(&mut self, f: &BloomFilter, text: &str) -> R {
        let Some(file) = self.guard(&["C25"], "saving", || RefFilter::read(&plain_bytes(f)))? else { return Ok(()) };
        let Some(file) = file else {
            return self.fail(&["C25"], format!("what is saved is no filter ({text})"));
        };
        self.out.counters.add("figures_compared", 1);
        let (ones, room) = (file.ones(), file.bits.len() as u64 * 8);
        let Some((a, b, size)) = self.guard(&["C25"], "counting bits", || match f {
            BloomFilter::V1(x) => (x.count_ones() as u64, x.count_zeros() as u64, x.size_in_bytes()),
            BloomFilter::V2(x) => (x.count_ones() as u64, x.count_zeros() as u64, x.size_in_bytes()),
        })?
        else {
            return Ok(());
        };
        let least = if file.ver == 1 { file.m } else { room };
        if a != ones || a + b > room || a + b < least {
            self.fail(&["C25"], format!("{a} bits set and {b} unset are reported, {ones} of {room} are set in what is saved ({text})"))?;
        }
        if size != file.bits.len() + file.cache.len() || size != f.size_in_bytes() {
            self.fail(&["C25"], format!("a size of {size} bytes is reported, {} are saved ({text})", file.bits.len() + file.cache.len()))?;
        }
        if let BloomFilter::V1(x) = f {
            let Some((bits, n, k, p)) = self.guard(&["C25"], "listing bits", || (x.bits(), x.n_bits(), x.n_hash_fn(), x.estimated_p()))? else { return Ok(()) };
            if n != file.m || k != file.k || bits.len() as u64 != n {
                self.fail(&["C25"], format!("{n} bits ({} listed) and {k} hash functions are reported, {} and {} saved ({text})", bits.len(), file.m, file.k))?;
            }
            if let Some(i) = (0..bits.len()).find(|i| bits[*i] != (file.bits[i / 8] >> (i % 8) & 1 == 1)) {
                self.fail(&["C25"], format!("bit {i} is listed as {} but saved as {} ({text})", bits[i], !bits[i]))?;
            }
            let c = f.count_estimate();
            if n > 0 && c > 0 && !(0.0..=1.0).contains(&p) {
                self.fail(&["C25"], format!("with {c} elements a false-positive probability of {p} is estimated ({text})"))?;
            }
        }
        Ok(())
    }

    /// checked after every step
    fn invariants(&mut self, op: &Op, seed: u64, last: bool) -> R {
        for s in 0..SLOTS {
            let Some(x) = self.slots[s].clone() else { continue };
            let text = x.m.cfg.text();
            let (n, cap, full) = (x.f.count_estimate(), x.f.capacity() as u64, x.f.is_full());
            if full != (n >= cap) {
                self.fail(&["C05"], format!("filter with {n} elements and capacity {cap} reports full={full} ({text})"))?;
            }
            if n != x.m.cnt {
                self.fail(&["C05", "C02"], format!("element count is {n}, should be {} ({text})", x.m.cnt))?;
            }
            if x.f.data() != x.m.data.as_slice() {
                self.fail(&["C02"], format!("attached data changed ({text})"))?;
            }
            if self.on("C25") {
                self.figures(&x.f, &text)?;
            }
            if self.on("C01") || last {
                let k = if last { usize::MAX } else { 24 };
                let via = (seed % 7) as u8;
                for e in sample(&x.m.must, k, seed) {
                    let r = catch_unwind(AssertUnwindSafe(|| do_contains(&x.f, &e, via)));
                    match r {
                        Ok(true) => {}
                        Ok(false) => self.fail(&["C01"], format!("{e:?} was accepted earlier but a query answers no ({text})"))?,
                        Err(p) => self.fail(&["C01"], format!("query panicked: {} ({text})", payload(p)))?,
                    }
                }
            }
            if self.twins && (last || matches!(op, Op::Load { .. } | Op::Clear { .. } | Op::Union { .. })) {
                if let Some(t) = &x.twin {
                    let (a, b) = (plain_bytes(&x.f), plain_bytes(t));
                    if a != b {
                        let n = self.twin_name();
                        self.fail(&["C02", "C19"], format!("filter saves differently from the {n} one with the same history: {} ({text})", first_diff(&a, &b)))?;
                    }
                }
            }
            if self.shadows && (last || matches!(op, Op::Load { .. } | Op::Save { .. })) {
                if let Some(t) = &x.shadow {
                    if !refimpl::sizing(x.m.cfg.v, x.m.cfg.cap, x.m.cfg.p(), x.m.cfg.opt).ambiguous {
                        let (a, b) = (plain_bytes(&x.f), t.write());
                        if a != b {
                            self.fail(&["C13"], format!("file bytes differ from the other implementation's after the same history: {} ({text})", first_diff(&a, &b)))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

/// upper bound on positive answers to n fresh queries: generous margin over the target plus sampling noise
pub fn fpp_bound(p: f64, n: u32) -> f64 {
    let e = p * n as f64;
    1.25 * e + 7.0 * (1.25 * e).sqrt() + 7.0
}

/// legacy filters only take byte strings
fn eff(e: &Ent, ver: u8) -> Ent {
    if ver == 1 {
        Ent { ty: 0, ..*e }
    } else {
        *e
    }
}

fn meta_text(p: &(u8, usize, u64, u64, Vec<u8>, usize, bool)) -> String {
    format!("(version {} capacity {} fpp {} count {} data {} bytes size {} full {})", p.0, p.1, f64::from_bits(p.2), p.3, p.4.len(), p.5, p.6)
}

/// reason why a (damaged) stream can never be a loadable filter
pub fn impossible(b: &[u8], partial: bool) -> Option<String> {
    if b.len() < 48 {
        return Some("shorter than a header".into());
    }
    let u = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    if b[0] != 1 && b[0] != 2 {
        return Some(format!("version {}", b[0]));
    }
    if b[1] > 3 {
        return Some(format!("optimisation level {}", b[1]));
    }
    let p = f64::from_bits(u(16));
    if !(p > 0.0 && p <= 1.0) || p < f64::MIN_POSITIVE {
        return Some(format!("false positive probability {p}"));
    }
    if partial {
        return None;
    }
    let left = b.len() as u64 - 48;
    if b[0] == 1 {
        let m = u(32);
        // leave room for the rounding of huge sizes
        if m / 8 > left + 16 {
            return Some(format!("claims {m} bits, {left} bytes follow"));
        }
    } else {
        let c = u(40) / 8;
        if c > left + 16 {
            return Some(format!("claims a cache of {c} bytes, {left} bytes follow"));
        }
        if u(40) % 8 == 0 && c + 8 <= left {
            let nb = u(48 + c as usize);
            if nb.checked_mul(4096).map_or(true, |n| n > left - c - 8) {
                return Some(format!("claims {nb} buckets, {} bytes follow", left - c - 8));
            }
        }
    }
    None
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("{} bytes against {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("byte {i} is {:#x} against {:#x}", a[i], b[i]),
        None => "equal".into(),
    }
}

fn sample(must: &BTreeSet<Ent>, k: usize, seed: u64) -> Vec<Ent> {
    if must.len() <= k {
        return must.iter().cloned().collect();
    }
    let step = must.len() / k + 1;
    must.iter().skip((seed % step as u64) as usize).step_by(step).cloned().collect()
}

fn probes(must: &BTreeSet<Ent>, members: usize, others: usize, seed: u64) -> Vec<Ent> {
    let mut v = sample(must, members, seed);
    let mut r = Rng::new(seed);
    for _ in 0..others {
        let kind = *r.pick(&[0u8, 1, 2, 3, 4, 5]);
        v.push(Ent { ty: if r.chance(1, 6) { 1 } else { 0 }, kind, id: FRESH + r.below(1 << 20) as u32 });
    }
    v
}
