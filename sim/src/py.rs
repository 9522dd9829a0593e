//! Histories of interpreter sessions using the real extension module, program runs and library steps on the same files.

use crate::cli::{attached, set_data, text};
use crate::proc::*;
use crate::rng::{mix, Digest, Rng};
use crate::world::{first_diff, plain_bytes};
use crate::{Finding, RunOut};
use poppy_filters::{BloomFilter, OptLevel, Params};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::io::Cursor;

const NFILES: usize = 3;
const MARK: i32 = NFILES as i32;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ents {
    pub kind: u8,
    pub start: u32,
    pub n: u32,
    pub text: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// how: 0 the class itself, 1 with a version, 2 with all parameters
    New { r: u8, how: u8, v: u8, cap: u64, fpp: u64, opt: u8 },
    Ins { r: u8, e: Ents },
    Has { r: u8, e: Ents },
    Info { r: u8 },
    Merge { r: u8, o: u8 },
    Common { r: u8, o: u8 },
    Dumps { r: u8, b: u8 },
    Loads { r: u8, b: u8, cut: Option<u32>, flip: Option<u64> },
    Save { r: u8, f: usize },
    Load { r: u8, f: usize },
    /// what another thread does if the next operation lets it, at its n-th chance
    During { at: u8, op: Box<Op> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Session { ops: Vec<Op>, sim: Sim },
    /// the program: 0 insert, 1 check, 2 show
    Program { what: u8, f: usize, e: Ents },
    /// the library: load, insert, attach data, save
    Library { f: usize, e: Ents, data: Option<u32> },
    Cut { f: usize, frac: u32 },
    Flip { f: usize, bit: u64 },
    Remove { f: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub steps: Vec<Step>,
}

impl Ents {
    fn all(&self) -> Vec<Vec<u8>> {
        (0..self.n)
            .map(|i| {
                let mut b = text(self.kind & 3, self.start + i).into_bytes();
                if self.kind & 4 != 0 {
                    // nothing about an entry may be tidied up
                    let (p, s) = [("", "\n"), (" ", ""), ("", " "), ("\t", "\r\n"), ("", "\0"), ("\u{feff}", ""), ("", "É"), ("", "E\u{301}")][(i % 8) as usize];
                    b = [p.as_bytes(), &b, s.as_bytes()].concat();
                }
                if !self.text && i % 3 == 0 {
                    b.extend_from_slice(&[0xff, 0, i as u8]);
                }
                b
            })
            .collect()
    }
    fn arg(&self) -> String {
        let v: Vec<String> = self.all().iter().map(|b| hex(b)).collect();
        format!("{} {}", if self.text { "s" } else { "b" }, v.join(","))
    }
}

fn hex(b: &[u8]) -> String {
    const D: &[u8] = b"0123456789abcdef";
    let mut s = Vec::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize]);
        s.push(D[(x & 15) as usize]);
    }
    String::from_utf8(s).unwrap()
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    b.chunks(2).map(|c| Some(d(c[0])? << 4 | d(c[1])?)).collect()
}

/// the bit to damage; not one that asks for an astronomical number of hash functions
fn bit_of(bit: u64, len: usize) -> u64 {
    let at = bit % (8 * len as u64);
    if (200..256).contains(&at) {
        192 + at % 8
    } else {
        at
    }
}

fn file(f: usize) -> String {
    format!("f{f}.pop")
}

fn line(op: &Op) -> String {
    match op {
        Op::New { r, how: 0, cap, fpp, .. } => format!("new {r} {cap} {:?}", f64::from_bits(*fpp)),
        Op::New { r, how: 1, v, cap, fpp, .. } => format!("newv {r} {v} {cap} {:?}", f64::from_bits(*fpp)),
        Op::New { r, v, cap, fpp, opt, .. } => format!("newp {r} {v} {cap} {:?} {opt}", f64::from_bits(*fpp)),
        Op::Ins { r, e } => format!("ins {r} {}", e.arg()),
        Op::Has { r, e } => format!("has {r} {}", e.arg()),
        Op::Info { r } => format!("info {r}"),
        Op::Merge { r, o } => format!("merge {r} {o}"),
        Op::Common { r, o } => format!("common {r} {o}"),
        Op::Dumps { r, b } => format!("dumps {r} {b}"),
        Op::Loads { r, b, cut, flip } => {
            let s = |x: Option<u64>| x.map_or("-".into(), |x| x.to_string());
            format!("loads {r} {b} {} {}", s(cut.map(|c| c as u64)), s(*flip))
        }
        Op::Save { r, f } => format!("save {r} {}", file(*f)),
        Op::Load { r, f } => format!("load {r} {}", file(*f)),
        Op::During { at, op } => format!("during {at} {}", line(op)),
    }
}

fn create(how: u8, v: u8, cap: u64, fpp: f64, opt: u8) -> Option<BloomFilter> {
    match how {
        0 => BloomFilter::with_capacity(cap as usize, fpp).ok(),
        1 => BloomFilter::with_version_capacity(v, cap as usize, fpp).ok(),
        _ => {
            let o = OptLevel::try_from(opt).ok()?;
            Params::new(cap as usize, fpp).version(v).opt(o).try_into().ok()
        }
    }
}

fn load(b: &[u8]) -> Option<BloomFilter> {
    BloomFilter::from_reader(Cursor::new(b)).ok()
}

/// false if the filter cannot take entries at all
fn fill(f: &mut BloomFilter, e: &Ents) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for b in e.all() {
            let _ = f.insert_bytes(b);
        }
    }))
    .is_ok()
}

fn info(f: &BloomFilter) -> String {
    let d = hex(f.data());
    format!("{} {} {} {} {} {}", f.version(), f.capacity(), f.fpp().to_bits(), f.count_estimate(), f.is_full() as u8, if d.is_empty() { "-".into() } else { d })
}

#[derive(Clone, Default)]
struct State {
    regs: BTreeMap<u8, BloomFilter>,
    blobs: BTreeMap<u8, Vec<u8>>,
}

struct World<'a> {
    r: &'a mut Runner,
    out: RunOut,
    d: Digest,
    names: Vec<String>,
}

pub fn exec(p: &Plan, r: &mut Runner) -> RunOut {
    r.reset();
    let mut names: Vec<String> = (0..NFILES).map(file).collect();
    names.push("mark".into());
    let mut w = World { r, out: RunOut::default(), d: Digest::default(), names };
    for (i, s) in p.steps.iter().enumerate() {
        let m = match s {
            Step::Session { ops, sim } => w.session(ops, sim),
            Step::Program { what, f, e } => w.program(*what, *f, e),
            _ => {
                w.other(s);
                None
            }
        };
        if let Some(m) = m {
            w.out.findings.push(Finding { class: String::new(), msg: format!("step {i}: {m}") });
            break;
        }
        for f in 0..NFILES {
            let b = w.bytes(f);
            w.d.bytes(b.as_deref().unwrap_or(b"none"));
        }
    }
    w.out.digest = w.d.0;
    w.out.path = w.d.0;
    w.out
}

impl World<'_> {
    fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.out.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }

    fn bytes(&self, f: usize) -> Option<Vec<u8>> {
        fs::read(self.r.root.join(file(f))).ok()
    }

    fn put(&self, f: usize, b: &[u8]) {
        fs::write(self.r.root.join(file(f)), b).unwrap()
    }

    fn account(&mut self, rep: &Report, sim: &Sim) {
        self.out.steps += rep.calls;
        self.out.sim_ns = self.out.sim_ns.saturating_add(rep.clock_ns);
        self.d.u64(rep.digest);
        self.count("processes", 1);
        for (r, n) in sim.rules.iter().zip(&rep.fired) {
            let op = match r.op {
                OP_OPEN => "open",
                OP_CREAT => "create",
                OP_READ => "read",
                OP_WRITE => "write",
                OP_CLOSE => "close",
                OP_SEEK => "seek",
                _ => "other",
            };
            let k = match r.kind {
                K_SHORT => "short",
                K_BUDGET => "full_disk",
                K_ERR if r.arg == libc::EINTR as u64 => "interrupted",
                _ => "error",
            };
            self.count(&format!("fault_{op}_{k}"), *n);
        }
    }

    fn other(&mut self, s: &Step) {
        match s {
            Step::Library { f, e, data } => {
                if let Some(mut x) = self.bytes(*f).and_then(|b| load(&b)) {
                    if !fill(&mut x, e) {
                        self.count("unusable_filters", 1);
                        return;
                    }
                    if let Some(n) = data {
                        set_data(&mut x, attached(*n));
                    }
                    self.put(*f, &plain_bytes(&x));
                    self.count("library_steps", 1);
                }
            }
            Step::Cut { f, frac } => {
                if let Some(b) = self.bytes(*f) {
                    self.put(*f, &b[..(b.len() as u64 * *frac as u64 / 65536) as usize]);
                    self.count("fault_file_cut", 1);
                }
            }
            Step::Flip { f, bit } => {
                if let Some(mut b) = self.bytes(*f).filter(|b| !b.is_empty()) {
                    let at = bit_of(*bit, b.len());
                    b[at as usize / 8] ^= 1 << (at % 8);
                    self.put(*f, &b);
                    self.count("fault_file_bit", 1);
                }
            }
            Step::Remove { f } => {
                let _ = fs::remove_file(self.r.root.join(file(*f)));
            }
            _ => {}
        }
    }

    /// files written by the bindings read by the program and the other way round
    fn program(&mut self, what: u8, f: usize, e: &Ents) -> Option<String> {
        let e = Ents { text: true, kind: e.kind & 3, ..e.clone() };
        let lines: Vec<String> = e.all().into_iter().map(|b| String::from_utf8(b).unwrap()).collect();
        fs::write(self.r.root.join("words"), lines.join("\n") + "\n").unwrap();
        let before = self.bytes(f);
        let a: &[&str] = match what {
            0 => &["insert", "F", "words"],
            1 => &["check", "F", "words"],
            _ => &["show", "F"],
        };
        let args: Vec<String> = a.iter().map(|x| if *x == "F" { file(f) } else { x.to_string() }).collect();
        let sim = Sim::default();
        let exe = build_dir().join("cli/release/poppy");
        let rep = self.r.run(&exe, &args, &[], &self.names, &sim, None, (2_000_000_000, 2_000_000));
        self.account(&rep, &sim);
        self.count("program_steps", 1);
        let m = before.as_ref().and_then(|b| load(b));
        let Some(mut m) = m else {
            let m = format!("the program accepts {}, which the library refuses", file(f));
            return (rep.ok() && what < 2).then_some(m);
        };
        if what == 0 && !fill(&mut m.clone(), &e) {
            self.count("unusable_filters", 1);
            return None;
        }
        match what {
            0 => {
                if lines.iter().any(|l| m.insert_bytes(l).is_err()) {
                    return rep.ok().then(|| "the program inserts more than fits".into());
                }
                if !rep.ok() {
                    return Some(format!("the program fails to insert into {}: {}", file(f), rep.how()));
                }
                let b = self.bytes(f).unwrap_or_default();
                (b != plain_bytes(&m)).then(|| format!("{} written by the program is not what the library writes ({})", file(f), first_diff(&b, &plain_bytes(&m))))
            }
            1 => {
                let mut want: Vec<&str> = lines.iter().filter(|l| m.contains_bytes(l)).map(|s| s.as_str()).collect();
                let out = String::from_utf8_lossy(&rep.out).into_owned();
                let mut got: Vec<&str> = out.lines().collect();
                want.sort();
                got.sort();
                if !rep.ok() {
                    return Some(format!("the program fails to check {}: {}", file(f), rep.how()));
                }
                (want != got).then(|| format!("the program finds {} of {} entries in {}, the library {}", got.len(), lines.len(), file(f), want.len()))
            }
            _ => (!rep.ok()).then(|| format!("the program fails to show {}: {}", file(f), rep.how())),
        }
    }

    fn session(&mut self, ops: &[Op], sim: &Sim) -> Option<String> {
        let plan = self.r.dir.join("ops");
        fs::write(&plan, ops.iter().map(|o| line(o) + "\n").collect::<String>()).unwrap();
        let drv = crate::verif().join("libsim/pydriver.py");
        let so = build_dir().join("py/release/libpoppy.so");
        let args: Vec<String> = ["-S", "-s", "-B"].iter().map(|s| s.to_string()).chain([drv, so, plan].iter().map(|p| p.display().to_string())).collect();
        let env = [("PYTHONHASHSEED", "0".to_string())];
        let rep = self.r.run(std::path::Path::new("/usr/bin/python3"), &args, &env, &self.names, sim, None, (1_000_000_000, 2_000_000));
        self.account(&rep, sim);
        self.count("sessions", 1);
        if let Some(m) = rep.stuck() {
            return Some(format!("the interpreter {m}"));
        }
        let out = String::from_utf8_lossy(&rep.out).into_owned();
        let mut ls = out.lines();
        if !rep.ok() || out.lines().last() != Some(&format!("end {}", ops.len())) {
            if rep.sig.is_none() && rep.code != Some(0) && !out.is_empty() {
                panic!("driver: {} {}", out, String::from_utf8_lossy(&rep.err));
            }
            let e = String::from_utf8_lossy(&rep.err).into_owned();
            if e.contains("Traceback") {
                panic!("driver: {e}");
            }
            return Some(format!("the interpreter died ({}): {}", rep.how(), e.lines().last().unwrap_or("")));
        }
        // events of each operation
        let mut evs: Vec<Vec<Ev>> = vec![];
        for e in &rep.ev {
            if e.path == MARK {
                evs.push(vec![]);
            } else if let Some(l) = evs.last_mut() {
                l.push(*e);
            }
        }
        let mut st = State::default();
        for (i, op) in ops.iter().enumerate() {
            let mut l = ls.next().unwrap();
            let (mut pre, mut mid) = (None, None);
            while let Some((k, h)) = l.split_once(' ').filter(|(k, _)| matches!(*k, "pre" | "mid")) {
                if k == "pre" {
                    pre = unhex(h);
                } else {
                    mid = Some(h);
                }
                l = ls.next().unwrap();
            }
            if let Op::During { .. } = op {
                continue;
            }
            let failed = evs.get(i).map_or(false, |v| v.iter().any(|e| e.err != 0 && e.err != libc::EINTR));
            let other = match i.checked_sub(1).map(|i| &ops[i]) {
                Some(Op::During { op, .. }) => mid.map(|m| (op, m)),
                _ => None,
            };
            let res = match other {
                None => self.judge(i, op, l, pre.as_deref(), failed, &mut st),
                Some((o, m)) => {
                    // as if one after the other, in either order
                    self.count("operations_meanwhile", 1);
                    let mut alt = st.clone();
                    let a = self.judge(i - 1, o, m, None, false, &mut st).and_then(|x| Ok(x && self.judge(i, op, l, pre.as_deref(), failed, &mut st)?));
                    a.or_else(|e| {
                        let b = self.judge(i, op, l, pre.as_deref(), failed, &mut alt).and_then(|x| Ok(x && self.judge(i - 1, o, m, None, false, &mut alt)?));
                        st = alt;
                        b.map_err(|_| format!("in another thread during operation {i} ({}): {e}", cut(&line(op), 120)))
                    })
                }
            };
            match res {
                Ok(true) => {}
                Ok(false) => return None,
                Err(m) => return Some(m),
            }
        }
        self.out.nontrivial = true;
        None
    }

    /// what an operation returned, against the library; false to end the session
    fn judge(&mut self, i: usize, op: &Op, l: &str, pre: Option<&[u8]>, failed: bool, st: &mut State) -> Result<bool, String> {
        let what = format!("operation {i} ({})", cut(&line(op), 120));
        if l.starts_with("panic ") {
            // what the library cannot do either (an entry for a filter without bits) is not a matter of storage
            let m = match op {
                Op::Ins { r, e } => st.regs.get(r).cloned().map(|mut f| fill(&mut f, e)),
                _ => None,
            };
            if m == Some(false) {
                self.count("unusable_filters", 1);
                return Ok(false);
            }
            return Err(format!("{what} does not raise an exception but {}", cut(&l[6..], 160)));
        }
        let got = l.strip_prefix("ok ");
        let raised = got.is_none();
        self.count(if raised { "exceptions" } else { "operations" }, 1);
        let want: Option<String> = match op {
            Op::New { r, how, v, cap, fpp, opt } => match create(*how, *v, *cap, f64::from_bits(*fpp), *opt) {
                Some(f) => {
                    st.regs.insert(*r, f);
                    Some("-".into())
                }
                None => None,
            },
            Op::Ins { r, e } => match st.regs.get_mut(r) {
                None => Some("absent".into()),
                Some(f) => Some(
                    e.all()
                        .iter()
                        .map(|b| match f.insert_bytes(b) {
                            Ok(true) => '1',
                            Ok(false) => '0',
                            Err(_) => 'E',
                        })
                        .collect(),
                ),
            },
            Op::During { .. } => Some("-".into()),
            Op::Has { r, e } => match st.regs.get(r) {
                None => Some("absent".into()),
                Some(f) => Some(e.all().iter().map(|b| if f.contains_bytes(b) { '1' } else { '0' }).collect()),
            },
            Op::Info { r } => {
                let w = st.regs.get(r).map_or("absent".into(), info);
                // the probability travels as text
                let g = got.map(|g| {
                    let mut p: Vec<String> = g.split(' ').map(|s| s.to_string()).collect();
                    if p.len() == 6 {
                        p[2] = p[2].parse::<f64>().map_or(p[2].clone(), |x| x.to_bits().to_string());
                    }
                    p.join(" ")
                });
                if g.as_deref() != Some(&w) {
                    return Err(format!("{what} tells {}, the library {w}", g.unwrap_or(l.into())));
                }
                return Ok(true);
            }
            Op::Merge { r, o } => {
                if r == o || !st.regs.contains_key(r) || !st.regs.contains_key(o) {
                    Some("absent".into())
                } else {
                    let x = st.regs[o].clone();
                    st.regs.get_mut(r).unwrap().union_merge(&x).ok().map(|_| "-".into())
                }
            }
            Op::Common { r, o } => {
                if !st.regs.contains_key(r) || !st.regs.contains_key(o) {
                    Some("absent".into())
                } else {
                    st.regs[r].count_common_entries(&st.regs[o]).ok().map(|n| n.to_string())
                }
            }
            Op::Dumps { r, b } => match st.regs.get(r) {
                None => Some("absent".into()),
                Some(f) => {
                    let w = plain_bytes(f);
                    if let Some(g) = got.and_then(unhex) {
                        if g != w {
                            return Err(format!("{what} returns {} bytes that are not those of the library ({})", g.len(), first_diff(&g, &w)));
                        }
                    }
                    st.blobs.insert(*b, w);
                    if raised {
                        return Err(format!("{what} raises {}", cut(l, 160)));
                    }
                    return Ok(true);
                }
            },
            Op::Loads { r, b, cut, flip } => {
                let mut x = st.blobs.get(b).cloned().unwrap_or_default();
                if let Some(c) = cut {
                    x.truncate((x.len() as u64 * *c as u64 / 65536) as usize);
                }
                if let (Some(f), false) = (flip, x.is_empty()) {
                    let at = bit_of(*f, x.len());
                    x[at as usize / 8] ^= 1 << (at % 8);
                }
                match load(&x) {
                    Some(f) => {
                        st.regs.insert(*r, f);
                        Some("-".into())
                    }
                    None => None,
                }
            }
            Op::Save { r, .. } => match st.regs.get(r) {
                None => Some("absent".into()),
                Some(f) => {
                    let w = plain_bytes(f);
                    match got {
                        None if failed => {
                            self.count("saves_failed", 1);
                        }
                        None => return Err(format!("{what} raises {} although nothing failed", cut(l, 160))),
                        Some(g) => {
                            let g = unhex(g).unwrap_or_default();
                            if g != w {
                                return Err(format!(
                                    "{what} returned{} but the file is not the complete filter ({} of {} bytes, {})",
                                    if failed { " in spite of a failure" } else { "" },
                                    g.len(),
                                    w.len(),
                                    first_diff(&g, &w)
                                ));
                            }
                            self.count("saves", 1);
                        }
                    }
                    return Ok(true);
                }
            },
            Op::Load { r, .. } => {
                let m = pre.and_then(load);
                match (m, raised) {
                    (Some(f), false) => {
                        st.regs.insert(*r, f);
                        self.count("loads", 1);
                    }
                    (Some(_), true) if !failed => return Err(format!("{what} raises {} for a file the library loads", cut(l, 160))),
                    (None, false) => return Err(format!("{what} returns a filter from a file the library refuses")),
                    _ => self.count("loads_failed", 1),
                }
                return Ok(true);
            }
        };
        match (&want, got) {
            (Some(w), Some(g)) if w == g => {}
            (None, None) => {}
            (Some(w), Some(g)) => return Err(format!("{what} returns {}, the library {}", cut(g, 160), cut(w, 160))),
            (Some(_), None) => return Err(format!("{what} raises {} where the library succeeds", cut(l, 160))),
            (None, Some(_)) => return Err(format!("{what} returns where the library reports an error")),
        }
        Ok(true)
    }
}

fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn ents(r: &mut Rng) -> Ents {
    let most = if r.chance(1, 4) { 60 } else { 10 };
    let n = r.range(1, most) as u32;
    let odd = if r.chance(1, 4) { 4 } else { 0 };
    Ents { kind: r.below(4) as u8 + odd, start: r.below(60) as u32, n, text: r.chance(1, 2) }
}

fn new(r: &mut Rng, reg: u8) -> Op {
    let v = if r.chance(1, 2) { 1 } else { 2 };
    let p: f64 = *r.pick(&[0.001, 0.01, 0.1, 0.25, 0.5]);
    let how = r.below(3) as u8;
    let cap = r.logu(3, 3000);
    if r.chance(1, 12) {
        // refused
        return match r.below(4) {
            0 => Op::New { r: reg, how: 1, v: *r.pick(&[0, 3, 255]), cap, fpp: p.to_bits(), opt: 0 },
            1 => Op::New { r: reg, how: 2, v: 2, cap, fpp: p.to_bits(), opt: *r.pick(&[4, 9, 255]) },
            2 => Op::New { r: reg, how, v, cap: 0, fpp: p.to_bits(), opt: 0 },
            _ => Op::New { r: reg, how, v, cap, fpp: f64::to_bits(*r.pick(&[0.0, f64::NAN, -0.5, 2.0])), opt: 0 },
        };
    }
    Op::New { r: reg, how, v, cap, fpp: p.to_bits(), opt: if v == 1 && how == 2 { 0 } else { r.below(4) as u8 } }
}

fn rules(r: &mut Rng) -> Vec<Rule> {
    let mut v = vec![];
    for _ in 0..r.range(0, 2) {
        // any file but the marker, which is never written
        let path = if r.chance(1, 4) { P_ANY } else { r.below(NFILES as u64) as i32 };
        let nth = r.logu(1, 12);
        v.push(match r.below(10) {
            0 => Rule { op: OP_WRITE, path, kind: K_BUDGET, nth: 0, every: 0, sticky: true, arg: r.logu(1, 12000) },
            1 => Rule { op: OP_WRITE, path, kind: K_ERR, nth, every: 0, sticky: true, arg: *r.pick(&[libc::ENOSPC, libc::EIO]) as u64 },
            2 => Rule { op: OP_READ, path, kind: K_ERR, nth, every: 0, sticky: true, arg: libc::EIO as u64 },
            3 => Rule { op: OP_OPEN, path, kind: K_ERR, nth: r.range(1, 2), every: 0, sticky: r.chance(1, 2), arg: *r.pick(&[libc::EACCES, libc::EMFILE]) as u64 },
            4 => Rule { op: OP_CREAT, path, kind: K_ERR, nth: r.range(1, 2), every: 0, sticky: r.chance(1, 2), arg: libc::EROFS as u64 },
            5 => Rule { op: OP_WRITE, path, kind: K_SHORT, nth: 1, every: r.range(1, 3), sticky: false, arg: r.logu(1, 9000) },
            6 => Rule { op: OP_READ, path, kind: K_SHORT, nth: 1, every: r.range(1, 3), sticky: false, arg: r.logu(1, 9000) },
            7 => Rule { op: *r.pick(&[OP_RENAME, OP_SYNC, OP_TRUNC]), path: P_ANY, kind: K_ERR, nth: r.range(1, 3), every: 0, sticky: r.chance(1, 2), arg: libc::EIO as u64 },
            8 => Rule { op: OP_WRITE, path, kind: K_ERR, nth, every: r.range(2, 4), sticky: false, arg: libc::EINTR as u64 },
            _ => Rule { op: OP_READ, path, kind: K_ERR, nth, every: r.range(2, 4), sticky: false, arg: libc::EINTR as u64 },
        });
    }
    v
}

pub fn gen(seed: u64) -> Plan {
    let mut r = Rng::new(mix(&[seed, 0x7079]));
    let r = &mut r;
    let mut steps = vec![];
    for k in 0..r.range(1, 4) {
        if k > 0 {
            for _ in 0..r.below(3) {
                let f = r.usize(NFILES);
                steps.push(match r.below(8) {
                    0..=2 => Step::Program { what: r.below(3) as u8, f, e: ents(r) },
                    3..=4 => Step::Library { f, e: ents(r), data: r.chance(1, 2).then(|| r.logu(1, 3000) as u32) },
                    5 => Step::Cut { f, frac: r.below(65536) as u32 },
                    6 => Step::Flip { f, bit: if r.chance(1, 2) { r.below(600) } else { r.next() } },
                    _ => Step::Remove { f },
                });
            }
        }
        let mut ops = vec![];
        if k == 0 {
            ops.push(new(r, 0));
            if r.chance(1, 2) {
                let c = ops[0].clone();
                ops.push(match c {
                    Op::New { how, v, cap, fpp, opt, .. } => Op::New { r: 1, how, v, cap, fpp, opt },
                    _ => c,
                });
            }
        } else {
            for reg in 0..3 {
                ops.push(Op::Load { r: reg, f: r.usize(NFILES) });
            }
        }
        for _ in 0..r.range(2, 12) {
            let (a, b) = (r.below(3) as u8, r.below(3) as u8);
            let op = match r.below(24) {
                0 => new(r, a),
                1..=6 => Op::Ins { r: a, e: ents(r) },
                7..=9 => Op::Has { r: a, e: ents(r) },
                10 | 11 => Op::Info { r: a },
                12 => Op::Merge { r: a, o: b },
                13 => Op::Common { r: a, o: b },
                14 => Op::Dumps { r: a, b },
                15 => {
                    ops.push(Op::Dumps { r: a, b });
                    let cut = r.chance(1, 4).then(|| r.below(65536) as u32);
                    let flip = r.chance(1, 4).then(|| if r.chance(1, 2) { r.below(600) } else { r.next() });
                    ops.push(Op::Loads { r: r.below(3) as u8, b, cut, flip });
                    Op::Info { r: a }
                }
                16..=19 => Op::Save { r: a, f: r.usize(NFILES) },
                _ => Op::Load { r: a, f: r.usize(NFILES) },
            };
            let waits = matches!(op, Op::Save { .. } | Op::Load { .. } | Op::Dumps { .. } | Op::Merge { .. } | Op::Common { .. });
            if waits && r.chance(1, 3) {
                let c = if r.chance(2, 3) { a } else { b };
                let other = match r.below(4) {
                    0 | 1 => Op::Ins { r: c, e: ents(r) },
                    2 => Op::Has { r: c, e: ents(r) },
                    _ => Op::Info { r: c },
                };
                ops.push(Op::During { at: *r.pick(&[1, 1, 2, 3, 4]), op: Box::new(other) });
            }
            ops.push(op);
        }
        for a in 0..3 {
            ops.push(Op::Info { r: a });
            if r.chance(2, 3) {
                ops.push(Op::Save { r: a, f: a as usize });
            }
        }
        steps.push(Step::Session { ops, sim: Sim { seed: r.next(), rules: rules(r), ..Sim::default() } });
    }
    Plan { seed, steps }
}

pub fn smaller(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            out.push(q);
        }
    };
    for i in (0..p.steps.len()).rev() {
        push(&|q| {
            q.steps.remove(i);
        });
    }
    for i in 0..p.steps.len() {
        match &p.steps[i] {
            Step::Session { ops, sim } => {
                let n = ops.len();
                let mut size = n.div_ceil(2);
                loop {
                    let mut a = 0;
                    while a < n {
                        push(&|q| {
                            if let Step::Session { ops, .. } = &mut q.steps[i] {
                                ops.drain(a..(a + size).min(n));
                            }
                        });
                        a += size;
                    }
                    if size <= 1 {
                        break;
                    }
                    size = size.div_ceil(2);
                }
                for j in 0..sim.rules.len() {
                    push(&|q| {
                        if let Step::Session { sim, .. } = &mut q.steps[i] {
                            sim.rules.remove(j);
                        }
                    });
                }
                for j in 0..n {
                    push(&|q| {
                        if let Step::Session { ops, .. } = &mut q.steps[i] {
                            match &mut ops[j] {
                                Op::Ins { e, .. } | Op::Has { e, .. } if e.n > 1 => e.n = e.n.div_ceil(2),
                                Op::New { cap, .. } if *cap > 8 => *cap /= 2,
                                _ => {}
                            }
                        }
                    });
                }
            }
            Step::Program { .. } | Step::Library { .. } => push(&|q| match &mut q.steps[i] {
                Step::Program { e, .. } | Step::Library { e, .. } if e.n > 1 => e.n = e.n.div_ceil(2),
                _ => {}
            }),
            _ => {}
        }
    }
    out
}
