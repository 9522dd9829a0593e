//! Histories of real `poppy` processes on one filter file, under libsim.

use crate::proc::*;
use crate::refimpl::RefFilter;
use crate::rng::{mix, splitmix, Digest, Rng};
use crate::world::{count_tolerance, first_diff, impossible, make, plain_bytes, Cfg, Damage};
use crate::{Finding, RunOut};
use poppy_filters::BloomFilter;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Cursor;
use std::os::unix::fs::{FileExt, MetadataExt};
use std::path::PathBuf;

pub const DEST: &str = "filter.pop";

pub const CRLF: u8 = 1;
pub const NOFINAL: u8 = 2;
pub const DUPS: u8 = 4;
pub const BLANK: u8 = 8;
pub const LONG: u8 = 16;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    Lines { kind: u8, start: u32, n: u32, flags: u8 },
    /// line `at` is not UTF-8
    Undecodable { kind: u8, start: u32, n: u32, at: u32 },
    Dir,
    Missing,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Init {
    None,
    Filter { cfg: Cfg, kind: u8, start: u32, n: u32, data: u32 },
    /// a filter holding far more than its capacity, made by merging full ones
    Overfull { cfg: Cfg, kind: u8, parts: u32 },
    /// a filter holding lines as they are in a file
    Lines { cfg: Cfg, kind: u8, flags: u8, n: u32 },
    /// a filter file cut to a fraction (in 1/65536)
    Cut { cfg: Cfg, n: u32, frac: u32 },
    Damaged { cfg: Cfg, n: u32, data: u32, d: Damage },
    Garbage { len: u32, seed: u64 },
    Text { kind: u8, start: u32, n: u32 },
    Empty,
    /// a filter too large to be loaded, with nothing in it
    Giant { cfg: Cfg, count: u64, data: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Create { cfg: Cfg, dataset: Vec<usize> },
    Insert { stdin: Option<usize>, flag: bool, inputs: Vec<usize> },
    Check { stdin: Option<usize>, flag: bool, silent: bool, verify: bool, inputs: Vec<usize> },
    Show,
    /// on the filter file, or on one made from the data
    Bench { stdin: usize, file: bool, cfg: Cfg, runs: u32, tol: u64, test_size: Option<u32>, size_mb: Option<u64> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub cmd: Cmd,
    pub jobs: Option<u64>,
    pub verbose: bool,
    /// how the arguments are written
    #[serde(default)]
    pub style: u8,
    pub sim: Sim,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub init: Init,
    pub files: Vec<Body>,
    pub steps: Vec<Step>,
}

/// text of an entry; no line breaks
pub fn text(kind: u8, id: u32) -> String {
    match kind {
        0 => {
            let mut x = 0xA5A5_0000_0000u64 ^ id as u64;
            format!("{:016x}{:016x}{:08x}", splitmix(&mut x), splitmix(&mut x), splitmix(&mut x) as u32)
        }
        1 => format!("s{id}"),
        2 => format!("host-{id}.example.org"),
        // what other kinds contain, but for blanks around it or another case
        4 => format!("{}{}{}", [" ", "\t", ""][id as usize % 3], text(id as u8 & 2, id), [" ", "\t", "  \t", "\u{a0}"][id as usize % 4]),
        5 => text(id as u8 & 2, id).to_uppercase(),
        // characters some readers treat specially
        6 => match id % 7 {
            0 => format!("# comment {id}"),
            1 => format!("\u{feff}mark {id}"),
            2 => format!("\"quoted, {id}\""),
            3 => format!("nul \0 {id}"),
            4 => format!("return \r {id}"),
            5 => format!("sep \u{2028}\u{b}\u{c}{id}"),
            _ => format!("-- {id} \\n"),
        },
        _ => format!("größe {id} — 日本語"),
    }
}

fn line(kind: u8, flags: u8, id: u32) -> String {
    let mut s = text(kind, id);
    if flags & LONG != 0 && id % 5 == 0 {
        let mut x = id as u64;
        // now and then beyond 64 KiB
        let n = if id % 55 == 0 { 66_000 } else { 6000 } + (splitmix(&mut x) % 14000) as usize;
        s.push('-');
        while s.len() < n {
            s.push_str("abcdefghij0123456789");
        }
    }
    s
}

impl Body {
    /// the lines, None if it cannot be read as lines
    pub fn lines(&self) -> Option<Vec<String>> {
        match self {
            Body::Lines { kind, start, n, flags } => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(line(*kind, *flags, start + i));
                    if flags & DUPS != 0 && i % 3 == 1 {
                        // at once or later
                        v.push(line(*kind, *flags, start + if i % 2 == 0 { i } else { i / 2 }));
                    }
                    if flags & BLANK != 0 && i % 4 == 2 {
                        v.push(String::new());
                    }
                }
                Some(v)
            }
            _ => None,
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Body::Lines { flags, .. } => {
                let l = self.lines().unwrap();
                let mut o = vec![];
                for (i, s) in l.iter().enumerate() {
                    o.extend_from_slice(s.as_bytes());
                    // a last line without terminator must not be empty, or it is no line
                    if i + 1 == l.len() && flags & NOFINAL != 0 && !s.is_empty() {
                        break;
                    }
                    o.extend_from_slice(if flags & CRLF != 0 { b"\r\n" } else { b"\n" });
                }
                o
            }
            Body::Undecodable { kind, start, n, at } => {
                let mut o = vec![];
                for i in 0..*n {
                    let s = text(*kind, start + i);
                    if i == *at {
                        o.extend_from_slice(&s.as_bytes()[..s.len() / 2]);
                        o.push(0xff);
                        o.push(0xfe);
                    }
                    o.extend_from_slice(s.as_bytes());
                    o.push(b'\n');
                }
                o
            }
            _ => vec![],
        }
    }
}

fn new_filter(c: &Cfg) -> Option<BloomFilter> {
    if c.opt > 3 {
        return None;
    }
    make(c, 0).ok()
}

fn load(b: &[u8]) -> Option<BloomFilter> {
    if impossible(b, false).is_some() {
        return None;
    }
    BloomFilter::from_reader(Cursor::new(b)).ok()
}

pub fn set_data(f: &mut BloomFilter, d: Vec<u8>) {
    match f {
        BloomFilter::V1(x) => x.data = d,
        BloomFilter::V2(x) => x.data = d,
    }
}

pub fn attached(n: u32) -> Vec<u8> {
    (0..n).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8).collect()
}

impl Init {
    pub fn bytes(&self) -> Option<Vec<u8>> {
        Some(match self {
            Init::None => return None,
            Init::Filter { cfg, kind, start, n, data } => {
                let mut f = make(cfg, 0).ok()?;
                for i in 0..*n {
                    let _ = f.insert_bytes(text(*kind, start + i));
                }
                set_data(&mut f, attached(*data));
                plain_bytes(&f)
            }
            Init::Overfull { cfg, kind, parts } => {
                let mut f = make(cfg, 0).ok()?;
                for p in 0..*parts {
                    let mut g = make(cfg, 0).ok()?;
                    for i in 0..cfg.cap as u32 {
                        let _ = g.insert_bytes(text(*kind, p * cfg.cap as u32 + i));
                    }
                    let _ = f.union_merge(&g);
                }
                plain_bytes(&f)
            }
            Init::Lines { cfg, kind, flags, n } => {
                let mut f = make(cfg, 0).ok()?;
                for i in 0..*n {
                    let _ = f.insert_bytes(line(*kind, *flags, i));
                }
                plain_bytes(&f)
            }
            Init::Cut { cfg, n, frac } => {
                let mut f = make(cfg, 0).ok()?;
                for i in 0..*n {
                    let _ = f.insert_bytes(text(0, i));
                }
                let mut b = plain_bytes(&f);
                b.truncate((b.len() as u64 * *frac as u64 / 65536) as usize);
                b
            }
            Init::Damaged { cfg, n, data, d } => {
                let mut b = Init::Filter { cfg: *cfg, kind: 0, start: 0, n: *n, data: *data }.bytes()?;
                match d {
                    Damage::Truncate(n) => b.truncate(*n as usize),
                    Damage::Patch(at, x) => {
                        for (i, x) in x.iter().enumerate() {
                            if let Some(y) = b.get_mut(*at as usize + i) {
                                *y = *x;
                            }
                        }
                    }
                    Damage::Flip(at, x) => {
                        if let Some(y) = b.get_mut(*at as usize) {
                            *y ^= x;
                        }
                    }
                    Damage::Replace(x) => b = x.clone(),
                }
                b
            }
            Init::Garbage { len, seed } => {
                let mut x = *seed;
                (0..*len).map(|_| splitmix(&mut x) as u8).collect()
            }
            Init::Text { kind, start, n } => Body::Lines { kind: *kind, start: *start, n: *n, flags: 0 }.bytes(),
            Init::Empty => vec![],
            Init::Giant { .. } => return None,
        })
    }
}

/// same content apart from the estimated number of elements
fn same_filter(a: &RefFilter, b: &RefFilter) -> Option<String> {
    if (a.ver, a.opt, a.cap, a.fpp.to_bits(), a.k, a.m) != (b.ver, b.opt, b.cap, b.fpp.to_bits(), b.k, b.m) {
        return Some(format!(
            "parameters differ: version {} opt {} capacity {} fpp {} instead of version {} opt {} capacity {} fpp {}",
            a.ver, a.opt, a.cap, a.fpp, b.ver, b.opt, b.cap, b.fpp
        ));
    }
    if a.data != b.data {
        return Some(format!("attached data differs ({} bytes instead of {})", a.data.len(), b.data.len()));
    }
    if a.bits != b.bits {
        return Some(format!("bits differ: {} set instead of {} ({})", a.ones(), b.ones(), first_diff(&a.bits, &b.bits)));
    }
    if a.cache != b.cache {
        return Some(format!("lookup cache differs ({})", first_diff(&a.cache, &b.cache)));
    }
    None
}

/// offset of the element count, the only part of the file that may legitimately depend on the way there
fn mask_count(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let o = match v.first() {
        Some(1) => 40,
        _ => 32,
    };
    for x in v.iter_mut().skip(o).take(8) {
        *x = 0;
    }
    v
}

#[derive(Debug)]
enum Seq {
    Filter(Box<BloomFilter>),
    /// refused: a line exceeds the capacity
    TooMany,
    /// an input, a parameter or the existing file is not usable
    Bad(&'static str),
}

pub struct World<'a> {
    p: &'a Plan,
    r: &'a mut Runner,
    names: Vec<String>,
    out: RunOut,
    d: Digest,
    path: Digest,
    /// entries added by commands that succeeded
    acked: BTreeSet<String>,
    stop: bool,
    /// files that failed commands left behind
    left: BTreeSet<String>,
    pub lists: Vec<Vec<(u32, u64, u32)>>,
    evs: Vec<(u64, Vec<Ev>)>,
}

fn poppy() -> PathBuf {
    build_dir().join("cli/release/poppy")
}

pub fn exec(p: &Plan, r: &mut Runner) -> RunOut {
    r.reset();
    let mut names = vec![DEST.to_string()];
    for (i, b) in p.files.iter().enumerate() {
        // names some readers of arguments treat specially
        let n = if p.seed % 5 == 0 { format!("daté,{i}=*{{{i}}}.txt") } else { format!("data{i}.txt") };
        let path = r.root.join(&n);
        match b {
            Body::Dir => fs::create_dir(&path).unwrap(),
            Body::Missing => {}
            _ => fs::write(&path, b.bytes()).unwrap(),
        }
        names.push(n);
    }
    let mut w = World { p, r, names, out: RunOut::default(), d: Digest::default(), path: Digest::default(), acked: BTreeSet::new(), stop: false, left: BTreeSet::new(), lists: vec![], evs: vec![] };
    if let Some(b) = p.init.bytes() {
        fs::write(w.dest(), b).unwrap();
    }
    if let Init::Filter { kind, start, n, .. } = &p.init {
        let f = load(&w.read().unwrap());
        for i in 0..*n {
            let t = text(*kind, start + i);
            if f.as_ref().map_or(false, |f| f.contains_bytes(&t)) {
                w.acked.insert(t);
            }
        }
    }
    let giant = matches!(p.init, Init::Giant { .. });
    if giant {
        w.giant();
    } else if p.prop == "C27" {
        w.overlap();
    }
    for (i, s) in p.steps.iter().enumerate() {
        if giant || p.prop == "C27" {
            break;
        }
        w.step(i, s);
        if w.stop {
            break;
        }
    }
    if !w.stop && p.prop == "C10" {
        w.final_check();
    }
    let mut o = w.out;
    o.evs = w.evs;
    o.digest = w.d.0;
    o.path = w.path.0;
    if !o.findings.is_empty() || std::env::var("PSIM_LISTS").is_ok() {
        o.lists = w.lists;
    }
    o
}

impl<'a> World<'a> {
    fn dest(&self) -> PathBuf {
        self.r.root.join(DEST)
    }
    fn read(&self) -> Option<Vec<u8>> {
        fs::read(self.dest()).ok()
    }
    fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.out.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    /// a failed expectation; stops the history if it belongs to the property under check
    fn find(&mut self, props: &[&str], class: &str, m: String) {
        if props.contains(&self.p.prop.as_str()) {
            self.out.findings.push(Finding { class: class.into(), msg: m });
            self.stop = true;
        }
    }

    fn names_of(&self, v: &[usize]) -> Vec<String> {
        v.iter().map(|i| self.names[i + 1].clone()).collect()
    }

    fn args(&self, s: &Step) -> Vec<String> {
        // short options, values left at their documented defaults, options behind the file names
        let (short, omit, late) = (s.style & 1 != 0, s.style & 2 != 0, s.style & 4 != 0);
        let opt = |a: &mut Vec<String>, sh: &str, long: &str, v: String, default: bool| {
            if default && omit {
                return;
            }
            match (short && !sh.is_empty(), s.style & 8 != 0) {
                (true, true) => a.push(format!("{sh}{v}")),
                (true, false) => a.push(format!("{sh}={v}")),
                (false, true) if !v.starts_with('-') => a.extend([long.to_string(), v]),
                _ => a.push(format!("{long}={v}")),
            }
        };
        let mut a: Vec<String> = vec![];
        if s.verbose {
            a.push(if short { "-v" } else { "--verbose" }.into());
        }
        if let Some(j) = s.jobs {
            opt(&mut a, "-j", "--jobs", j.to_string(), j == 2);
        }
        let (mut o, mut f) = (vec![], vec![DEST.to_string()]);
        match &s.cmd {
            Cmd::Create { cfg, dataset } => {
                a.push("create".into());
                opt(&mut o, "", "--version", cfg.v.to_string(), cfg.v == 2);
                opt(&mut o, "-c", "--capacity", cfg.cap.to_string(), cfg.cap == 10_000 || !dataset.is_empty());
                opt(&mut o, "-p", "--probability", cfg.p().to_string(), cfg.p() == 0.01);
                opt(&mut o, "-O", "--opt-lvl", cfg.opt.to_string(), cfg.opt == 0);
                f.extend(self.names_of(dataset));
            }
            Cmd::Insert { flag, inputs, .. } => {
                a.push("insert".into());
                if *flag {
                    o.push("--stdin".into());
                }
                f.extend(self.names_of(inputs));
            }
            Cmd::Check { flag, silent, verify, inputs, .. } => {
                a.push("check".into());
                for (b, n) in [(flag, "--stdin"), (silent, "--silent"), (verify, "--verify")] {
                    if *b {
                        o.push(n.into());
                    }
                }
                f.extend(self.names_of(inputs));
            }
            Cmd::Show => a.push("show".into()),
            Cmd::Bench { file, cfg, runs, tol, test_size, size_mb, .. } => {
                a.push("bench".into());
                let tol = f64::from_bits(*tol);
                opt(&mut o, "-r", "--runs", runs.to_string(), false);
                opt(&mut o, "-f", "--fp-tol", tol.to_string(), tol == 0.2);
                if let Some(t) = test_size {
                    opt(&mut o, "", "--test-size", t.to_string(), false);
                }
                if let Some(n) = size_mb {
                    opt(&mut o, "-s", "--size-mb", n.to_string(), *n == 100);
                }
                if !*file {
                    f.clear();
                    opt(&mut o, "-v", "--version", cfg.v.to_string(), cfg.v == 2);
                    opt(&mut o, "", "--fpp", cfg.p().to_string(), cfg.p() == 0.001);
                    opt(&mut o, "-O", "--opt", cfg.opt.to_string(), cfg.opt == 0);
                }
            }
        }
        if late {
            std::mem::swap(&mut o, &mut f);
        }
        a.extend(o);
        a.extend(f);
        a
    }

    /// data files a command reads, standard input first
    fn used(&self, c: &Cmd) -> (Option<usize>, Vec<usize>) {
        match c {
            Cmd::Create { dataset, .. } => (None, dataset.clone()),
            Cmd::Insert { stdin, flag, inputs } | Cmd::Check { stdin, flag, inputs, .. } => {
                // a missing file cannot be standard input: nothing is there then
                let si = stdin.filter(|i| (*flag || inputs.is_empty()) && self.p.files[*i] != Body::Missing);
                (si, inputs.clone())
            }
            Cmd::Show => (None, vec![]),
            Cmd::Bench { stdin, .. } => (Some(*stdin), vec![]),
        }
    }

    fn limits(&self, s: &Step, before: usize) -> (u64, u64) {
        let (si, inp) = self.used(&s.cmd);
        let mut bytes = before as u64 + 4096;
        let mut lines = 0;
        for i in si.iter().chain(inp.iter()) {
            let b = self.p.files[*i].bytes();
            bytes += b.len() as u64 + 64;
            lines += b.iter().filter(|c| **c == b'\n').count() as u64 + 1;
        }
        let mut filter = before as u64;
        if let Cmd::Create { cfg, dataset } = &s.cmd {
            let cap = if dataset.is_empty() { cfg.cap } else { lines };
            let p = if cfg.p() > 1e-12 && cfg.p() < 1.0 { cfg.p() } else { 0.001 };
            let z = crate::refimpl::sizing(cfg.v, cap, p, cfg.opt.min(3));
            filter = z.n_buckets.saturating_mul(4096).saturating_add(z.cache_bytes).saturating_add(z.m / 8).saturating_add(filter);
        }
        let filter = filter.min(1 << 32);
        let mut steps = 30_000_000 + 3000 * bytes + 40 * (inp.len() as u64 + 2) * filter;
        if let Cmd::Bench { runs, .. } = &s.cmd {
            steps += lines * (*runs as u64 + 3) * 10 * 3000;
        }
        (steps, 30_000 + 16 * bytes + filter)
    }

    fn run(&mut self, s: &Step, before: usize) -> Report {
        let a = self.args(s);
        // what is there may not be wanted
        let given = match &s.cmd {
            Cmd::Insert { stdin, .. } | Cmd::Check { stdin, .. } => *stdin,
            c => self.used(c).0,
        };
        let stdin = match given {
            Some(i) if self.p.files[i] != Body::Missing => Some(self.r.root.join(&self.names[i + 1])),
            _ => None,
        };
        let lim = self.limits(s, before);
        // an aborting process must not leave core files in the scratch directory
        let rep = self.r.run(&poppy(), &a, &[], &self.names, &s.sim, stdin.as_deref(), lim);
        self.d.u64(rep.digest);
        self.path.u64(rep.digest);
        if let Some(b) = self.read() {
            self.d.bytes(&b);
        }
        self.account(s, rep)
    }

    fn account(&mut self, s: &Step, rep: Report) -> Report {
        self.lists.push(rep.sw.clone());
        self.evs.push((rep.calls, rep.ev.clone()));
        self.out.steps += rep.steps + rep.calls;
        if s.sim.clock.0 < 4 {
            self.out.sim_ns = self.out.sim_ns.saturating_add(rep.clock_ns);
        }
        self.count("processes", 1);
        self.count("threads", rep.threads);
        self.count("preemptions", rep.preempt);
        self.count("blocked", rep.blocked);
        self.count("intercepted_calls", rep.calls);
        self.count("switch_points", rep.steps);
        if rep.killed_at_call {
            self.count("fault_killed_at_call", 1);
        }
        for (i, n) in rep.fired.iter().enumerate() {
            let r = &s.sim.rules[i];
            if *n > 0 {
                let k = match (r.op, r.kind) {
                    (OP_THREAD, _) => "fault_thread_start".to_string(),
                    (OP_ALLOC, _) => "fault_alloc".to_string(),
                    (_, K_BUDGET) => "fault_no_space".to_string(),
                    (_, K_HANG) => "fault_read_waits".to_string(),
                    (_, K_SWAP) => "fault_rewritten_meanwhile".to_string(),
                    (op, k) => format!(
                        "fault_{}_{}",
                        match op {
                            OP_OPEN | OP_CREAT => "open",
                            OP_READ => "read",
                            OP_WRITE => "write",
                            OP_CLOSE => "close",
                            OP_SEEK => "seek",
                            OP_STAT => "stat",
                            _ => "other",
                        },
                        match k {
                            K_ERR if r.arg == libc::EINTR as u64 => "interrupted",
                            K_ERR => "error",
                            K_SHORT => "short",
                            K_CRASH => "kill_before",
                            K_CRASHAFTER => "kill_after",
                            K_TORN => "kill_midway",
                            _ => "other",
                        }
                    ),
                };
                self.count(&k, *n);
            }
        }
        if s.sim.ncpu == 0 && s.jobs == Some(0) {
            self.count("fault_processors_unknown", 1);
        }
        match s.sim.clock.0 {
            0 => {}
            1 => self.count("fault_clock_still", 1),
            2 => self.count("fault_clock_jumps", 1),
            3 => self.count("fault_clock_erratic", 1),
            _ => self.count("fault_clock_enormous_steps", 1),
        }
        if rep.threads > 0 && rep.preempt > 0 || rep.fired.iter().any(|x| *x > 0) || s.sim.clock.0 > 0 || rep.crashed() {
            self.out.nontrivial = true;
        }
        rep
    }

    fn lines_of(&self, v: &[usize]) -> Option<Vec<String>> {
        let mut o = vec![];
        for i in v {
            o.extend(self.p.files[*i].lines()?);
        }
        Some(o)
    }

    /// what the command means: everything one after the other
    fn sequential(&self, s: &Step, before: Option<&[u8]>) -> Seq {
        match &s.cmd {
            Cmd::Create { cfg, dataset } => {
                if let Some(b) = before {
                    if load(b).is_none() {
                        return Seq::Bad("the existing file is not a filter");
                    }
                }
                let Some(l) = self.lines_of(dataset) else { return Seq::Bad("an input cannot be read") };
                let mut c = cfg.clone();
                if !dataset.is_empty() {
                    c.cap = l.len() as u64;
                }
                let Some(mut f) = new_filter(&c) else { return Seq::Bad("invalid parameters") };
                for e in l {
                    if f.insert_bytes(e).is_err() {
                        return Seq::TooMany;
                    }
                }
                Seq::Filter(Box::new(f))
            }
            Cmd::Insert { .. } => {
                let Some(mut f) = before.and_then(load) else { return Seq::Bad("the existing file is not a filter") };
                let (si, inp) = self.used(&s.cmd);
                let all: Vec<usize> = si.into_iter().chain(inp).collect();
                let Some(l) = self.lines_of(&all) else { return Seq::Bad("an input cannot be read") };
                for e in l {
                    if f.insert_bytes(e).is_err() {
                        return Seq::TooMany;
                    }
                }
                Seq::Filter(Box::new(f))
            }
            _ => unreachable!(),
        }
    }

    fn step(&mut self, _i: usize, s: &Step) {
        match &s.cmd {
            _ if self.p.prop == "C04" => self.damaged(s),
            Cmd::Create { .. } | Cmd::Insert { .. } if self.p.prop == "C24" => self.writes(s, true),
            _ if self.p.prop == "C24" => self.writes(s, false),
            _ if self.p.prop == "C26" => self.resources(s),
            Cmd::Create { .. } | Cmd::Insert { .. } => self.update(s),
            Cmd::Check { .. } => self.check(s),
            Cmd::Show => self.show(s),
            Cmd::Bench { .. } => self.bench(s),
        }
    }

    /// every file in the scratch directory
    fn files(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        fs::read_dir(&self.r.root).unwrap().flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).ok())).collect()
    }

    /// which files a command changes, adds or removes
    fn writes(&mut self, s: &Step, update: bool) {
        let before = self.files();
        let rep = self.run(s, before.get(DEST).map_or(0, |b| b.as_ref().map_or(0, |b| b.len())));
        if self.stuck(s, &rep) {
            return;
        }
        let after = self.files();
        let (what, how) = (describe(s), if rep.crashed() { "was killed".to_string() } else { rep.how() });
        for (n, b) in &before {
            if update && (n == DEST || self.left.contains(n)) {
                continue;
            }
            self.count("files_compared", 1);
            match after.get(n) {
                Some(a) if a == b => {}
                Some(_) => self.find(&["C24"], "", format!("{what} ({how}) changed {n}")),
                None => self.find(&["C24"], "", format!("{what} ({how}) removed {n}")),
            }
        }
        // a command that failed may have had no chance to clean up
        for n in after.keys() {
            if before.contains_key(n) || n == DEST && update {
                continue;
            }
            self.left.insert(n.clone());
            if !update || rep.ok() {
                self.find(&["C24"], "", format!("{what} ({how}) left a file {n} behind"));
            }
        }
    }

    /// how many threads a command has at a time, and how much memory
    fn resources(&mut self, s: &Step) {
        let before = self.read().unwrap_or_default();
        let rep = self.run(s, before.len());
        if self.stuck(s, &rep) || !rep.ok() {
            self.count("not_judged", 1);
            return;
        }
        let after = self.read().unwrap_or_default();
        let (si, inp) = self.used(&s.cmd);
        let jobs = match s.jobs.unwrap_or(2) {
            // any sensible number will do
            0 if s.sim.ncpu == 0 => 8,
            0 => s.sim.ncpu,
            j => j,
        };
        let files = inp.len() as u64;
        // as many batches of equal size as there are jobs, and more for what is left over
        let batches = files.div_ceil((files / jobs).max(1)).max(1);
        let what = describe(s);
        self.count("threads_judged", 1);
        // the first thread, and one that may wait or write on behalf of the others
        let most = rep.most.saturating_sub(2);
        if most > jobs {
            let class = if most > batches { "" } else { "left-over-batches" };
            self.find(&["C26"], class, format!("{what} runs {} threads at a time for {jobs} jobs", rep.most));
        }
        let filter = before.len().max(after.len()) as u64;
        let input: u64 = si.iter().chain(inp.iter()).map(|i| self.p.files[*i].bytes().len() as u64).sum();
        // buffers, and reading ahead
        let slack = 128 * 1024 + 40 * 1024 * rep.most + 2 * input;
        let (n, more) = match &s.cmd {
            Cmd::Create { .. } | Cmd::Insert { .. } => (jobs.min(files.max(1)), batches),
            Cmd::Check { .. } => (1, 1),
            _ => (0, 0),
        };
        // storage grows while a filter is loaded or saved
        let room = |n: u64| if n == 0 { 0 } else { (n + 3) * filter };
        self.count("memory_judged", 1);
        if rep.peak > room(n) + slack {
            let class = if rep.peak > room(more) + slack { "" } else { "left-over-batches" };
            self.find(
                &["C26"],
                class,
                format!("{what} needs {} KiB of memory for a filter of {} KiB", rep.peak / 1024, filter / 1024),
            );
        }
    }

    /// what a command leaves when it is stopped at a call, and whether the file is still the same one
    fn stage(&mut self, s: &Step, old: &[u8], call: u64) -> Option<(Vec<u8>, bool)> {
        for n in self.files().keys().filter(|n| !self.names.contains(n)) {
            let _ = fs::remove_file(self.r.root.join(n));
        }
        let ino = |p: &PathBuf| fs::metadata(p).map_or(0, |m| m.ino());
        fs::write(self.dest(), old).unwrap();
        let before = ino(&self.dest());
        let mut t = s.clone();
        t.sim.kill = call;
        let rep = self.run(&t, old.len());
        if self.stuck(&t, &rep) || !(rep.ok() || rep.crashed()) {
            return None;
        }
        Some((self.read()?, ino(&self.dest()) == before))
    }

    /// a check that reads the filter while an insert writes it
    fn overlap(&mut self) {
        let p = self.p;
        let [ws, rs] = &p.steps[..] else { return };
        let (Cmd::Insert { .. }, Cmd::Check { verify, .. }) = (&ws.cmd, &rs.cmd) else { return };
        let Some(old) = self.read() else { return };
        let Some((new, _)) = self.stage(ws, &old, 0) else {
            self.count("not_judged", 1);
            return;
        };
        let (calls, ev) = self.evs.last().unwrap().clone();
        // the writer's last calls, those that write among them
        let span = ev.iter().filter(|e| matches!(e.op, OP_WRITE | OP_CREAT | OP_TRUNC | OP_RENAME | OP_SYNC) && e.path < 1000).count() as u64 + 6;
        let mut r = rs.clone();
        let (mut at, mut n) = (0, 0);
        for x in r.sim.rules.iter_mut().filter(|x| x.kind == K_SWAP) {
            // it only gets further
            at = at.max(x.arg);
            let back = span - (span * at) / 65536;
            let Some((b, same)) = self.stage(ws, &old, (calls + 1).saturating_sub(back).max(1)) else {
                self.count("not_judged", 1);
                return;
            };
            if b != old && b != new {
                self.count("stages_in_between", 1);
            }
            fs::write(self.r.dir.join(format!("stage{n}")), &b).unwrap();
            x.arg = n + if same { 0 } else { 16 };
            n += 1;
        }
        fs::write(self.dest(), &old).unwrap();
        let rep = self.run(&r, old.len());
        if self.stuck(rs, &rep) {
            return;
        }
        let what = format!("{} during {}", describe(rs), describe(ws));
        if rep.sig.is_some() || rep.code == Some(101) {
            let e = String::from_utf8_lossy(&rep.err).into_owned();
            self.find(&["C27"], "", format!("{what} died: {} {}", rep.how(), e.lines().next().unwrap_or("")));
            return;
        }
        if !rep.ok() {
            self.count("overlap_refused", 1);
            return;
        }
        let (Some(fo), Some(fnew)) = (load(&old), load(&new)) else { return };
        let (si, inp) = self.used(&rs.cmd);
        let all: Vec<usize> = si.into_iter().chain(inp).collect();
        let Some(lines) = self.lines_of(&all) else { return };
        let mut got: BTreeMap<&[u8], i64> = BTreeMap::new();
        for l in rep.out.split(|c| *c == b'\n') {
            *got.entry(l).or_insert(0) += 1;
        }
        let mut want: BTreeMap<String, i64> = BTreeMap::new();
        for l in lines {
            *want.entry(l).or_insert(0) += 1;
        }
        want.remove("");
        self.count("overlap_answered", 1);
        for (l, n) in want {
            let text = if *verify { format!("{l}: NOK") } else { l.clone() };
            let printed = got.get(text.as_bytes()).copied().unwrap_or(0);
            let present = if *verify { n - printed } else { printed };
            if fo.contains_bytes(&l) && present != n {
                self.find(&["C27"], "", format!("{what}: {l:?} was in the filter before, it is reported {present} times instead of {n}"));
                return;
            }
            if !fnew.contains_bytes(&l) && present != 0 {
                self.find(&["C27"], "", format!("{what}: {l:?} is reported although it is not in the filter even after"));
                return;
            }
            self.count("overlap_lines_judged", 1);
        }
    }

    /// a command given something that is not, or not quite, a filter
    fn damaged(&mut self, s: &Step) {
        let before = self.read();
        let rep = self.run(s, before.as_ref().map_or(0, |b| b.len()));
        if self.stuck(s, &rep) {
            return;
        }
        let partial = s.cmd == Cmd::Show;
        let b = before.unwrap_or_default();
        let mut why = impossible(&b, partial);
        if let Init::Damaged { cfg, n, data, d: Damage::Truncate(_) } = &self.p.init {
            let full = Init::Filter { cfg: *cfg, kind: 0, start: 0, n: *n, data: 0 }.bytes().map_or(0, |b| b.len());
            if b.len() < full && !partial {
                why = Some(format!("{} of {} bytes", b.len(), full + *data as usize));
            }
        }
        if rep.fired.iter().enumerate().any(|(i, n)| *n > 0 && s.sim.rules[i].op != OP_ALLOC && !s.sim.rules[i].benign()) {
            why = Some("reading fails".into());
        }
        let what = describe(s);
        // a filter that is accepted need only be good for queries
        let judged = why.is_some() || matches!(s.cmd, Cmd::Show | Cmd::Check { .. });
        if judged && (rep.sig.is_some() || rep.code == Some(101)) {
            let e = String::from_utf8_lossy(&rep.err).into_owned();
            let m = e.lines().next().unwrap_or("").to_string();
            self.find(&["C04"], "", format!("{what} on a damaged filter file died: {} {m}", rep.how()));
            return;
        }
        self.count(if rep.ok() { "damage_accepted" } else { "damage_rejected" }, 1);
        if let (Some(why), true) = (why, rep.ok()) {
            self.find(&["C04"], "", format!("{what} succeeded on a damaged filter file: {why}"));
        }
    }

    fn stuck(&mut self, s: &Step, rep: &Report) -> bool {
        if let Some(m) = rep.stuck() {
            let m = format!("{} {m}", describe(s));
            self.find(&["C11"], "", m);
            self.stop = true;
            return true;
        }
        false
    }

    fn update(&mut self, s: &Step) {
        let before = self.read();
        let seq = self.sequential(s, before.as_deref());
        let rep = self.run(s, before.as_ref().map_or(0, |b| b.len()));
        if self.stuck(s, &rep) {
            return;
        }
        let after = self.read();
        let create = matches!(s.cmd, Cmd::Create { .. });
        let what = describe(s);
        // which faults were met
        let (mut input_err, mut input_forever, mut write_err, mut write_forever, mut resource) = (false, false, false, false, false);
        for (i, n) in rep.fired.iter().enumerate() {
            let r = &s.sim.rules[i];
            if *n == 0 || r.benign() || r.kind == K_CRASH || r.kind == K_TORN || r.kind == K_CRASHAFTER {
                continue;
            }
            match r.op {
                OP_THREAD | OP_ALLOC => resource = true,
                OP_WRITE | OP_CREAT | OP_TRUNC | OP_SYNC | OP_RENAME => {
                    write_err = true;
                    // there are other ways than renaming or truncating
                    write_forever |= r.kind == K_BUDGET || r.sticky && matches!(r.op, OP_WRITE | OP_CREAT);
                }
                _ => {
                    input_err = true;
                    input_forever |= r.sticky && (r.op == OP_READ || r.op == OP_OPEN);
                }
            }
        }
        let clean = !input_err && !write_err && !resource && !rep.crashed();
        if rep.ok() {
            self.count("update_succeeded", 1);
            match &seq {
                Seq::Bad(why) => {
                    self.find(&["C09"], "", format!("{what} succeeded although {why}"));
                    self.stop = true;
                    return;
                }
                Seq::TooMany => {
                    let class = if self.parallel_overflow(s, before.as_deref()) { "parallel-capacity" } else { "" };
                    self.find(&["C05", "C09"], class, format!("{what} succeeded although a line exceeds the capacity when they are inserted one after the other"));
                    self.stop = true;
                    return;
                }
                Seq::Filter(_) => {}
            }
            if input_forever {
                self.find(&["C09"], "", format!("{what} succeeded although reading failed"));
            }
            if write_forever {
                self.find(&["C03"], "", format!("{what} succeeded although writing failed"));
            }
            let Seq::Filter(want) = seq else { unreachable!() };
            let tags: &[&str] = if clean {
                if create {
                    &["C12", "C10"]
                } else {
                    &["C07", "C10"]
                }
            } else if write_err {
                &["C03", "C10"]
            } else {
                &["C09", "C10"]
            };
            let wb = plain_bytes(&want);
            let wr = RefFilter::read(&wb);
            let got = after.as_deref().and_then(RefFilter::read);
            match (wr, got) {
                (Some(wr), Some(got)) => {
                    if let Some(m) = same_filter(&got, &wr) {
                        self.find(tags, "", format!("{what} succeeded but the filter is not the expected one: {m}"));
                    }
                    self.estimate(s, &what, &want, &wr, got.count);
                }
                (Some(_), None) => {
                    let n = after.as_ref().map_or(0, |b| b.len());
                    self.find(tags, "", format!("{what} succeeded but left no complete filter ({n} bytes instead of {})", wb.len()))
                }
                _ => {}
            }
            if create {
                self.acked.clear();
            }
            let (si, inp) = self.used(&s.cmd);
            let all: Vec<usize> = si.into_iter().chain(inp).collect();
            if let Some(l) = self.lines_of(&all) {
                self.acked.extend(l);
            }
            return;
        }
        self.count(if rep.crashed() { "update_killed" } else { "update_failed" }, 1);
        // it failed or was killed
        if matches!(seq, Seq::TooMany) && self.parallel_overflow(s, before.as_deref()) && (rep.crashed() || write_err) {
            // what would have been saved is not determined
            self.stop = true;
            return;
        }
        if !rep.crashed() && clean {
            if let Seq::Filter(_) = seq {
                let tags: &[&str] = if create { &["C12"] } else { &["C07", "C05"] };
                self.find(tags, "", format!("{what} failed ({}) although nothing was wrong", rep.how()));
                self.stop = true;
                return;
            }
        }
        let Some(before) = before else {
            // there was nothing to protect, and what is there now is not known to be good
            self.stop = true;
            return;
        };
        let after = after.unwrap_or_default();
        if after == before {
            self.count("previous_kept", 1);
            return;
        }
        let new = match &seq {
            Seq::Filter(f) => Some(plain_bytes(f)),
            _ => None,
        };
        let in_save = rep.crashed() || write_err;
        if !in_save {
            // the save itself may need memory
            let late = resource && new.as_ref().map_or(false, |n| self.in_place_save(s, &rep, &after, n));
            self.find(
                &["C09"],
                if late { "in-place-save" } else { "" },
                format!("{what} failed ({}) but changed the existing filter file ({} bytes instead of {})", rep.how(), after.len(), before.len()),
            );
            self.stop = true;
            return;
        }
        if let Some(n) = &new {
            if mask_count(&after) == mask_count(n) {
                self.count("new_complete", 1);
                // the entries are there but were not acknowledged
                if create {
                    self.acked.clear();
                }
                return;
            }
        }
        let class = if new.as_ref().map_or(false, |n| self.in_place_save(s, &rep, &after, n)) { "in-place-save" } else { "" };
        self.find(
            &["C10"],
            class,
            format!(
                "{what} {} and left a file of {} bytes that is neither the previous filter ({} bytes) nor the new one",
                if rep.crashed() { "was killed".into() } else { format!("failed while saving ({})", rep.how()) },
                after.len(),
                before.len()
            ),
        );
        self.stop = true;
    }

    /// known: the final save, after everything has been read, truncates and rewrites the file in place
    fn in_place_save(&self, s: &Step, rep: &Report, after: &[u8], new: &[u8]) -> bool {
        if rep.ev_lost {
            return false;
        }
        let (a, n) = (mask_count(after), mask_count(new));
        // a prefix of the complete new file; the count may be cut anywhere
        if a.len() > n.len() || a[..] != mask_count(&new[..a.len()])[..] {
            return false;
        }
        // emptied on opening it or afterwards
        let empties = |e: &Ev| e.op == OP_OPEN && e.arg & libc::O_TRUNC as i64 != 0 || e.op == OP_TRUNC && e.arg == 0;
        let Some(at) = rep.ev.iter().position(|e| e.path == 0 && e.res == 0 && empties(e)) else {
            return false;
        };
        let (si, inp) = self.used(&s.cmd);
        for i in inp.iter() {
            let got: i64 = rep.ev[..at].iter().filter(|e| e.op == OP_READ && e.path == *i as i32 + 1 && e.res > 0).map(|e| e.res).sum();
            if (got as usize) < self.p.files[*i].bytes().len() {
                return false;
            }
        }
        if let Some(i) = si {
            let got: i64 = rep.ev[..at].iter().filter(|e| e.op == OP_READ && e.path == P_STDIN && e.res > 0).map(|e| e.res).sum();
            if (got as usize) < self.p.files[i].bytes().len() {
                return false;
            }
        }
        !rep.ev[at..].iter().any(|e| e.op == OP_READ)
    }

    /// known: jobs check the capacity on private copies, so only several files together can exceed it unnoticed
    fn parallel_overflow(&self, s: &Step, before: Option<&[u8]>) -> bool {
        let Cmd::Insert { .. } = &s.cmd else { return false };
        let (si, inp) = self.used(&s.cmd);
        let jobs = match s.jobs {
            None => 2,
            Some(0) => s.sim.ncpu.max(1),
            Some(j) => j,
        };
        if jobs < 2 || inp.len() < 2 {
            return false;
        }
        let Some(mut base) = before.and_then(load) else { return false };
        if let Some(i) = si {
            for l in self.p.files[i].lines().unwrap_or_default() {
                if base.insert_bytes(l).is_err() {
                    return false;
                }
            }
        }
        // every file fits on its own
        inp.iter().all(|i| {
            let mut f = base.clone();
            self.p.files[*i].lines().unwrap_or_default().iter().all(|l| f.insert_bytes(l).is_ok())
        })
    }

    /// the recorded number of elements
    fn estimate(&mut self, s: &Step, what: &str, want: &BloomFilter, wr: &RefFilter, got: u64) {
        let exact = want.count_estimate();
        let (_, inp) = self.used(&s.cmd);
        let tags: &[&str] = if matches!(s.cmd, Cmd::Create { .. }) { &["C12"] } else { &["C07"] };
        if inp.len() < 2 || s.jobs == Some(1) {
            // nothing had to be merged
            if inp.len() <= 1 && got != exact {
                self.find(tags, "", format!("{what}: the filter records {got} elements instead of {exact}"));
            }
            return;
        }
        // the estimate is only good for well distributed entries below saturation
        let mut kinds_ok = true;
        for b in &self.p.files {
            if let Body::Lines { kind, .. } = b {
                kinds_ok &= *kind != 1 && *kind != 6;
            }
        }
        let cfg = Cfg { v: wr.ver, cap: wr.cap, fpp: wr.fpp.to_bits(), opt: wr.opt };
        if !kinds_ok || wr.cap < 50 || wr.fpp > 0.6 || exact > wr.cap {
            return;
        }
        let tol = count_tolerance(&cfg, exact);
        if (got as f64 - exact as f64).abs() > tol {
            self.find(tags, "", format!("{what}: the filter records {got} elements, {exact} were inserted (tolerance {tol:.0})"));
        }
    }

    fn check(&mut self, s: &Step) {
        let Cmd::Check { silent, verify, .. } = &s.cmd else { unreachable!() };
        let before = self.read();
        let rep = self.run(s, before.as_ref().map_or(0, |b| b.len()));
        if self.stuck(s, &rep) {
            return;
        }
        let what = describe(s);
        if self.read() != before {
            self.find(&["C10", "C09"], "", format!("{what} changed the filter file"));
        }
        let f = before.as_deref().and_then(load);
        let (si, inp) = self.used(&s.cmd);
        let all: Vec<usize> = si.into_iter().chain(inp).collect();
        let lines = self.lines_of(&all);
        let (mut hard, mut forever, mut output) = (false, false, false);
        for (i, n) in rep.fired.iter().enumerate() {
            let r = &s.sim.rules[i];
            if *n > 0 && !r.benign() {
                hard = true;
                if r.op == OP_WRITE {
                    output |= r.path == P_STDOUT && r.sticky;
                } else if r.op == OP_READ || r.op == OP_OPEN {
                    forever |= r.sticky;
                }
            }
        }
        if rep.crashed() {
            return;
        }
        let tags: &[&str] = if s.sim.clock.0 > 0 { &["C08", "C10", "C18"] } else { &["C08", "C10"] };
        let (Some(f), Some(lines)) = (f, lines) else {
            if rep.ok() {
                self.find(&["C08"], "", format!("{what} succeeded although the filter or an input cannot be read"));
            }
            return;
        };
        if !rep.ok() {
            if !hard {
                self.find(tags, "", format!("{what} failed ({}) although nothing was wrong", rep.how()));
                self.stop = true;
            }
            return;
        }
        if forever {
            self.find(&["C08"], "", format!("{what} succeeded although reading failed"));
        }
        let mut want: BTreeMap<Vec<u8>, i64> = BTreeMap::new();
        for l in lines {
            let ok = f.contains_bytes(&l);
            if *verify {
                if !ok {
                    *want.entry(format!("{l}: NOK").into_bytes()).or_insert(0) += 1;
                }
            } else if ok && !*silent {
                *want.entry(l.into_bytes()).or_insert(0) += 1;
            }
        }
        if output && !want.is_empty() {
            self.find(&["C08"], "", format!("{what} succeeded although its output could not be written"));
        }
        let mut got: BTreeMap<Vec<u8>, i64> = BTreeMap::new();
        let mut o = &rep.out[..];
        if o.last() == Some(&b'\n') {
            o = &o[..o.len() - 1];
        } else if !o.is_empty() {
            self.find(tags, "", format!("{what}: the last output line is cut"));
        }
        if !rep.out.is_empty() {
            for l in o.split(|c| *c == b'\n') {
                *got.entry(l.to_vec()).or_insert(0) += 1;
            }
        }
        self.count("lines_printed", got.values().sum::<i64>() as u64);
        if want != got {
            let show = |b: &Vec<u8>| String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned();
            let m = if let Some((l, n)) = want.iter().find(|(l, n)| got.get(*l) != Some(n)) {
                format!("line {:?} printed {} times instead of {}", show(l), got.get(l).unwrap_or(&0), n)
            } else {
                let (l, n) = got.iter().find(|(l, n)| want.get(*l) != Some(n)).unwrap();
                format!("line {:?} printed {} times instead of {}", show(l), n, want.get(l).unwrap_or(&0))
            };
            self.find(tags, "", format!("{what}: {m}"));
        }
        let missing = self.acked.iter().find(|e| !f.contains_bytes(e)).cloned();
        if let Some(e) = missing {
            self.find(&["C10"], "", format!("{what}: acknowledged entry {e:?} is gone"));
        }
    }

    fn show(&mut self, s: &Step) {
        let before = self.read();
        let rep = self.run(s, before.as_ref().map_or(0, |b| b.len()));
        if self.stuck(s, &rep) || rep.crashed() {
            return;
        }
        let what = describe(s);
        if self.read() != before {
            self.find(&["C10", "C09"], "", format!("{what} changed the filter file"));
        }
        let hard = rep.fired.iter().enumerate().any(|(i, n)| *n > 0 && !s.sim.rules[i].benign());
        let forever = rep.fired.iter().enumerate().any(|(i, n)| *n > 0 && !s.sim.rules[i].benign() && s.sim.rules[i].sticky && matches!(s.sim.rules[i].op, OP_READ | OP_OPEN));
        let Some(f) = before.as_deref().and_then(load) else { return };
        if !rep.ok() {
            if !hard {
                self.find(&["C14"], "", format!("{what} failed ({}) although nothing was wrong", rep.how()));
            }
            return;
        }
        if forever {
            self.find(&["C14"], "", format!("{what} succeeded although reading the filter or printing failed"));
            return;
        }
        self.shown(&what, &rep, (f.version(), f.capacity() as u64, f.count_estimate(), f.fpp()), (f.data().len() as u64, f.size_in_bytes() as u64));
    }

    /// a filter larger than memory: only its metadata can be read
    fn giant(&mut self) {
        let Init::Giant { cfg, count, data } = &self.p.init else { return };
        let z = crate::refimpl::sizing(cfg.v, cfg.cap, cfg.p(), cfg.opt);
        let mut x = RefFilter::create(cfg.v, 1, 0.5, 0);
        (x.opt, x.cap, x.fpp, x.k, x.m, x.count) = (cfg.opt, cfg.cap, cfg.p(), z.k, z.m, *count);
        (x.bits, x.cache, x.data) = (vec![], vec![], vec![]);
        let mut head = x.write();
        let f = fs::File::create(self.dest()).unwrap();
        let size = if cfg.v == 1 { z.m.div_ceil(64) * 8 } else { z.n_buckets * 4096 + z.cache_bytes + 8 };
        if f.set_len(48 + size).is_err() {
            self.count("not_judged", 1);
            return;
        }
        if cfg.v == 1 {
            f.write_all_at(&head, 0).unwrap();
        } else {
            head[40..48].copy_from_slice(&(z.cache_bytes * 8).to_le_bytes());
            f.write_all_at(&head[..48], 0).unwrap();
            f.write_all_at(&z.n_buckets.to_le_bytes(), 48 + z.cache_bytes).unwrap();
        }
        f.write_all_at(&attached(*data), 48 + size).unwrap();
        let size = if cfg.v == 1 { size } else { size - 8 };
        for s in &self.p.steps {
            let a = self.args(s);
            self.r.space = 2 << 30;
            let rep = self.r.run(&poppy(), &a, &[], &self.names, &s.sim, None, self.limits(s, *data as usize));
            self.r.space = 0;
            self.d.u64(rep.digest);
            self.path.u64(rep.digest);
            let rep = self.account(s, rep);
            let what = format!("{} (a filter of {} GiB, {})", describe(s), size >> 30, cfg.text());
            // not what was asked here
            if rep.stuck().is_some() || rep.crashed() {
                self.count("not_judged", 1);
                continue;
            }
            self.count("giants_shown", 1);
            if !rep.ok() {
                self.find(&["C14"], "", format!("{what} failed ({}) although nothing was wrong", rep.how()));
                return;
            }
            self.shown(&what, &rep, (cfg.v, cfg.cap, *count, cfg.p()), (*data as u64, size));
        }
    }

    fn shown(&mut self, what: &str, rep: &Report, f: (u8, u64, u64, f64), sizes: (u64, u64)) {
        let out = String::from_utf8_lossy(&rep.out).into_owned();
        // the values, wherever and however labelled
        let mut have: Vec<&str> = out.split_whitespace().flat_map(|w| w.split([':', '=', ','])).collect();
        for (name, v) in [
            ("version", f.0.to_string()),
            ("capacity", f.1.to_string()),
            ("element count", f.2.to_string()),
            ("false positive probability", f.3.to_string()),
        ] {
            match have.iter().position(|x| *x == v) {
                Some(i) => {
                    have.remove(i);
                }
                None => {
                    self.find(&["C14"], "", format!("{what} does not report the {name} {v}: {out:?}"));
                    return;
                }
            }
        }
        for (name, v) in [("attached data size", sizes.0), ("filter size", sizes.1)] {
            match (0..have.len()).find(|i| is_size(have[*i], have.get(i + 1).unwrap_or(&""), v as f64)) {
                Some(i) => {
                    have.remove(i);
                }
                None => {
                    self.find(&["C14"], "", format!("{what} does not report the {name} of {v} bytes: {out:?}"));
                    return;
                }
            }
        }
    }

    fn bench(&mut self, s: &Step) {
        let Cmd::Bench { stdin, file, cfg, tol, test_size, size_mb, .. } = &s.cmd else { unreachable!() };
        let before = self.read();
        let len = before.as_ref().map_or(0, |b| b.len());
        let rep = self.run(s, len);
        if self.stuck(s, &rep) || rep.crashed() {
            return;
        }
        let what = describe(s);
        if rep.sig.is_some() || rep.code == Some(101) {
            let e = String::from_utf8_lossy(&rep.err).into_owned();
            self.find(&["C18"], "", format!("{what} died: {} {}", rep.how(), e.lines().next().unwrap_or("")));
            return;
        }
        if rep.fired.iter().enumerate().any(|(i, n)| *n > 0 && !s.sim.rules[i].benign()) {
            return;
        }
        let Some(lines) = self.p.files[*stdin].lines() else { return };
        // the verdict, where it does not depend on a measured rate
        if *file {
            let Some(f) = before.as_deref().and_then(load) else {
                if rep.ok() {
                    self.find(&["C18"], "", format!("{what} succeeded without a valid filter"));
                }
                return;
            };
            if let Some(i) = lines.iter().position(|l| !f.contains_bytes(l)) {
                let m = &lines[i];
                // entries beyond the limit may be left out
                let used: usize = lines[..i].iter().collect::<BTreeSet<_>>().iter().map(|l| l.len()).sum();
                let limit = size_mb.filter(|n| *n > 0).map_or(usize::MAX, |n| (n as usize).saturating_mul(1_000_000));
                if rep.ok() && used < limit {
                    self.find(&["C18"], "", format!("{what} succeeded although the filter does not contain {m:?}"));
                }
                // and have to be, well beyond it
                let over = size_mb.filter(|n| *n > 0).map_or(false, |n| used as f64 > n as f64 * 1.1e6 + 30_000.0);
                if !rep.ok() && over && f64::from_bits(*tol) >= 1e6 {
                    self.find(&["C18"], "", format!("{what} failed ({}) although the filter holds the first {used} bytes of the dataset", rep.how()));
                }
                self.count("bench_beyond_limit", over as u64);
                return;
            }
            if let Init::Overfull { .. } = self.p.init {
                if rep.ok() && lines.len() >= 100 && test_size.map_or(true, |t| t >= 100) && f64::from_bits(*tol) <= 0.2 {
                    self.find(&["C18"], "", format!("{what} succeeded although the false positive rate is far too high"));
                    return;
                }
            }
        } else if new_filter(&Cfg { cap: lines.len() as u64, ..cfg.clone() }).is_none() {
            if rep.ok() {
                self.find(&["C18"], "", format!("{what} succeeded with invalid parameters"));
            }
            return;
        }
        if let Some(m) = self.bench_rate(s, before.as_deref(), &lines, &rep) {
            self.find(&["C18"], "", format!("{what}: {m}"));
            return;
        }
        let overfull = matches!(self.p.init, Init::Overfull { .. }) && *file;
        if !rep.ok() && f64::from_bits(*tol) >= 1e6 && !overfull {
            self.find(&["C18"], "", format!("{what} failed ({}) although the filter holds the dataset and the tolerance is huge", rep.how()));
            return;
        }
        if lines.is_empty() {
            // rates of nothing per unit of time mean nothing
            return;
        }
        // under two ordinary clocks, what does not depend on them?
        let mut reps = vec![];
        for step in [1_000, 7_777_777] {
            let mut t = s.clone();
            t.sim.clock = (0, step);
            t.sim.rules.clear();
            let r = self.run(&t, len);
            if self.stuck(&t, &r) {
                return;
            }
            reps.push(r);
        }
        let (a, b) = (&reps[0], &reps[1]);
        if a.code != b.code || a.code != rep.code {
            self.find(
                &["C18"],
                "",
                format!("{what}: {} under this clock, {} and {} under regular ones", rep.how(), a.how(), b.how()),
            );
            return;
        }
        let la: Vec<&[u8]> = a.out.split(|c| *c == b'\n').collect();
        let lb: Vec<&[u8]> = b.out.split(|c| *c == b'\n').collect();
        let lc: Vec<&[u8]> = rep.out.split(|c| *c == b'\n').collect();
        if la.len() != lb.len() || la.len() != lc.len() {
            self.find(&["C18"], "", format!("{what}: {} output lines under this clock, {} and {} under regular ones", lc.len(), la.len(), lb.len()));
            return;
        }
        let bad = (0..la.len()).find(|i| la[*i] == lb[*i] && la[*i] != lc[*i]);
        self.count("bench_lines_compared", la.len() as u64);
        if let Some(i) = bad {
            let m = format!(
                "{what}: prints {:?} instead of {:?}",
                String::from_utf8_lossy(lc[i]),
                String::from_utf8_lossy(la[i])
            );
            self.find(&["C18"], "", m);
        }
    }

    /// whether rates and verdict fit each other and the filter
    fn bench_rate(&mut self, s: &Step, before: Option<&[u8]>, lines: &[String], rep: &Report) -> Option<String> {
        let Cmd::Bench { file, cfg, tol, test_size, .. } = &s.cmd else { unreachable!() };
        let all: BTreeSet<&String> = lines.iter().collect();
        if all.iter().map(|l| l.len()).sum::<usize>() > 900_000 || rep.code.map_or(true, |c| c > 1) {
            return None;
        }
        let f = if *file {
            before.and_then(load)?
        } else {
            let mut f = new_filter(&Cfg { cap: all.len() as u64, ..*cfg })?;
            for l in &all {
                f.insert_bytes(l).ok()?;
            }
            f
        };
        let limit = f.fpp() * (1.0 + f64::from_bits(*tol));
        // the rates as printed, if they are
        let out = String::from_utf8_lossy(&rep.out).into_owned();
        let mut rates = vec![];
        let mut slack = 1e-9;
        for l in out.lines().filter_map(|l| l.trim().strip_prefix("fp rate =")) {
            let w = l.trim();
            let digits = w.find('.').map_or(0, |i| w.len() - i - 1);
            if (1..=6).contains(&digits) {
                slack += 0.1f64.powi(digits as i32) / 10.0;
            }
            rates.push(w.parse::<f64>().ok()?);
        }
        let avg = rates.iter().sum::<f64>() / rates.len().max(1) as f64;
        if rates.len() == 10 && avg.is_finite() {
            self.count("bench_rates_read", 10);
            if (avg - limit).abs() > slack && rep.ok() != (avg < limit) {
                return Some(format!("{} although the rates average {avg} and {limit} is tolerated", rep.how()));
            }
        }
        // what they should be about, for entries long enough to be altered
        let n = all.len().min(test_size.map_or(usize::MAX, |t| t as usize)) as f64;
        if n < 100.0 || all.iter().any(|l| l.len() < 16) {
            return None;
        }
        let mut x = self.p.seed;
        let hits = (0..20_000)
            .filter(|_| {
                let b: Vec<u8> = (0..4).flat_map(|_| splitmix(&mut x).to_le_bytes()).collect();
                f.contains_bytes(b)
            })
            .count();
        let q = hits as f64 / 20_000.0;
        let qq = q.max(1e-4);
        let off = 8.0 * (qq * (1.0 - q) * (0.3 / n + 1.0 / 20_000.0)).sqrt() + 8.0 / n;
        self.count("bench_rates_estimated", 1);
        if rates.len() == 10 && !((avg - q).abs() <= off) {
            return Some(format!("the rates average {avg}, for this filter they should be about {q} (tolerance {off})"));
        }
        if rep.ok() && q - off > limit || !rep.ok() && q + off < limit {
            return Some(format!("{} although the false positive rate is about {q} and {limit} is tolerated", rep.how()));
        }
        None
    }

    /// every acknowledged entry must still be reported by a check command
    fn final_check(&mut self) {
        if self.acked.is_empty() {
            return;
        }
        let Some(b) = self.read() else {
            self.find(&["C10"], "", "the filter file is gone".into());
            return;
        };
        let p = self.r.root.join("acked.txt");
        let mut t: String = self.acked.iter().cloned().collect::<Vec<_>>().join("\n");
        t.push('\n');
        fs::write(&p, t).unwrap();
        let lim = (50_000_000 + 3000 * b.len() as u64 + 100_000 * self.acked.len() as u64, 1_000_000);
        let a: Vec<String> = ["check", DEST, "acked.txt"].iter().map(|s| s.to_string()).collect();
        let rep = self.r.run(&poppy(), &a, &[], &self.names, &Sim::default(), None, lim);
        self.d.u64(rep.digest);
        self.count("processes", 1);
        self.lists.push(vec![]);
        if !rep.ok() {
            self.find(&["C10"], "", format!("after the history, a check command fails ({})", rep.how()));
            return;
        }
        let got: BTreeSet<&[u8]> = rep.out.split(|c| *c == b'\n').collect();
        let missing = self.acked.iter().find(|e| !got.contains(e.as_bytes())).cloned();
        self.count("acked_entries_checked", self.acked.len() as u64);
        if let Some(e) = missing {
            self.find(&["C10"], "", format!("after the history, acknowledged entry {:?} is not reported", e.chars().take(60).collect::<String>()));
        }
    }
}

/// whether a number, with its unit in the same word or the next, stands for so many bytes
fn is_size(word: &str, next: &str, bytes: f64) -> bool {
    let cut = word.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(word.len());
    let Ok(x) = word[..cut].parse::<f64>() else { return false };
    let digits = word[..cut].find('.').map_or(0, |i| cut - i - 1) as i32;
    let unit = if cut < word.len() { &word[cut..] } else { next };
    let unit = match unit.to_ascii_lowercase().as_str() {
        "kb" | "k" | "kib" => 1024.0,
        "mb" | "m" | "mib" => 1048576.0,
        "gb" | "g" | "gib" => 1073741824.0,
        "tb" | "t" | "tib" => 1099511627776.0,
        _ => 1.0,
    };
    // rounded or cut off after the last digit shown
    let slack = if unit > 1.0 { 10f64.powi(-digits) } else { 0.0 };
    (x - bytes / unit).abs() <= slack + 1e-9 * x
}

fn describe(s: &Step) -> String {
    let j = s.jobs.map_or(String::new(), |j| format!(" -j {j}"));
    match &s.cmd {
        Cmd::Create { cfg, dataset } => format!("create{j} ({}, {} data files)", cfg.text(), dataset.len()),
        Cmd::Insert { stdin, flag, inputs } => {
            format!("insert{j} ({} files{})", inputs.len(), if *flag || inputs.is_empty() { if stdin.is_some() { " and stdin" } else { " and empty stdin" } } else { "" })
        }
        Cmd::Check { flag, silent, verify, inputs, .. } => format!(
            "check{j}{}{}{} ({} files)",
            if *flag { " --stdin" } else { "" },
            if *silent { " --silent" } else { "" },
            if *verify { " --verify" } else { "" },
            inputs.len()
        ),
        Cmd::Show => "show".into(),
        Cmd::Bench { file, runs, .. } => format!("bench{j} ({} runs{})", runs, if *file { ", existing filter" } else { "" }),
    }
}

// ---------------------------------------------------------------- generation

fn gen_cfg(r: &mut Rng) -> Cfg {
    let v = if r.chance(1, 3) { 1 } else { 2 };
    let p = *r.pick(&[0.001, 0.01, 0.05, 0.1, 0.3, 1e-6]);
    let cap = if r.chance(1, 12) { 10_000 } else { r.logu(1, 5000) };
    Cfg { v, cap, fpp: f64::to_bits(p), opt: if v == 1 { 0 } else { r.below(4) as u8 } }
}

fn gen_sim(r: &mut Rng) -> Sim {
    Sim {
        mode: if r.chance(1, 12) { 0 } else { 1 },
        seed: r.next(),
        mean: r.logu(4, 30000),
        pio: *r.pick(&[0, 20, 100, 300, 700, 1000]),
        bias: *r.pick(&[0, 0, 10, 200]),
        lifo: r.chance(1, 2),
        ncpu: *r.pick(&[0, 1, 1, 2, 2, 3, 4, 7, 16]),
        clock: (0, 1000),
        rules: vec![],
        kill: 0,
        list: vec![],
    }
}

fn gen_lines(r: &mut Rng, max: u64) -> Body {
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        _ => r.logu(1, max),
    } as u32;
    let kind = *r.pick(&[0, 0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6]);
    let mut flags = 0;
    for f in [CRLF, NOFINAL, DUPS, BLANK] {
        if r.chance(1, 5) {
            flags |= f;
        }
    }
    if r.chance(1, 10) {
        flags |= LONG;
    }
    // overlapping ranges, so that files share entries
    Body::Lines { kind, start: *r.pick(&[0, 0, 50, 100, 1000, 5000]) + r.below(50) as u32, n, flags }
}

fn total(files: &[Body], v: &[usize]) -> u64 {
    v.iter().map(|i| files[*i].lines().map_or(0, |l| l.len() as u64)).sum()
}

fn gen_jobs(r: &mut Rng) -> Option<u64> {
    *r.pick(&[None, None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(8), Some(16), Some(33), Some(100)])
}

/// how many files, how many lines at most, how many inputs at most
fn gen_shape(r: &mut Rng, nf: u64, lines: u64, inputs: usize) -> (usize, u64, usize) {
    if r.chance(1, 16) {
        let n = r.range(15, 50);
        (n as usize, 8, 2 * n as usize)
    } else {
        (r.range(1, nf) as usize, lines, inputs)
    }
}

/// fragmentation and interruptions that must not matter
fn benign(r: &mut Rng, p: &Plan, s: &mut Step) {
    let mut v = vec![];
    let rule = |op, path, kind, every, arg| Rule { op, path, kind, nth: 0, every, sticky: false, arg };
    for i in 0..p.files.len() {
        let len = p.files[i].bytes().len() as u64;
        if r.chance(1, 3) {
            let lo = if len > 20000 { 97 } else if len > 2000 { 5 } else { 1 };
            v.push(rule(OP_READ, i as i32 + 1, K_SHORT, r.range(1, 3), r.logu(lo, 5000)));
        }
        if r.chance(1, 5) {
            v.push(rule(OP_READ, i as i32 + 1, K_ERR, r.range(2, 5), libc::EINTR as u64));
        }
    }
    let stdin_len = match &s.cmd {
        Cmd::Insert { stdin: Some(i), .. } | Cmd::Check { stdin: Some(i), .. } => p.files[*i].bytes().len(),
        _ => 0,
    };
    if stdin_len > 0 && r.chance(1, 3) {
        let lo = if stdin_len > 20000 { 97 } else if stdin_len > 2000 { 5 } else { 1 };
        v.push(rule(OP_READ, P_STDIN, K_SHORT, r.range(1, 3), r.logu(lo, 5000)));
    }
    if r.chance(1, 6) {
        v.push(rule(OP_READ, P_STDIN, K_ERR, r.range(2, 5), libc::EINTR as u64));
    }
    if r.chance(1, 5) {
        v.push(rule(OP_READ, 0, K_SHORT, r.range(1, 3), r.logu(50, 9000)));
    }
    if r.chance(1, 6) {
        v.push(rule(OP_READ, 0, K_ERR, r.range(2, 5), libc::EINTR as u64));
    }
    if r.chance(1, 5) {
        v.push(rule(OP_WRITE, 0, K_SHORT, r.range(1, 3), r.logu(50, 9000)));
    }
    if r.chance(1, 6) {
        v.push(rule(OP_WRITE, 0, K_ERR, r.range(2, 5), libc::EINTR as u64));
    }
    if r.chance(1, 4) {
        v.push(rule(OP_WRITE, P_STDOUT, K_SHORT, r.range(1, 3), r.logu(1, 60)));
    }
    if r.chance(1, 6) {
        v.push(rule(OP_WRITE, P_STDOUT, K_ERR, r.range(2, 5), libc::EINTR as u64));
    }
    if r.chance(1, 8) {
        v.push(rule(OP_OPEN, *r.pick(&[0, 1, 2]), K_ERR, r.range(2, 3), libc::EINTR as u64));
    }
    s.sim.rules.extend(v);
}

fn init_filter(r: &mut Rng, room: u64) -> Init {
    let mut cfg = gen_cfg(r);
    let have = if r.chance(1, 4) { 0 } else { r.logu(1, 400) };
    // room for all of it, with a margin
    cfg.cap = have + room + room / 8 + 20 + r.logu(1, 3000);
    let data = if r.chance(1, 4) { r.logu(1, 20000) as u32 } else { 0 };
    Init::Filter { cfg, kind: *r.pick(&[0, 0, 2, 3]), start: *r.pick(&[0, 20, 7000]), n: have as u32, data }
}

fn step(cmd: Cmd, jobs: Option<u64>, sim: Sim) -> Step {
    Step { cmd, jobs, verbose: false, style: 0, sim }
}

fn pick_files(r: &mut Rng, n: usize, max: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let k = r.usize(max + 1);
    let mut v: Vec<usize> = (0..k).map(|_| r.usize(n)).collect();
    if r.chance(3, 4) {
        // mostly each once
        v.sort();
        v.dedup();
        r.shuffle(&mut v);
    }
    v
}

const HARD: [i32; 4] = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::ENOMEM];

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(mix(&[seed, 0xC11]));
    let r = &mut r;
    let mut p = Plan { prop: prop.into(), seed, init: Init::None, files: vec![], steps: vec![] };
    match prop {
        "C07" => gen_insert(r, &mut p),
        "C08" => gen_check(r, &mut p),
        "C09" => gen_failing(r, &mut p),
        "C10" => gen_history(r, &mut p),
        "C11" => gen_any(r, &mut p),
        "C12" => gen_create(r, &mut p),
        "C14" => gen_show(r, &mut p),
        "C18" => gen_clock(r, &mut p),
        "C03" => gen_save_fails(r, &mut p),
        "C05" => gen_capacity(r, &mut p),
        "C04" => gen_damaged(r, &mut p),
        "C26" => gen_large(r, &mut p),
        "C27" => gen_overlap(r, &mut p),
        "C24" if r.chance(1, 3) => gen_history(r, &mut p),
        "C24" => gen_any(r, &mut p),
        _ => panic!("no process histories for {prop}"),
    }
    for s in p.steps.iter_mut() {
        s.verbose = r.chance(1, 10);
        s.style = r.below(16) as u8;
    }
    p
}

fn insert_cmd(r: &mut Rng, files: usize, max: usize) -> Cmd {
    let inputs = pick_files(r, files, max);
    let stdin = if r.chance(1, 2) && files > 0 { Some(r.usize(files)) } else { None };
    let flag = stdin.is_some() && r.chance(2, 3);
    Cmd::Insert { stdin, flag, inputs }
}

fn used_lines(p: &Plan, c: &Cmd) -> u64 {
    match c {
        Cmd::Create { dataset, .. } => total(&p.files, dataset),
        Cmd::Insert { stdin, inputs, .. } => total(&p.files, inputs) + stdin.map_or(0, |i| total(&p.files, &[i])),
        _ => 0,
    }
}

fn gen_insert(r: &mut Rng, p: &mut Plan) {
    let max = if r.chance(1, 4) { 600 } else { 80 };
    let (nf, max, most) = gen_shape(r, 10, max, 12);
    for _ in 0..nf {
        p.files.push(gen_lines(r, max));
    }
    let n = if r.chance(1, 4) { 2 } else { 1 };
    let cmds: Vec<Cmd> = (0..n).map(|_| insert_cmd(r, nf, most)).collect();
    let room = cmds.iter().map(|c| used_lines(p, c)).sum();
    p.init = init_filter(r, room);
    if n == 1 && r.chance(1, 5) {
        // it just fits
        let mut all = BTreeSet::new();
        if let Cmd::Insert { stdin, inputs, .. } = &cmds[0] {
            for i in inputs.iter().chain(stdin) {
                all.extend(p.files[*i].lines().unwrap_or_default());
            }
        }
        if let Init::Filter { cfg, n, .. } = &mut p.init {
            cfg.cap = (*n as u64 + all.len() as u64).max(1);
        }
    }
    for c in cmds {
        let mut s = step(c, gen_jobs(r), gen_sim(r));
        if r.chance(1, 2) {
            benign(r, p, &mut s);
        }
        p.steps.push(s);
    }
}

/// filters much larger than what is read from the files, and many files
fn gen_large(r: &mut Rng, p: &mut Plan) {
    let nf = if r.chance(1, 4) { r.range(1, 8) } else { r.range(6, 40) } as usize;
    for _ in 0..nf {
        p.files.push(gen_lines(r, 6));
        if let Some(Body::Lines { flags, .. }) = p.files.last_mut() {
            *flags &= !LONG;
        }
    }
    let mut cfg = gen_cfg(r);
    let bits = r.logu(2_000_000, 8_000_000) as f64;
    cfg.cap = (bits * 0.48 / -cfg.p().ln()) as u64;
    let inputs = pick_files(r, nf, 2 * nf);
    let jobs = *r.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(8), Some(12)]);
    let stdin = if r.chance(1, 3) { Some(r.usize(nf)) } else { None };
    let flag = stdin.is_some() && r.chance(2, 3);
    let n = r.below(50) as u32;
    p.init = Init::Filter { cfg, kind: 0, start: 0, n, data: 0 };
    let cmd = match r.below(8) {
        0 => Cmd::Show,
        1..=3 => Cmd::Check { stdin, flag, silent: false, verify: r.chance(1, 3), inputs },
        4 => {
            // the capacity is the number of lines, so the probability makes it large
            p.init = Init::None;
            cfg.fpp = f64::to_bits(*r.pick(&[1e-300, f64::MIN_POSITIVE]));
            Cmd::Create { cfg, dataset: inputs }
        }
        _ => Cmd::Insert { stdin, flag, inputs },
    };
    let mut s = step(cmd, jobs, gen_sim(r));
    s.sim.mean = r.logu(200, 100_000);
    if r.chance(1, 3) {
        benign(r, p, &mut s);
    }
    p.steps.push(s);
}

/// two commands at the same time
fn gen_overlap(r: &mut Rng, p: &mut Plan) {
    for _ in 0..4 {
        p.files.push(gen_lines(r, 80));
    }
    let mut cfg = gen_cfg(r);
    let n = r.logu(20, 2000);
    let bits = r.logu(60_000, 1_500_000) as f64;
    let pr = *r.pick(&[0.1, 0.01, 0.001, 1e-6]);
    cfg.fpp = f64::to_bits(pr);
    cfg.cap = ((bits * 0.48 / -pr.ln()) as u64).max(n + 1000);
    p.init = Init::Filter { cfg, kind: 0, start: 0, n: n as u32, data: if r.chance(1, 3) { r.logu(1, 30_000) as u32 } else { 0 } };
    // what is there, what is being inserted, and neither
    p.files.push(Body::Lines { kind: 0, start: 0, n: n.min(300) as u32, flags: 0 });
    let mut w = step(Cmd::Insert { stdin: None, flag: false, inputs: pick_files(r, 4, 3).into_iter().chain([0]).collect() }, gen_jobs(r), gen_sim(r));
    w.sim.rules.clear();
    let mut c = step(Cmd::Check { stdin: None, flag: false, silent: false, verify: r.chance(1, 3), inputs: vec![4, r.usize(4)] }, gen_jobs(r), gen_sim(r));
    let mut at = 0;
    let mut nth = 0;
    for i in 0..r.range(1, 4) {
        at += r.below(65536 - at);
        if i == 0 && r.chance(1, 5) {
            c.sim.rules.push(Rule { op: OP_OPEN, path: 0, kind: K_SWAP, nth: 1, every: 0, sticky: false, arg: at });
            continue;
        }
        nth += r.logu(1, 12);
        c.sim.rules.push(Rule { op: OP_READ, path: 0, kind: K_SWAP, nth, every: 0, sticky: false, arg: at });
    }
    if r.chance(1, 2) {
        c.sim.rules.push(Rule { op: OP_READ, path: 0, kind: K_SHORT, nth: 0, every: r.range(1, 3), sticky: false, arg: r.logu(500, 8000) });
    }
    p.steps.push(w);
    p.steps.push(c);
}

fn check_cmd(r: &mut Rng, files: usize, max: usize) -> Cmd {
    let inputs = pick_files(r, files, max);
    let stdin = if r.chance(1, 2) && files > 0 { Some(r.usize(files)) } else { None };
    let flag = stdin.is_some() && r.chance(2, 3);
    Cmd::Check { stdin, flag, silent: r.chance(1, 8), verify: r.chance(1, 3), inputs }
}

fn gen_check(r: &mut Rng, p: &mut Plan) {
    let max = if r.chance(1, 5) { 400 } else { 50 };
    let (nf, max, most) = gen_shape(r, 8, max, 12);
    for _ in 0..nf {
        p.files.push(gen_lines(r, max));
    }
    let mut cfg = gen_cfg(r);
    let n = r.logu(1, 600);
    cfg.cap = n + r.logu(1, 1000);
    p.init = Init::Filter { cfg, kind: *r.pick(&[0, 0, 2, 3, 4]), start: *r.pick(&[0, 10, 60, 1000]), n: n as u32, data: 0 };
    let c = check_cmd(r, nf, most);
    let mut s = step(c, gen_jobs(r), gen_sim(r));
    if r.chance(2, 3) {
        benign(r, p, &mut s);
    }
    if r.chance(1, 4) {
        // inputs that fail, output that fails
        match r.below(4) {
            0 => {
                let i = r.usize(nf);
                p.files[i] = match r.below(3) {
                    0 => Body::Missing,
                    1 => Body::Dir,
                    _ => Body::Undecodable { kind: 0, start: 0, n: r.range(1, 60) as u32, at: 0 },
                };
                if let Body::Undecodable { n, at, .. } = &mut p.files[i] {
                    *at = r.below(*n as u64) as u32;
                }
            }
            1 => s.sim.rules.push(Rule {
                op: OP_WRITE,
                path: P_STDOUT,
                kind: K_ERR,
                nth: r.logu(1, 60),
                every: 0,
                sticky: r.chance(4, 5),
                arg: *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]) as u64,
            }),
            2 => {
                let any = r.range(1, nf as u64) as i32;
                let path = *r.pick(&[0, P_STDIN, any]);
                s.sim.rules.push(Rule { op: OP_READ, path, kind: K_ERR, nth: r.logu(1, 12), every: 0, sticky: r.chance(4, 5), arg: libc::EIO as u64 })
            }
            _ => s.sim.rules.push(Rule { op: OP_OPEN, path: r.range(0, nf as u64) as i32, kind: K_ERR, nth: 1, every: 0, sticky: true, arg: *r.pick(&HARD) as u64 }),
        }
        // failing rules first, so that fragmentation does not hide them
        if !s.sim.rules.is_empty() {
            s.sim.rules.rotate_right(1);
        }
    }
    p.steps.push(s);
}

fn gen_create(r: &mut Rng, p: &mut Plan) {
    let max = if r.chance(1, 4) { 600 } else { 80 };
    let (nf, max, most) = gen_shape(r, 10, max, 12);
    for _ in 0..nf {
        p.files.push(gen_lines(r, max));
    }
    if r.chance(1, 3) {
        let cfg = gen_cfg(r);
        let n = r.below(cfg.cap + 1).min(200) as u32;
        p.init = Init::Filter { cfg, kind: 0, start: 0, n, data: 0 };
    }
    let mut cfg = gen_cfg(r);
    if r.chance(1, 30) {
        cfg.cap = 0;
    }
    let dataset = pick_files(r, nf, most);
    let mut s = step(Cmd::Create { cfg, dataset }, gen_jobs(r), gen_sim(r));
    if r.chance(1, 2) {
        benign(r, p, &mut s);
    }
    p.steps.push(s);
    if r.chance(1, 5) {
        let c = Cmd::Check { stdin: None, flag: false, silent: false, verify: false, inputs: pick_files(r, nf, 4) };
        p.steps.push(step(c, gen_jobs(r), gen_sim(r)));
    }
}

/// an input, parameter or resource problem in one command
fn gen_failing(r: &mut Rng, p: &mut Plan) {
    let nf = r.range(1, 8) as usize;
    for _ in 0..nf {
        p.files.push(gen_lines(r, 60));
    }
    let create = r.chance(1, 2);
    let mut inputs = pick_files(r, nf, 8);
    if inputs.is_empty() {
        inputs.push(r.usize(nf));
    }
    let mut stdin = if !create && r.chance(1, 3) { Some(r.usize(nf)) } else { None };
    let mut cfg = gen_cfg(r);
    let room = total(&p.files, &inputs) + stdin.map_or(0, |i| total(&p.files, &[i]));
    p.init = init_filter(r, room);
    let mut sim = gen_sim(r);
    let mut jobs = gen_jobs(r);
    // one of the inputs, so that it is sure to be used
    let i = *r.pick(&inputs);
    let path = if stdin.is_some() && r.chance(1, 3) { P_STDIN } else { i as i32 + 1 };
    let size = p.files[i].bytes().len() as u64;
    match r.below(12) {
        0 => p.files[i] = Body::Missing,
        1 => p.files[i] = Body::Dir,
        2 => {
            let n = r.range(1, 80) as u32;
            p.files[i] = Body::Undecodable { kind: *r.pick(&[0, 2, 3]), start: 0, n, at: r.below(n as u64) as u32 }
        }
        3 | 4 => {
            // a read fails after some fragments
            let chunk = r.logu(1 + size / 50, 200 + size);
            let code = *r.pick(&[libc::EIO, libc::EISDIR, libc::ENOMEM, libc::EAGAIN]);
            // what could be there later is tried again by some
            let sticky = code == libc::EAGAIN || r.chance(4, 5);
            sim.rules.push(Rule { op: OP_READ, path, kind: K_ERR, nth: r.range(1, 2 * (size / chunk + 2)), every: 0, sticky, arg: code as u64 });
            sim.rules.push(Rule { op: OP_READ, path, kind: K_SHORT, nth: 0, every: 1, sticky: false, arg: chunk });
        }
        5 => sim.rules.push(Rule { op: OP_OPEN, path: i as i32 + 1, kind: K_ERR, nth: if create { r.range(1, 2) } else { 1 }, every: 0, sticky: r.chance(4, 5), arg: *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT]) as u64 }),
        6 => {
            // exceeding the capacity with a single input
            if create {
                cfg = Cfg { v: *r.pick(&[0, 3, 77]), ..cfg }
            } else {
                let n = r.range(30, 300) as u32;
                p.files[i] = Body::Lines { kind: 0, start: 20000, n, flags: 0 };
                inputs = vec![i];
                if r.chance(1, 3) {
                    // standard input comes first
                    stdin = Some(i);
                    inputs = pick_files(r, nf, 3);
                } else if r.chance(1, 2) {
                    jobs = Some(1);
                    inputs = (0..nf).filter(|j| *j != i).collect();
                    inputs.push(i);
                    r.shuffle(&mut inputs);
                }
                let Init::Filter { cfg: c, n: have, .. } = &mut p.init else { unreachable!() };
                *have = (*have).min(100);
                c.cap = *have as u64 + r.below(n as u64 / 2) + 1;
                c.fpp = f64::to_bits(*r.pick(&[0.001, 0.01, 1e-6]));
            }
        }
        7 => {
            if create {
                match r.below(3) {
                    0 => cfg.fpp = f64::to_bits(*r.pick(&[0.0, -1.0, 1.5, f64::NAN, f64::INFINITY, 1e-320])),
                    1 => cfg.opt = *r.pick(&[4, 9, 255]),
                    _ => cfg.v = *r.pick(&[0, 3, 255]),
                }
                if cfg.v == 1 && cfg.opt > 3 {
                    // the level is refused whatever the version
                }
            } else {
                p.init = match r.below(4) {
                    0 => Init::None,
                    1 => Init::Garbage { len: r.logu(1, 9000) as u32, seed: r.next() },
                    2 => Init::Text { kind: 0, start: 0, n: r.range(1, 200) as u32 },
                    _ => Init::Cut { cfg: gen_cfg(r), n: 10, frac: r.below(65536) as u32 },
                };
            }
        }
        8 => sim.rules.push(Rule { op: OP_THREAD, path: 0, kind: K_ERR, nth: r.range(1, 2 * inputs.len() as u64), every: 0, sticky: r.chance(1, 2), arg: libc::EAGAIN as u64 }),
        9 => sim.rules.push(Rule { op: OP_ALLOC, path: 0, kind: K_ERR, nth: r.logu(1, 40), every: 0, sticky: r.chance(1, 2), arg: *r.pick(&[1024, 4000, 8000, 30000]) }),
        10 => {
            // the filter itself cannot be read
            if create && r.chance(1, 2) {
                p.init = match r.below(4) {
                    0 => Init::Garbage { len: r.logu(1, 9000) as u32, seed: r.next() },
                    1 => Init::Text { kind: 0, start: 0, n: r.range(1, 200) as u32 },
                    2 => Init::Empty,
                    _ => Init::Cut { cfg: gen_cfg(r), n: 10, frac: r.below(65536) as u32 },
                };
            } else {
                let op = *r.pick(&[OP_READ, OP_READ, OP_OPEN]);
                sim.rules.push(Rule { op, path: 0, kind: K_ERR, nth: if op == OP_OPEN { 1 } else { r.logu(1, 4) }, every: 0, sticky: true, arg: libc::EIO as u64 });
            }
        }
        _ => {
            // the destination cannot be opened for writing
            sim.rules.push(Rule { op: OP_CREAT, path: 0, kind: K_ERR, nth: 1, every: 0, sticky: true, arg: *r.pick(&[libc::EACCES, libc::EROFS, libc::ENOSPC, libc::EMFILE]) as u64 })
        }
    }
    let cmd = if create {
        Cmd::Create { cfg, dataset: inputs }
    } else {
        Cmd::Insert { stdin, flag: stdin.is_some(), inputs }
    };
    p.steps.push(step(cmd, jobs, sim));
}

fn gen_save_fails(r: &mut Rng, p: &mut Plan) {
    let nf = r.range(1, 4) as usize;
    for _ in 0..nf {
        p.files.push(gen_lines(r, 60));
    }
    let create = r.chance(1, 2);
    let cmd = if create {
        let dataset = if r.chance(1, 2) { vec![] } else { pick_files(r, nf, 4) };
        if r.chance(1, 2) {
            p.init = init_filter(r, 10);
        }
        Cmd::Create { cfg: gen_cfg(r), dataset }
    } else {
        let c = insert_cmd(r, nf, 4);
        let room = used_lines(p, &c);
        p.init = init_filter(r, room);
        c
    };
    let mut sim = gen_sim(r);
    let path = *r.pick(&[0, P_ANY]);
    // how long the new file will be, roughly
    let len = match (&cmd, &p.init) {
        (Cmd::Create { cfg, dataset }, _) => {
            let cap = if dataset.is_empty() { cfg.cap } else { total(&p.files, dataset) };
            let z = crate::refimpl::sizing(cfg.v, cap, cfg.p(), cfg.opt);
            48 + z.n_buckets * 4096 + z.cache_bytes + z.m / 8
        }
        (_, i) => i.bytes().map_or(100, |b| b.len() as u64),
    };
    match r.below(9) {
        0 | 1 => {
            let left = if r.chance(1, 3) { len - r.below(len.min(100)) - 1 } else { r.below(len) };
            sim.rules.push(Rule { op: OP_WRITE, path: P_ANY, kind: K_BUDGET, nth: 0, every: 0, sticky: true, arg: left })
        }
        2 | 3 => sim.rules.push(Rule { op: OP_WRITE, path, kind: K_ERR, nth: r.range(1, len / 8192 + 2), every: 0, sticky: true, arg: *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]) as u64 }),
        4 | 5 => {
            let chunk = r.logu(1 + len / 100, len);
            sim.rules.push(Rule { op: OP_WRITE, path, kind: K_ERR, nth: r.range(1, len / chunk + 1), every: 0, sticky: r.chance(4, 5), arg: *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]) as u64 });
            sim.rules.push(Rule { op: OP_WRITE, path, kind: K_SHORT, nth: 0, every: 1, sticky: false, arg: chunk });
        }
        6 => sim.rules.push(Rule { op: *r.pick(&[OP_RENAME, OP_SYNC, OP_TRUNC]), path: P_ANY, kind: K_ERR, nth: r.range(1, 2), every: 0, sticky: r.chance(1, 2), arg: *r.pick(&[libc::EIO, libc::ENOSPC]) as u64 }),
        _ => sim.rules.push(Rule { op: OP_CREAT, path, kind: K_ERR, nth: 1, every: 0, sticky: true, arg: *r.pick(&[libc::EACCES, libc::EROFS, libc::ENOSPC]) as u64 }),
    }
    p.steps.push(step(cmd, gen_jobs(r), sim));
}

fn gen_capacity(r: &mut Rng, p: &mut Plan) {
    let nf = r.range(1, 5) as usize;
    for i in 0..nf {
        p.files.push(Body::Lines { kind: *r.pick(&[0, 2, 3]), start: 1000 * i as u32 + r.below(30) as u32, n: r.range(1, 120) as u32, flags: *r.pick(&[0, 0, DUPS]) });
    }
    let mut inputs: Vec<usize> = (0..nf).collect();
    r.shuffle(&mut inputs);
    let stdin = if r.chance(1, 2) { Some(r.usize(nf)) } else { None };
    if let Some(i) = stdin {
        // the same lines again in a file, elsewhere, or nothing else at all
        match r.below(3) {
            0 => {}
            1 => inputs.retain(|j| *j != i),
            _ => inputs.clear(),
        }
    }
    let all = total(&p.files, &inputs) + stdin.map_or(0, |i| total(&p.files, &[i]));
    let mut cfg = gen_cfg(r);
    cfg.fpp = f64::to_bits(*r.pick(&[0.001, 0.01, 1e-6]));
    let have = if r.chance(1, 3) { 0 } else { r.range(1, 200) };
    let jobs;
    if r.chance(1, 2) {
        // one batch: the limit is exact
        jobs = Some(1);
        cfg.cap = have + r.range(all / 2, all + all / 2 + 1);
    } else {
        jobs = gen_jobs(r);
        cfg.cap = if r.chance(1, 2) { have + r.range(1, all / 2 + 1) } else { have + all + all / 8 + 20 };
    }
    cfg.cap = cfg.cap.max(1);
    p.init = Init::Filter { cfg, kind: 0, start: 90000, n: have as u32, data: 0 };
    p.steps.push(step(Cmd::Insert { stdin, flag: stdin.is_some(), inputs }, jobs, gen_sim(r)));
}

fn gen_show(r: &mut Rng, p: &mut Plan) {
    let mut cfg = gen_cfg(r);
    cfg.cap = r.logu(1, 20000);
    let n = r.below(cfg.cap + 1).min(2000) as u32;
    p.init = Init::Filter { cfg, kind: 0, start: 0, n, data: if r.chance(1, 2) { r.logu(1, 3_000_000) as u32 } else { 0 } };
    let mut sim = gen_sim(r);
    if r.chance(1, 3) {
        sim.rules.push(Rule { op: *r.pick(&[OP_READ, OP_READ, OP_SEEK, OP_OPEN]), path: 0, kind: K_ERR, nth: r.range(1, 4), every: 0, sticky: true, arg: libc::EIO as u64 });
    }
    if r.chance(1, 2) {
        sim.rules.push(Rule { op: OP_READ, path: 0, kind: K_SHORT, nth: 0, every: 1, sticky: false, arg: r.logu(200, 9000) });
    }
    if r.chance(1, 4) {
        sim.rules.push(Rule { op: OP_READ, path: 0, kind: K_ERR, nth: 0, every: r.range(2, 5), sticky: false, arg: libc::EINTR as u64 });
    }
    if r.chance(1, 60) {
        cfg.cap = (r.logu(1 << 27, 1 << 46) as f64 * 8.0 * 0.48 / -cfg.p().ln()) as u64;
        p.init = Init::Giant { cfg, count: r.logu(1, cfg.cap), data: if r.chance(1, 2) { r.logu(1, 100_000) as u32 } else { 0 } };
        sim.rules.retain(|x| x.benign());
    }
    p.steps.push(step(Cmd::Show, None, sim));
}

fn gen_damaged(r: &mut Rng, p: &mut Plan) {
    p.files.push(Body::Lines { kind: 0, start: 0, n: r.logu(1, 60) as u32, flags: 0 });
    p.files.push(Body::Lines { kind: 2, start: 0, n: r.below(20) as u32, flags: 0 });
    let mut cfg = gen_cfg(r);
    let n = r.below(cfg.cap.min(300) + 1) as u32;
    let data = if r.chance(1, 3) { r.logu(1, 5000) as u32 } else { 0 };
    let z = crate::refimpl::sizing(cfg.v, cfg.cap, cfg.p(), cfg.opt);
    let len = 48 + if cfg.v == 1 { z.m.div_ceil(64) * 8 } else { 8 + z.cache_bytes + z.n_buckets * 4096 } + data as u64;
    let mut cmd = match r.below(8) {
        0 | 1 => Cmd::Show,
        2 | 3 => Cmd::Check { stdin: r.chance(1, 2).then_some(0), flag: r.chance(1, 2), silent: r.chance(1, 4), verify: r.chance(1, 4), inputs: pick_files(r, 2, 3) },
        4 | 5 => insert_cmd(r, 2, 3),
        6 => Cmd::Create { cfg: gen_cfg(r), dataset: pick_files(r, 2, 3) },
        _ => Cmd::Bench { stdin: 0, file: true, cfg, runs: 1, tol: f64::to_bits(0.2), test_size: None, size_mb: None },
    };
    let mut sim = gen_sim(r);
    match r.below(8) {
        0 => p.init = Init::Garbage { len: r.logu(1, 9000) as u32, seed: r.next() },
        1 => p.init = if r.chance(1, 2) { Init::Empty } else { Init::Text { kind: 0, start: 0, n: r.range(1, 200) as u32 } },
        2 => {
            cfg.cap = cfg.cap.max(1);
            p.init = Init::Filter { cfg, kind: 0, start: 0, n, data };
            sim.rules.push(Rule { op: *r.pick(&[OP_READ, OP_READ, OP_OPEN]), path: 0, kind: K_ERR, nth: 1, every: 0, sticky: true, arg: libc::EIO as u64 });
        }
        _ => {
            let d = crate::gen::damage(r, &cfg, len);
            // with any number of hash functions a query takes as long as it takes
            let hashes = match &d {
                Damage::Patch(at, x) => *at < 32 && *at + x.len() as u64 > 24,
                Damage::Flip(at, _) => (24..32).contains(at),
                Damage::Replace(_) => true,
                Damage::Truncate(_) => false,
            };
            p.init = Init::Damaged { cfg, n, data, d };
            if hashes && impossible(&p.init.bytes().unwrap_or_default(), false).is_none() {
                cmd = Cmd::Show;
            }
        }
    }
    let len = p.init.bytes().map_or(0, |b| b.len()) as u64;
    sim.rules.push(Rule { op: OP_READ, path: 0, kind: K_SHORT, nth: 0, every: r.range(1, 3), sticky: false, arg: r.logu(1 + len / 200, 9000) });
    if r.chance(1, 5) {
        sim.rules.push(Rule { op: OP_READ, path: 0, kind: K_ERR, nth: 0, every: r.range(2, 5), sticky: false, arg: libc::EINTR as u64 });
    }
    if !matches!(cmd, Cmd::Create { .. }) {
        // no memory for sizes that are only claimed
        sim.rules.push(Rule { op: OP_ALLOC, path: 0, kind: K_ERR, nth: 1, every: 0, sticky: true, arg: (4 << 20) + 8 * len });
    }
    p.steps.push(step(cmd, gen_jobs(r), sim));
}

fn gen_clock(r: &mut Rng, p: &mut Plan) {
    let mut sim = gen_sim(r);
    sim.clock = (r.range(1, 4), 0);
    if r.chance(1, 4) {
        gen_check(r, p);
        p.steps[0].sim.clock = sim.clock;
        return;
    }
    let n = match r.below(8) {
        0 => r.below(3),
        1 => r.range(100, 1500),
        _ => r.logu(1, 600),
    } as u32;
    let kind = *r.pick(&[0, 0, 2]);
    p.files.push(Body::Lines { kind, start: 0, n, flags: *r.pick(&[0, DUPS, BLANK]) });
    let mut cfg = gen_cfg(r);
    cfg.cap = n as u64 + 20;
    let file = r.chance(1, 2);
    if file {
        match r.below(3) {
            0 => {
                cfg.cap = cfg.cap.max(150);
                cfg.fpp = f64::to_bits(*r.pick(&[0.001, 0.01]));
                if cfg.v == 2 {
                    // a bucket holds many more than a small capacity
                    cfg.cap = cfg.cap.max(3000);
                }
                p.init = Init::Overfull { cfg: cfg.clone(), kind, parts: 8 };
                p.files[0] = Body::Lines { kind, start: 0, n: r.range(150, 600) as u32, flags: 0 };
            }
            1 => p.init = Init::Filter { cfg: cfg.clone(), kind, start: 0, n: n / 2, data: 0 },
            _ => {
                cfg.cap += n as u64;
                p.init = Init::Filter { cfg: cfg.clone(), kind, start: 0, n: n * 2, data: 0 };
                if let Body::Lines { flags, .. } = &mut p.files[0] {
                    *flags &= !BLANK;
                }
            }
        }
    }
    let mut tol = *r.pick(&[0.2, 0.2, 1e6, 1e6, 1e6, -1.0, -0.5, 0.0, 5.0]);
    let test_size = if r.chance(1, 3) { Some(r.logu(1, 400) as u32) } else { None };
    let mut size_mb = *r.pick(&[None, None, None, Some(0), Some(1), Some(1 << 50)]);
    let mut runs = r.range(1, 3) as u32;
    if r.chance(1, 30) {
        // enough for the limit to matter
        if let Body::Lines { n, flags, .. } = &mut p.files[0] {
            *n = (*n).max(500);
            *flags |= LONG;
        }
        size_mb = Some(1);
        runs = 1;
        if file && r.chance(2, 3) {
            if let Body::Lines { n, flags, .. } = &mut p.files[0] {
                let (all, k) = *r.pick(&[(700, 550), (1300, 1000)]);
                *n = all;
                *flags = LONG;
                tol = 1e6;
                cfg.cap = 1500;
                p.init = Init::Lines { cfg, kind, flags: *flags, n: k + r.below(70) as u32 };
            }
        }
    }
    p.steps.push(step(Cmd::Bench { stdin: 0, file, cfg, runs, tol: f64::to_bits(tol), test_size, size_mb }, gen_jobs(r), sim));
}

/// acknowledged entries over several commands, some of them killed or failing
fn gen_history(r: &mut Rng, p: &mut Plan) {
    let nf = r.range(2, 7) as usize;
    for _ in 0..nf {
        p.files.push(gen_lines(r, 60));
    }
    let n = r.range(1, 5) as usize;
    let mut room = 0;
    let mut cmds = vec![];
    for i in 0..n {
        let c = match r.below(10) {
            0 => check_cmd(r, nf, 5),
            1 => Cmd::Show,
            2 | 3 if i == 0 || r.chance(1, 3) => Cmd::Create { cfg: gen_cfg(r), dataset: pick_files(r, nf, 5) },
            _ => insert_cmd(r, nf, 6),
        };
        room += used_lines(p, &c);
        cmds.push(c);
    }
    p.init = init_filter(r, room);
    // capacities of created filters must leave room too
    for c in cmds.iter_mut() {
        if let Cmd::Create { cfg, dataset } = c {
            if dataset.is_empty() {
                cfg.cap += room + room / 8 + 20;
            }
        }
    }
    let last = cmds.len() - 1;
    for (i, c) in cmds.into_iter().enumerate() {
        let mut s = step(c, gen_jobs(r), gen_sim(r));
        if r.chance(if i == last { 3 } else { 1 }, 4) {
            let upd = matches!(s.cmd, Cmd::Create { .. } | Cmd::Insert { .. });
            match r.below(8) {
                0..=2 => s.sim.kill = r.logu(1, 80),
                3 => s.sim.rules.push(Rule { op: OP_READ, path: *r.pick(&[0, 1, 2, P_STDIN, P_ANY]), kind: *r.pick(&[K_CRASH, K_CRASHAFTER]), nth: r.logu(1, 12), every: 0, sticky: false, arg: 0 }),
                4 | 5 if upd => s.sim.rules.push(Rule { op: OP_WRITE, path: P_ANY, kind: *r.pick(&[K_CRASH, K_TORN, K_CRASHAFTER]), nth: r.logu(1, 4), every: 0, sticky: false, arg: r.logu(1, 9000) }),
                6 if upd => s.sim.rules.push(Rule { op: *r.pick(&[OP_OPEN, OP_CREAT, OP_CLOSE]), path: *r.pick(&[0, P_ANY]), kind: *r.pick(&[K_CRASH, K_CRASHAFTER]), nth: r.logu(1, 6), every: 0, sticky: false, arg: 0 }),
                7 if upd => s.sim.rules.push(Rule { op: OP_WRITE, path: P_ANY, kind: K_BUDGET, nth: 0, every: 0, sticky: true, arg: r.logu(1, 30000) }),
                _ => {
                    let i = r.usize(nf);
                    s.sim.rules.push(Rule { op: *r.pick(&[OP_READ, OP_OPEN]), path: i as i32 + 1, kind: K_ERR, nth: 1, every: 0, sticky: true, arg: libc::EIO as u64 })
                }
            }
        }
        p.steps.push(s);
    }
}

/// anything at all; it only has to end
fn gen_any(r: &mut Rng, p: &mut Plan) {
    let (nf, max, most) = gen_shape(r, 8, 100, 8);
    let bad = if most > 8 { 100 } else { 8 };
    for _ in 0..nf {
        let b = match r.below(bad) {
            0 => Body::Dir,
            1 => Body::Missing,
            2 => Body::Undecodable { kind: 0, start: 0, n: r.range(1, 40) as u32, at: 0 },
            _ => gen_lines(r, max),
        };
        p.files.push(b);
    }
    p.init = match r.below(10) {
        0 => Init::None,
        1 => Init::Garbage { len: r.logu(1, 5000) as u32, seed: r.next() },
        2 => Init::Cut { cfg: gen_cfg(r), n: 10, frac: r.below(65536) as u32 },
        3 => Init::Empty,
        _ => init_filter(r, 2000),
    };
    let cmd = match r.below(10) {
        0..=2 => Cmd::Create { cfg: gen_cfg(r), dataset: pick_files(r, nf, most) },
        3..=5 => insert_cmd(r, nf, most),
        6..=7 => check_cmd(r, nf, most),
        8 => Cmd::Show,
        _ => Cmd::Bench { stdin: r.usize(nf), file: r.chance(1, 2), cfg: gen_cfg(r), runs: r.range(1, 2) as u32, tol: f64::to_bits(0.2), test_size: None, size_mb: None },
    };
    let mut s = step(cmd, gen_jobs(r), gen_sim(r));
    if r.chance(1, 4) {
        s.sim.clock = (r.range(1, 4), 0);
    }
    if r.chance(1, 3) {
        benign(r, p, &mut s);
    }
    for _ in 0..r.below(3) {
        let mut path = *r.pick(&[0, 1, 2, 3, P_ANY, P_STDIN, P_STDOUT]);
        let reads_stdin = match &s.cmd {
            Cmd::Insert { stdin, .. } | Cmd::Check { stdin, .. } => stdin.is_some(),
            Cmd::Bench { .. } => true,
            _ => false,
        };
        if reads_stdin && r.chance(1, 3) {
            path = P_STDIN;
        }
        let op = *r.pick(&[OP_OPEN, OP_READ, OP_READ, OP_READ, OP_WRITE, OP_CREAT, OP_SEEK, OP_THREAD, OP_ALLOC]);
        let arg = match op {
            OP_THREAD => libc::EAGAIN as u64,
            OP_ALLOC => 2000,
            // nothing to read for now, for ever
            OP_READ if r.chance(1, 4) => libc::EAGAIN as u64,
            _ => *r.pick(&HARD) as u64,
        };
        s.sim.rules.insert(0, Rule { op, path: if op == OP_THREAD || op == OP_ALLOC { 0 } else { path }, kind: K_ERR, nth: r.logu(1, 10), every: 0, sticky: r.chance(3, 4), arg });
    }
    let unasked = match &s.cmd {
        Cmd::Insert { flag, inputs, .. } | Cmd::Check { flag, inputs, .. } => !*flag && !inputs.is_empty(),
        c => !matches!(c, Cmd::Bench { .. }),
    };
    if unasked && r.chance(1, 2) {
        // a terminal at which nobody types
        s.sim.rules.insert(0, Rule { op: OP_READ, path: P_STDIN, kind: K_HANG, nth: 1, every: 0, sticky: true, arg: 0 });
    }
    p.steps.push(s);
}

/// a small scenario without faults; its last command is then repeated with every single fault
pub fn gen_sweep(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(mix(&[seed, 0x53EE]));
    let r = &mut r;
    let mut p = Plan { prop: prop.into(), seed, init: Init::None, files: vec![], steps: vec![] };
    let nf = r.range(1, 4) as usize;
    for _ in 0..nf {
        let b = gen_lines(r, 25);
        p.files.push(if r.chance(1, 6) { gen_lines(r, 600) } else { b });
    }
    let upd = |r: &mut Rng| match r.below(3) {
        0 => {
            let mut cfg = gen_cfg(r);
            cfg.cap = r.logu(1, 3000);
            Cmd::Create { cfg, dataset: pick_files(r, nf, 4) }
        }
        _ => insert_cmd(r, nf, 4),
    };
    let mut cmds = vec![];
    if prop == "C10" && r.chance(1, 2) {
        cmds.push(insert_cmd(r, nf, 3));
    }
    cmds.push(match prop {
        "C08" => check_cmd(r, nf, 4),
        "C14" => Cmd::Show,
        "C11" | "C24" => match r.below(6) {
            0 => check_cmd(r, nf, 4),
            1 => Cmd::Show,
            2 => Cmd::Bench { stdin: r.usize(nf), file: r.chance(1, 2), cfg: gen_cfg(r), runs: 1, tol: f64::to_bits(0.2), test_size: None, size_mb: None },
            _ => upd(r),
        },
        _ => upd(r),
    });
    let room = cmds.iter().map(|c| used_lines(&p, c)).sum();
    if prop == "C10" || !matches!(cmds[0], Cmd::Create { .. }) || r.chance(1, 2) {
        p.init = init_filter(r, room);
    }
    for c in cmds {
        let mut s = step(c, *r.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(8)]), gen_sim(r));
        s.verbose = r.chance(1, 10);
        s.style = r.below(16) as u8;
        p.steps.push(s);
    }
    // smaller writes and reads, so that there are more places to fail
    let last = p.steps.last_mut().unwrap();
    if r.chance(1, 2) {
        for (op, path) in [(OP_WRITE, P_ANY), (OP_READ, 0), (OP_READ, 1), (OP_READ, P_STDIN), (OP_WRITE, P_STDOUT)] {
            if r.chance(1, 2) {
                last.sim.rules.push(Rule { op, path, kind: K_SHORT, nth: 0, every: 1, sticky: false, arg: r.logu(700, 6000) });
            }
        }
    }
    p
}

/// the scenario with one fault at each place the last command can meet one
fn points(p: &Plan, calls: u64, ev: &[Ev]) -> Vec<Plan> {
    let mut out = vec![];
    let with = |f: &dyn Fn(&mut Sim)| {
        let mut q = p.clone();
        f(&mut q.steps.last_mut().unwrap().sim);
        q
    };
    let rule = |r: Rule| with(&move |s: &mut Sim| s.rules.insert(0, r.clone()));
    if matches!(p.prop.as_str(), "C10" | "C24") {
        for n in 1..=calls {
            out.push(with(&|s| s.kill = n));
        }
    }
    let mut seen: BTreeMap<(u8, i32), u64> = BTreeMap::new();
    for e in ev {
        if !matches!(e.op, OP_OPEN | OP_READ | OP_WRITE | OP_SEEK | OP_TRUNC | OP_SYNC | OP_RENAME | OP_THREAD) || e.path == 1002 {
            continue;
        }
        let n = seen.entry((e.op, e.path)).or_insert(0);
        *n += 1;
        let at = |kind, sticky, arg| Rule { op: e.op, path: e.path, kind, nth: *n, every: 0, sticky, arg };
        let code = match e.op {
            OP_THREAD => libc::EAGAIN,
            OP_WRITE => libc::ENOSPC,
            _ => libc::EIO,
        } as u64;
        if p.prop == "C10" {
            if e.op == OP_WRITE && e.path < 1000 {
                for k in [1, e.arg / 2, e.arg - 1] {
                    if k > 0 && k < e.arg {
                        out.push(rule(at(K_TORN, false, k as u64)));
                    }
                }
                out.push(rule(at(K_CRASHAFTER, false, 0)));
                out.push(rule(at(K_ERR, true, code)));
            }
        } else {
            out.push(rule(at(K_ERR, true, code)));
            if e.op == OP_READ || e.op == OP_WRITE {
                out.push(rule(at(K_ERR, false, code)));
            }
        }
        // a device that is full after each of the writes
        if e.op == OP_WRITE && e.path < 1000 && p.prop == "C03" && e.arg > 1 {
            let before: i64 = ev.iter().take_while(|x| !std::ptr::eq(*x, e)).filter(|x| x.op == OP_WRITE && x.path == e.path && x.res > 0).map(|x| x.res).sum();
            for k in [0, 1, e.arg / 2, e.arg - 1] {
                out.push(rule(Rule { op: OP_WRITE, path: P_ANY, kind: K_BUDGET, nth: 0, every: 0, sticky: true, arg: (before + k) as u64 }));
            }
        }
    }
    if matches!(p.prop.as_str(), "C09" | "C11" | "C08") {
        for n in 1..=10 {
            out.push(rule(Rule { op: OP_ALLOC, path: 0, kind: K_ERR, nth: n, every: 0, sticky: false, arg: 1000 }));
        }
    }
    out
}

pub fn sweep(p: &Plan, r: &mut Runner) -> RunOut {
    let mut o = exec(p, r);
    o.swept = 1;
    let known = crate::known_classes(&p.prop);
    let bad = |o: &RunOut| o.findings.iter().any(|f| f.class.is_empty() || !known.contains(&f.class));
    if bad(&o) {
        o.failing = Some(p.clone());
        return o;
    }
    let Some((calls, ev)) = o.evs.get(p.steps.len() - 1).cloned() else { return o };
    let mut d = Digest::default();
    d.u64(o.digest);
    let mut all = points(p, calls, &ev);
    if all.len() > 600 {
        *o.counters.entry("sweeps_cut_short".into()).or_insert(0) += 1;
        Rng::new(p.seed).shuffle(&mut all);
        all.truncate(600);
    }
    o.nontrivial = false;
    for q in &all {
        let x = exec(q, r);
        o.swept += 1;
        d.u64(x.digest);
        if x.nontrivial {
            o.paths.push(x.path);
        }
        o.steps += x.steps;
        o.sim_ns = o.sim_ns.saturating_add(x.sim_ns);
        let failed = bad(&x);
        for (k, v) in x.counters {
            *o.counters.entry(k).or_insert(0) += v;
        }
        o.findings.extend(x.findings);
        if failed {
            o.failing = Some(q.clone());
            break;
        }
    }
    o.digest = d.0;
    o
}

/// smaller variants of a plan, most aggressive first
pub fn smaller(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    if p.steps.len() > 1 {
        for i in 0..p.steps.len() {
            let mut q = p.clone();
            q.steps.remove(i);
            out.push(q);
        }
    }
    for (i, s) in p.steps.iter().enumerate() {
        let mut push = |f: &dyn Fn(&mut Step)| {
            let mut q = p.clone();
            f(&mut q.steps[i]);
            if q != *p {
                out.push(q);
            }
        };
        push(&|s| s.sim = Sim { rules: s.sim.rules.clone(), kill: s.sim.kill, clock: s.sim.clock, ncpu: s.sim.ncpu, ..Sim::default() });
        push(&|s| s.sim.rules.clear());
        push(&|s| s.sim.kill = 0);
        push(&|s| s.sim.clock = (0, 1000));
        push(&|s| s.verbose = false);
        push(&|s| s.style = 0);
        for k in 0..s.sim.rules.len() {
            push(&|s| {
                s.sim.rules.remove(k);
            });
        }
        push(&|s| s.jobs = Some(1));
        push(&|s| s.jobs = None);
        if let Some(j) = s.jobs {
            if j > 2 {
                push(&|s| s.jobs = Some(2));
            }
        }
        let n = match &s.cmd {
            Cmd::Create { dataset, .. } => dataset.len(),
            Cmd::Insert { inputs, .. } | Cmd::Check { inputs, .. } => inputs.len(),
            _ => 0,
        };
        for k in 0..n {
            push(&|s| match &mut s.cmd {
                Cmd::Create { dataset, .. } => {
                    dataset.remove(k);
                }
                Cmd::Insert { inputs, .. } | Cmd::Check { inputs, .. } => {
                    inputs.remove(k);
                }
                _ => {}
            });
        }
        push(&|s| match &mut s.cmd {
            Cmd::Insert { stdin, flag, .. } | Cmd::Check { stdin, flag, .. } => {
                *stdin = None;
                *flag = false;
            }
            _ => {}
        });
        // shorter switch lists
        let l = s.sim.list.len();
        if s.sim.mode == 2 && l > 0 {
            let mut size = l.div_ceil(2);
            loop {
                let mut a = 0;
                while a < l {
                    push(&|s| {
                        s.sim.list.drain(a..(a + size).min(l));
                    });
                    a += size;
                }
                if size == 1 || l / size > 64 {
                    break;
                }
                size = size.div_ceil(2);
            }
        }
    }
    for (i, f) in p.files.iter().enumerate() {
        if let Body::Lines { kind, start, n, flags } = f.clone() {
            let mut v = vec![];
            for m in [0, 1, n / 4, n / 2, n.saturating_sub(1)] {
                if m < n {
                    v.push(Body::Lines { kind, start, n: m, flags });
                    v.push(Body::Lines { kind, start: start + (n - m), n: m, flags });
                }
            }
            for b in [CRLF, NOFINAL, DUPS, BLANK, LONG] {
                if flags & b != 0 {
                    v.push(Body::Lines { kind, start, n, flags: flags & !b });
                }
            }
            for b in v {
                let mut q = p.clone();
                q.files[i] = b;
                out.push(q);
            }
        }
    }
    if let Init::Filter { cfg, kind, start, n, data } = p.init.clone() {
        for m in [0, n / 2, n.saturating_sub(1)] {
            if m < n {
                let mut q = p.clone();
                q.init = Init::Filter { cfg: cfg.clone(), kind, start, n: m, data };
                out.push(q);
            }
        }
        if data > 0 {
            let mut q = p.clone();
            q.init = Init::Filter { cfg, kind, start, n, data: 0 };
            out.push(q);
        }
    }
    out
}

/// replaces random schedules by the switches that were made
pub fn concrete(p: &Plan, lists: &[Vec<(u32, u64, u32)>]) -> Option<Plan> {
    let mut q = p.clone();
    let mut any = false;
    for (s, l) in q.steps.iter_mut().zip(lists) {
        if s.sim.mode == 1 && l.len() < 60000 && !matches!(s.cmd, Cmd::Bench { .. }) {
            s.sim.mode = 2;
            s.sim.list = l.clone();
            any = true;
        }
    }
    any.then_some(q)
}
