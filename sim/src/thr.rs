//! Threads on shared and private filters under libsim, compared with sequential execution in the order the locks gave.

#[path = "../../thr/src/ops.rs"]
pub mod ops;

use crate::proc::*;
use crate::rng::{mix, Rng};
use crate::{Finding, RunOut};
use ops::*;
use poppy_filters::BloomFilter;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub work: Work,
    pub sim: Sim,
}

pub fn exec(p: &Plan, r: &mut Runner) -> RunOut {
    r.reset();
    let f = r.dir.join("work.json");
    std::fs::write(&f, serde_json::to_vec(&p.work).unwrap()).unwrap();
    let rep = r.run(&build_dir().join("thr/release/thr"), &[f.display().to_string()], &[], &[], &p.sim, None, (3_000_000_000, 3_000_000));
    let mut o = RunOut { digest: rep.digest, path: rep.digest, steps: rep.steps + rep.calls, sim_ns: rep.clock_ns, ..Default::default() };
    for (k, v) in [("threads", rep.threads), ("preemptions", rep.preempt), ("blocked", rep.blocked), ("switch_points", rep.steps), ("processes", 1)] {
        o.counters.insert(k.into(), v);
    }
    o.nontrivial = rep.threads > 1 && rep.preempt > 0;
    let m = if let Some(m) = rep.stuck() {
        Some(m)
    } else if !rep.ok() {
        Some(format!("the threads died: {}", rep.how()))
    } else {
        judge(&p.work, &rep.out, &mut o)
    };
    if let Some(m) = m {
        o.findings.push(Finding { class: String::new(), msg: m });
    }
    if !o.findings.is_empty() || std::env::var("PSIM_LISTS").is_ok() {
        o.lists = vec![rep.sw];
    }
    o
}

fn judge(w: &Work, out: &[u8], o: &mut RunOut) -> Option<String> {
    let mut res: BTreeMap<(usize, usize), (u64, u64)> = BTreeMap::new();
    let mut fin: BTreeMap<usize, u64> = BTreeMap::new();
    for l in String::from_utf8_lossy(out).lines() {
        let v: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| v[i].parse::<u64>().expect("output of the threaded program");
        match v[0] {
            "r" => {
                res.insert((n(1) as usize, n(2) as usize), (n(3), n(4)));
            }
            _ => {
                fin.insert(n(1) as usize, n(4));
            }
        }
    }
    let ns = w.shared.len();
    let name = |t: usize, i: usize| format!("thread {t} operation {i} ({:?})", w.threads[t][i]);
    for ((t, i), (_, r)) in &res {
        if *r == PANICKED {
            return Some(format!("{} panicked", name(*t, *i)));
        }
    }
    // shared filters: writes in the order of their versions, queries between them
    let mut copies: BTreeMap<(usize, usize), BloomFilter> = BTreeMap::new();
    for s in 0..ns {
        let mut ev: Vec<(u64, bool, usize, usize)> = vec![];
        for (t, ops) in w.threads.iter().enumerate() {
            for (i, op) in ops.iter().enumerate() {
                let copy = matches!(op, Op::CopyFrom { from, .. } if *from == s);
                if op.target() == s || copy {
                    if !copy && w.shared[s].lock == 0 && !op.reads() {
                        continue;
                    }
                    ev.push((res[&(t, i)].0, !(copy || op.reads()), t, i));
                }
            }
        }
        ev.sort();
        let mut f = build(&w.shared[s].spec);
        let mut writes = 0;
        for (v, write, t, i) in ev {
            if v != writes {
                return Some(format!("{} saw version {v} of shared filter {s} after {writes} changes", name(t, i)));
            }
            let op = &w.threads[t][i];
            if let Op::CopyFrom { .. } = op {
                copies.insert((t, i), f.clone());
                continue;
            }
            let want = if write {
                writes += 1;
                change(&mut f, op)
            } else {
                query(&f, op)
            };
            *o.counters.entry(if write { "shared_changes" } else { "shared_queries" }.into()).or_insert(0) += 1;
            let got = res[&(t, i)].1;
            if got != want {
                return Some(format!("{} on shared filter {s} after {v} changes gave {got:#x}, alone it gives {want:#x}", name(t, i)));
            }
        }
        if fin[&s] != dig_bytes(&bytes(&f)) {
            return Some(format!("shared filter {s} ends up different from one used sequentially in the same order"));
        }
    }
    for (t, ops) in w.threads.iter().enumerate() {
        let mut own: BTreeMap<usize, BloomFilter> = BTreeMap::new();
        for (i, op) in ops.iter().enumerate() {
            let f = op.target();
            match op {
                Op::New { spec, .. } => {
                    let g = build(spec);
                    let (got, want) = (res[&(t, i)].1, dig_bytes(&bytes(&g)));
                    *o.counters.entry("filters_created".into()).or_insert(0) += 1;
                    if got != want {
                        return Some(format!("{} made a filter with image {got:#x}, alone it is {want:#x}", name(t, i)));
                    }
                    own.insert(f, g);
                }
                Op::CopyFrom { .. } => {
                    own.insert(f, copies[&(t, i)].clone());
                }
                _ if f >= ns => {
                    let Some(g) = own.get_mut(&f) else { continue };
                    let want = if op.reads() { query(g, op) } else { change(g, op) };
                    let got = res[&(t, i)].1;
                    *o.counters.entry("private_operations".into()).or_insert(0) += 1;
                    if got != want {
                        return Some(format!("{} on the thread's own filter gave {got:#x}, alone it gives {want:#x}", name(t, i)));
                    }
                }
                _ => {}
            }
        }
    }
    None
}

fn spec(r: &mut Rng) -> Spec {
    let v = if r.chance(1, 3) { 1 } else { 2 };
    let p = if r.chance(1, 3) { (-1.0 - r.f64() * 25.0).exp() } else { *r.pick(&[0.001, 0.01, 0.1, 0.3]) };
    Spec {
        v,
        // several buckets in some
        cap: if r.chance(1, 2) { (r.range(32_768, 200_000) as f64 * 0.48 / -p.ln()) as u64 + 1 } else { r.logu(5, 600) },
        fpp: f64::to_bits(p),
        opt: if v == 1 { 0 } else { r.below(4) as u8 },
        kind: r.below(5) as u8,
        start: r.below(100) as u32,
        n: r.below(40) as u32,
        data: if r.chance(1, 5) { r.logu(1, 300) as u32 } else { 0 },
    }
}

pub fn gen(seed: u64) -> Plan {
    let mut r = Rng::new(mix(&[seed, 0x7473]));
    let r = &mut r;
    let ns = r.range(1, 3) as usize;
    let mut shared: Vec<Shared> = (0..ns).map(|_| Shared { spec: spec(r), lock: *r.pick(&[0, 0, 1, 2, 2]) }).collect();
    let nt = r.range(2, 5) as usize;
    let most = *r.pick(&[3, 10, 10, 10, 24]);
    let hot = (r.below(5) as u8, r.below(140) as u32);
    let narrow = r.chance(1, 2);
    // threads that are the first to use anything
    let cold = r.chance(1, 4);
    if cold {
        shared.iter_mut().for_each(|s| s.spec.n = 0);
    }
    // threads busy making filters, with few parameters so that they meet
    let making = r.chance(1, 5);
    let models: Vec<Spec> = (0..r.range(2, 3)).map(|_| Spec { n: r.below(3) as u32, ..spec(r) }).collect();
    let mut threads = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        let mut own = 0;
        if cold {
            let (kind, start) = if r.chance(1, 2) { hot } else { (r.below(5) as u8, r.below(140) as u32) };
            let f = r.usize(ns);
            if r.chance(1, 3) {
                own += 1;
                ops.push(Op::New { f: ns, spec: Spec { n: 1, ..spec(r) } });
            } else if shared[f].lock > 0 {
                ops.push(Op::Ins { f, kind, start, n: 1, via: r.below(4) as u8 });
            } else {
                ops.push(Op::Has { f, kind, start, n: 1, via: r.below(4) as u8 });
            }
        }
        for _ in 0..r.range(1, most) {
            let f = if own > 0 && r.chance(1, 4) { ns + r.usize(own) } else { r.usize(ns) };
            let (mut kind, mut start, mut n) = (r.below(5) as u8, r.below(140) as u32, if r.chance(1, 2) { r.range(1, 3) } else { r.range(1, 16) } as u32);
            if r.chance(1, 2) {
                // threads meet at the same entries
                (kind, start) = hot;
                if narrow {
                    n = 1;
                    start += r.below(2) as u32;
                }
            }
            let writable = f >= ns || shared[f].lock > 0;
            if making && r.chance(2, 3) {
                own += 1;
                ops.push(Op::New { f: ns + own - 1, spec: r.pick(&models).clone() });
                continue;
            }
            ops.push(match r.below(16) {
                0 => {
                    own += 1;
                    Op::New { f: ns + own - 1, spec: spec(r) }
                }
                1 => {
                    own += 1;
                    Op::CopyFrom { f: ns + own - 1, from: r.usize(ns) }
                }
                2 => Op::Stats { f },
                3 => Op::Bytes { f },
                4 => Op::Common { f, kind, start, n },
                5..=8 if writable => Op::Ins { f, kind, start, n, via: r.below(4) as u8 },
                9 if writable && r.chance(1, 5) => Op::Intersect { f, kind, start, n },
                9 if writable && r.chance(1, 5) => Op::Data { f, n: r.below(100) as u32 },
                9 if writable => Op::Merge { f, kind, start, n },
                10 if writable => Op::Reload { f },
                11 if writable && r.chance(1, 3) => Op::Clear { f },
                _ => Op::Has { f, kind, start, n, via: r.below(4) as u8 },
            });
        }
        threads.push(ops);
    }
    let sim = Sim {
        mode: 1,
        seed: r.next(),
        mean: if cold { r.logu(1, 100) } else { r.logu(1, 3000) },
        pio: *r.pick(&[0, 100, 500, 1000]),
        bias: *r.pick(&[0, 0, 10, 200]),
        lifo: r.chance(1, 2),
        ..Sim::default()
    };
    Plan { seed, work: Work { shared, threads }, sim }
}

pub fn smaller(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            out.push(q);
        }
    };
    push(&|q| q.sim = Sim::default());
    // a thread without operations keeps the numbering
    for t in 0..p.work.threads.len() {
        push(&|q| q.work.threads[t].clear());
    }
    for t in 0..p.work.threads.len() {
        for i in 0..p.work.threads[t].len() {
            push(&|q| {
                q.work.threads[t].remove(i);
            });
            push(&|q| match &mut q.work.threads[t][i] {
                Op::Has { n, .. } | Op::Ins { n, .. } | Op::Merge { n, .. } | Op::Intersect { n, .. } | Op::Data { n, .. } | Op::Common { n, .. } => *n = *n / 2 + *n % 2,
                _ => {}
            });
        }
    }
    for s in 0..p.work.shared.len() {
        push(&|q| q.work.shared[s].spec.n = 0);
    }
    let l = p.sim.list.len();
    if p.sim.mode == 2 && l > 0 {
        let mut size = l.div_ceil(2);
        loop {
            let mut a = 0;
            while a < l {
                push(&|q| {
                    q.sim.list.drain(a..(a + size).min(l));
                });
                a += size;
            }
            if size == 1 || l / size > 64 {
                break;
            }
            size = size.div_ceil(2);
        }
    }
    out
}

pub fn concrete(p: &Plan, lists: &[Vec<(u32, u64, u32)>]) -> Option<Plan> {
    if p.sim.mode != 1 || lists.first().map_or(true, |l| l.len() > 60000) {
        return None;
    }
    let mut q = p.clone();
    q.sim.mode = 2;
    q.sim.list = lists[0].clone();
    Some(q)
}
