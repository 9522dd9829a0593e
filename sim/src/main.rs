//! psim: deterministic simulation of poppy.
//!   psim check <property>                 decide one property (VERIF_SEED, VERIF_TIER)
//!   psim replay <file>                    re-execute a recorded plan and compare
//!   psim exec <plan.json>                 execute one plan, print the outcome
//!   psim determinism <property> <runs>    run every seed twice in different processes
//!   psim worker ...                       internal

mod alloc;
mod cli;
mod gen;
mod proc;
mod py;
mod refimpl;
mod rng;
mod simio;
mod thr;
mod world;

use rng::mix;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Limited = alloc::Limited;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AnyPlan {
    Lib(world::Plan),
    Cli(cli::Plan),
    Thr(thr::Plan),
    Py(py::Plan),
    /// every single fault in one command of a scenario
    Sweep(cli::Plan),
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Finding {
    /// "" for an unexpected failure, else the name of a narrowly defined class of failures
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct RunOut {
    pub digest: u64,
    pub findings: Vec<Finding>,
    pub counters: BTreeMap<String, u64>,
    pub steps: u64,
    pub sim_ns: u64,
    /// digest of the interleaving or state path, by the family's measure
    pub path: u64,
    pub nontrivial: bool,
    /// thread switches made by each process, kept for failing runs
    #[serde(default)]
    pub lists: Vec<Vec<(u32, u64, u32)>>,
    /// what a sweep executed: number of histories, their paths, the one that failed
    #[serde(default)]
    pub swept: u64,
    #[serde(default)]
    pub paths: Vec<u64>,
    #[serde(default)]
    pub failing: Option<cli::Plan>,
    #[serde(skip)]
    pub evs: Vec<(u64, Vec<proc::Ev>)>,
}

fn family_plan(fam: &str, prop: &str, seed: u64) -> AnyPlan {
    match fam {
        "lib" => AnyPlan::Lib(gen::gen(prop, seed)),
        "cli" => AnyPlan::Cli(cli::gen(prop, seed)),
        "libsweep" => AnyPlan::Lib(gen::sweep(prop, seed)),
        "sweep" => AnyPlan::Sweep(cli::gen_sweep(prop, seed)),
        "thr" => AnyPlan::Thr(thr::gen(seed)),
        "py" => AnyPlan::Py(py::gen(seed)),
        _ => panic!("unknown family {fam}"),
    }
}

fn exec(plan: &AnyPlan) -> RunOut {
    match plan {
        AnyPlan::Lib(p) => {
            let o = world::exec(p);
            let faults: u64 = o.counters.0.iter().filter(|(k, _)| k.starts_with("fault_")).map(|(_, v)| *v).sum();
            RunOut {
                digest: o.digest,
                findings: o.violation.into_iter().map(|m| Finding { class: String::new(), msg: m }).collect(),
                nontrivial: o.ops > 2 && (faults > 0 || o.counters.0.contains_key("op_insert")),
                counters: o.counters.0.into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
                steps: o.ops + o.sim_calls,
                sim_ns: 0,
                path: o.digest,
                ..Default::default()
            }
        }
        AnyPlan::Cli(p) => with_runner(|r| cli::exec(p, r)),
        AnyPlan::Sweep(p) => with_runner(|r| cli::sweep(p, r)),
        AnyPlan::Thr(p) => with_runner(|r| thr::exec(p, r)),
        AnyPlan::Py(p) => with_runner(|r| py::exec(p, r)),
    }
}

thread_local!(static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

/// exit status of a process in which the simulator itself failed
pub const BROKEN: i32 = 77;

fn with_runner(f: impl FnOnce(&mut proc::Runner) -> RunOut) -> RunOut {
    thread_local!(static R: std::cell::RefCell<Option<proc::Runner>> = const { std::cell::RefCell::new(None) });
    R.with(|c| {
        let mut c = c.borrow_mut();
        let r = c.get_or_insert_with(|| {
            let base = std::env::var("PSIM_DIR").map_or_else(|_| scratch(), PathBuf::from);
            proc::Runner::new(&base.join(format!("run-{}", std::process::id())))
        });
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(r))) {
            Ok(o) => o,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let at = PANIC_AT.with(|p| p.borrow().clone());
                if at.contains("/poppy/src/") {
                    let msg = format!("the library panics where it is used sequentially for comparison ({at}: {m})");
                    return RunOut { findings: vec![Finding { class: String::new(), msg }], nontrivial: true, ..Default::default() };
                }
                eprintln!("simulator failure: {m} ({at})");
                let _ = fs::remove_dir_all(&r.dir);
                std::process::exit(BROKEN);
            }
        }
    })
}

/// smaller variants of a plan, most aggressive first
fn smaller(plan: &AnyPlan) -> Vec<AnyPlan> {
    match plan {
        AnyPlan::Lib(p) => world_smaller(p).into_iter().map(AnyPlan::Lib).collect(),
        AnyPlan::Cli(p) => cli::smaller(p).into_iter().map(AnyPlan::Cli).collect(),
        AnyPlan::Thr(p) => thr::smaller(p).into_iter().map(AnyPlan::Thr).collect(),
        AnyPlan::Py(p) => py::smaller(p).into_iter().map(AnyPlan::Py).collect(),
        AnyPlan::Sweep(_) => vec![],
    }
}

fn world_smaller(p: &world::Plan) -> Vec<world::Plan> {
    use world::Op;
    let mut out = vec![];
    let n = p.ops.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut i = 0;
        while i < n {
            let mut q = p.clone();
            q.ops.drain(i..(i + size).min(n));
            if !q.ops.is_empty() {
                out.push(q);
            }
            i += size;
        }
        size /= 2;
    }
    for i in 0..n {
        let mut push = |op: Op| {
            let mut q = p.clone();
            q.ops[i] = op;
            out.push(q);
        };
        match p.ops[i].clone() {
            Op::InsRange { s, ty, kind, start, n, via } => {
                for m in [1, n / 4, n / 2, n.saturating_sub(1)] {
                    if m >= 1 && m < n {
                        push(Op::InsRange { s, ty, kind, start, n: m, via });
                        push(Op::InsRange { s, ty, kind, start: start + (n - m), n: m, via });
                    }
                }
                if ty != 0 {
                    push(Op::InsRange { s, ty: 0, kind, start, n, via });
                }
                if via != 0 {
                    push(Op::InsRange { s, ty, kind, start, n, via: 0 });
                }
            }
            Op::Save { s, f, w } if w.chunk != 0 || w.eintr != 0 => {
                push(Op::Save { s, f, w: simio::WPlan { chunk: 0, eintr: 0, fault: w.fault.clone() } });
                push(Op::Save { s, f, w: simio::WPlan { eintr: 0, ..w.clone() } });
                push(Op::Save { s, f, w: simio::WPlan { chunk: 0, ..w } });
            }
            Op::Load { s, f, r, api } if r.chunk != 0 || r.eintr != 0 || r.offset != 0 || api != 0 => {
                push(Op::Load { s, f, r: simio::RPlan { chunk: 0, eintr: 0, offset: 0, fault: r.fault.clone() }, api: 0 });
                push(Op::Load { s, f, r: simio::RPlan { eintr: 0, ..r.clone() }, api });
                push(Op::Load { s, f, r: simio::RPlan { chunk: 0, ..r.clone() }, api });
                push(Op::Load { s, f, r: simio::RPlan { offset: 0, ..r }, api });
            }
            Op::Partial { f, r } if r.chunk != 0 || r.eintr != 0 || r.offset != 0 => {
                push(Op::Partial { f, r: simio::RPlan { chunk: 0, eintr: 0, offset: 0, fault: r.fault.clone() } });
                push(Op::Partial { f, r: simio::RPlan { eintr: 0, ..r.clone() } });
                push(Op::Partial { f, r: simio::RPlan { offset: 0, ..r } });
            }
            Op::Damaged { f, d, r, partial, api } if r.chunk != 0 || r.eintr != 0 || r.offset != 0 => {
                push(Op::Damaged { f, d, r: simio::RPlan { chunk: 0, eintr: 0, offset: 0, fault: r.fault }, partial, api })
            }
            Op::Data { s, n } if n > 1 => push(Op::Data { s, n: n / 2 }),
            Op::Create { s, cfg, api } if api != 0 => push(Op::Create { s, cfg, api: 0 }),
            Op::Fpp { .. } => {}
            _ => {}
        }
    }
    out
}

/// decided by enumerating single faults, as MANIFEST.json says
const SWEPT: [&str; 6] = ["C03", "C04", "C09", "C10", "C14", "C24"];

/// the families deciding a property, with the number of runs per tier
fn families(prop: &str, tier: &str) -> Vec<(&'static str, u64)> {
    let q = tier != "thorough";
    let lib = |n: u64| ("lib", if q { n } else { n * 40 });
    let cli = |n: u64| ("cli", if q { n } else { n * 30 });
    let libsweep = |n: u64| ("libsweep", if q { n } else { n * 30 });
    let sweep = |n: u64| ("sweep", if q { n } else { n * 30 });
    match prop {
        "C01" => vec![lib(100000)],
        "C02" => vec![lib(40000)],
        "C03" => vec![lib(150000), libsweep(150), cli(8000), sweep(400)],
        "C04" => vec![lib(150000), libsweep(200), cli(8000)],
        "C05" => vec![lib(80000), cli(8000)],
        "C06" => vec![lib(60000)],
        "C07" => vec![cli(20000)],
        "C08" => vec![cli(20000), sweep(250)],
        "C09" => vec![cli(20000), sweep(500)],
        "C10" => vec![cli(12000), sweep(350)],
        "C11" => vec![cli(20000), sweep(400)],
        "C12" => vec![cli(20000)],
        "C15" => vec![("thr", if q { 15000 } else { 400000 })],
        "C16" => vec![("py", if q { 4000 } else { 120000 })],
        "C18" => vec![cli(6000)],
        "C13" => vec![lib(40000)],
        "C14" => vec![lib(120000), libsweep(150), cli(4000), sweep(500)],
        "C17" => vec![lib(6000)],
        "C19" => vec![lib(60000)],
        "C23" => vec![lib(60000)],
        "C25" => vec![lib(40000)],
        "C26" => vec![cli(5000)],
        "C27" => vec![cli(4000)],
        "C24" => vec![cli(12000), sweep(300)],
        _ => vec![],
    }
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("PSIM_HOME").unwrap_or_else(|_| "/verif".into()))
}

pub fn scratch() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(format!("{base}/psim-{}", std::process::id()))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn seed_of(vseed: u64, prop: &str, fam: &str, idx: u64) -> u64 {
    let mut d = rng::Digest::default();
    d.bytes(prop.as_bytes());
    d.bytes(fam.as_bytes());
    mix(&[vseed, d.0, idx])
}

#[derive(Serialize, Deserialize, Default, Clone)]
struct WorkerOut {
    runs: u64,
    /// histories executed, more than one per run in a sweep
    evals: u64,
    nontrivial: u64,
    steps: u64,
    sim_ns: u64,
    counters: BTreeMap<String, u64>,
    /// lowest index with an unexpected failure
    bad: Option<(u64, String)>,
    known: BTreeMap<String, (u64, u64, String)>,
    digests: Vec<(u64, u64)>,
    paths: Vec<u64>,
    timed_out: bool,
}

fn quiet_panics() {
    if std::env::var("PSIM_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|i| {
            PANIC_AT.with(|p| *p.borrow_mut() = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line())));
        }));
    }
}

/// worker <prop> <fam> <vseed> <start> <stride> <end> <millis> <dir>
fn worker(a: &[String]) {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    quiet_panics();
    let (prop, fam) = (&a[0], &a[1]);
    let p = |i: usize| a[i].parse::<u64>().unwrap();
    let (vseed, start, stride, end, millis) = (p(2), p(3), p(4), p(5), p(6));
    let dir = PathBuf::from(&a[7]);
    let classes = known_classes(prop);
    let status = dir.join(format!("status-{start}"));
    let stop = dir.join("stop");
    let t0 = Instant::now();
    let mut w = WorkerOut::default();
    let mut paths = BTreeSet::new();
    let mut idx = start;
    let st = fs::File::create(&status).unwrap();
    while idx < end {
        if t0.elapsed() > Duration::from_millis(millis) {
            w.timed_out = true;
            break;
        }
        if w.runs % 16 == 0 {
            // another worker failed at a lower index: nothing beyond it matters
            if let Ok(s) = fs::read_to_string(&stop) {
                if s.trim().parse::<u64>().map_or(false, |b| b < idx) {
                    break;
                }
            }
        }
        std::os::unix::fs::FileExt::write_all_at(&st, &(idx + 1).to_le_bytes(), 0).unwrap();
        let plan = family_plan(fam, prop, seed_of(vseed, prop, fam, idx));
        let o = exec(&plan);
        w.runs += 1;
        w.evals += o.swept.max(1);
        w.steps += o.steps;
        w.sim_ns = w.sim_ns.saturating_add(o.sim_ns);
        if o.nontrivial {
            w.nontrivial += 1;
            paths.insert(o.path);
        }
        w.nontrivial += o.paths.len() as u64;
        paths.extend(o.paths);
        for (k, v) in o.counters {
            *w.counters.entry(k).or_insert(0) += v;
        }
        w.digests.push((idx, o.digest));
        for f in o.findings {
            if classes.iter().any(|c| *c == f.class) && !f.class.is_empty() {
                let e = w.known.entry(f.class).or_insert((0, idx, f.msg));
                e.0 += 1;
            } else if w.bad.is_none() {
                w.bad = Some((idx, f.msg));
            }
        }
        if w.bad.is_some() {
            let _ = fs::write(&stop, format!("{idx}"));
            break;
        }
        idx += stride;
    }
    w.paths = paths.into_iter().collect();
    fs::write(dir.join(format!("out-{start}.json")), serde_json::to_vec(&w).unwrap()).unwrap();
}

/// classes of failures listed as known findings for a property
pub fn known_classes(prop: &str) -> Vec<String> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(verif().join("KNOWN_FINDINGS")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let w: Vec<&str> = rest.split_whitespace().collect();
                if w.len() >= 2 && w[0] == format!("property={prop}") {
                    if let Some(c) = w[1].strip_prefix("class=") {
                        v.push(c.to_string());
                    }
                }
            }
        }
    }
    v
}

enum ExecRes {
    Out(RunOut),
    Died(String),
    Hung,
}

/// executes a plan in a child process, so that aborts and hangs are outcomes too
fn exec_child(plan: &AnyPlan, dir: &Path, limit: Duration) -> ExecRes {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let f = dir.join(format!("plan-{}.json", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    fs::write(&f, serde_json::to_vec(plan).unwrap()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(&f)
        .env("PSIM_DIR", dir)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut so = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let s = rd.join().unwrap();
            let _ = fs::remove_file(&f);
            if matches!(st.code(), Some(BROKEN) | Some(101)) {
                eprintln!("the simulator failed while executing a plan");
                std::process::exit(3);
            }
            return match serde_json::from_str::<RunOut>(s.trim()) {
                Ok(o) => ExecRes::Out(o),
                Err(_) => ExecRes::Died(format!(
                    "process died ({})",
                    st.signal().map_or(format!("exit {:?}", st.code()), |s| format!("signal {s}"))
                )),
            };
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return ExecRes::Hung;
        }
        std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 50 { 300 } else { 3000 }));
    }
}

fn verdict(plan: &AnyPlan, dir: &Path, classes: &[String], limit: Duration) -> (Option<String>, u64) {
    match exec_child(plan, dir, limit) {
        ExecRes::Out(o) => {
            let f = o.findings.into_iter().find(|f| f.class.is_empty() || !classes.contains(&f.class));
            (f.map(|f| f.msg), o.digest)
        }
        ExecRes::Died(m) => (Some(m), 1),
        ExecRes::Hung => (Some("does not terminate".into()), 2),
    }
}

fn shrink(plan: AnyPlan, dir: &Path, classes: &[String], budget: Duration, hang: bool) -> AnyPlan {
    let t0 = Instant::now();
    let mut best = plan;
    let lim = if hang { Duration::from_secs(5) } else { Duration::from_secs(20) };
    'outer: loop {
        for cs in smaller(&best).chunks(8) {
            if t0.elapsed() > budget {
                break 'outer;
            }
            // several at once, the first one in order wins
            let fails: Vec<bool> = std::thread::scope(|s| {
                let h: Vec<_> = cs.iter().map(|c| s.spawn(|| verdict(c, dir, classes, lim).0.is_some())).collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            });
            if let Some(i) = fails.iter().position(|x| *x) {
                best = cs[i].clone();
                continue 'outer;
            }
        }
        break;
    }
    best
}

/// the plan with the thread switches written out, if it fails as well
fn fix_schedule(plan: &AnyPlan, dir: &Path, classes: &[String], lim: Duration) -> AnyPlan {
    if let ExecRes::Out(o) = exec_child(plan, dir, lim) {
        let q = match plan {
            AnyPlan::Cli(p) => cli::concrete(p, &o.lists).map(AnyPlan::Cli),
            AnyPlan::Thr(p) => thr::concrete(p, &o.lists).map(AnyPlan::Thr),
            _ => None,
        };
        if let Some(q) = q {
            if verdict(&q, dir, classes, lim).0.is_some() {
                return q;
            }
        }
    }
    plan.clone()
}

struct Explored {
    w: WorkerOut,
    bad: Option<(u64, String)>,
    hung: bool,
}

fn explore(prop: &str, fam: &str, vseed: u64, from: u64, count: u64, millis: u64, jobs: u64, dir: &Path) -> Explored {
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for j in 0..jobs {
        let c = Command::new(&exe)
            .args(["worker", prop, fam])
            .args([vseed, from + j, jobs, from + count, millis].map(|x| x.to_string()))
            .arg(dir)
            .env("PSIM_DIR", dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(if std::env::var("PSIM_DEBUG").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .unwrap();
        kids.push((from + j, c, 0u64, Instant::now(), None::<std::process::ExitStatus>));
    }
    let mut bad: Option<(u64, String)> = None;
    let mut hung = false;
    let note = |i: u64, m: String, bad: &mut Option<(u64, String)>| {
        if bad.as_ref().map_or(true, |b| i < b.0) {
            *bad = Some((i, m));
        }
    };
    loop {
        let mut alive = false;
        for k in kids.iter_mut() {
            if k.4.is_some() {
                continue;
            }
            let cur = fs::read(dir.join(format!("status-{}", k.0)))
                .ok()
                .and_then(|b| b.get(0..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
                .unwrap_or(0);
            if let Some(st) = k.1.try_wait().unwrap() {
                k.4 = Some(st);
                if !st.success() {
                    if cur == 0 || matches!(st.code(), Some(BROKEN) | Some(101)) {
                        eprintln!("worker failed: {st} (at run {cur})");
                        std::process::exit(3);
                    }
                    let m = st.signal().map_or(format!("exit {:?}", st.code()), |s| format!("signal {s}"));
                    note(cur - 1, format!("process died ({m})"), &mut bad);
                    let _ = fs::write(dir.join("stop"), format!("{}", cur - 1));
                }
                continue;
            }
            alive = true;
            if cur != k.2 {
                k.2 = cur;
                k.3 = Instant::now();
            } else if k.3.elapsed() > Duration::from_secs(60) && cur > 0 {
                let _ = k.1.kill();
                let st = k.1.wait().unwrap();
                k.4 = Some(st);
                hung = true;
                note(cur - 1, "does not terminate".into(), &mut bad);
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut w = WorkerOut::default();
    for k in &kids {
        let Ok(b) = fs::read(dir.join(format!("out-{}.json", k.0))) else { continue };
        let Ok(x) = serde_json::from_slice::<WorkerOut>(&b) else { continue };
        w.runs += x.runs;
        w.evals += x.evals;
        w.nontrivial += x.nontrivial;
        w.steps += x.steps;
        w.sim_ns = w.sim_ns.saturating_add(x.sim_ns);
        w.timed_out |= x.timed_out;
        for (c, v) in x.counters {
            *w.counters.entry(c).or_insert(0) += v;
        }
        for (c, v) in x.known {
            let e = w.known.entry(c).or_insert((0, v.1, v.2.clone()));
            e.0 += v.0;
            if v.1 < e.1 {
                e.1 = v.1;
                e.2 = v.2;
            }
        }
        w.digests.extend(x.digests);
        w.paths.extend(x.paths);
        if let Some((i, m)) = x.bad {
            note(i, m, &mut bad);
        }
    }
    w.digests.sort();
    w.paths.sort();
    w.paths.dedup();
    Explored { w, bad, hung }
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sc = Scratch(scratch());
    fs::create_dir_all(&sc.0).unwrap();
    let fams = families(prop, tier);
    if fams.is_empty() {
        eprintln!("no check for {prop}");
        return 2;
    }
    let jobs = std::env::var("PSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16)
    });
    let scale: f64 = std::env::var("PSIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cap_ms = if tier == "quick" { 150_000 } else { 600_000 } / fams.len() as u64;
    let classes = known_classes(prop);
    let mut cov = serde_json::Map::new();
    let (mut evals, mut distinct) = (0, 0);
    let mut samples = vec![];
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut famv = serde_json::Map::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut code = 0;
    let mut violations = 0;
    for (fam, n) in &fams {
        let n = ((*n as f64 * scale) as u64).max(jobs);
        let tf = Instant::now();
        let d = sc.0.join(fam);
        let e = explore(prop, fam, vseed, 0, n, cap_ms, jobs, &d);
        let secs = tf.elapsed().as_secs_f64();
        evals += e.w.evals;
        distinct += e.w.paths.len() as u64;
        for (k, v) in &e.w.counters {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
        for (c, (k, _, m)) in &e.w.known {
            let x = known.entry(c.clone()).or_insert((0, m.clone()));
            x.0 += k;
        }
        let mut fj = json!({
            "runs": e.w.evals, "runs_per_hour": (e.w.evals as f64 / secs * 3600.0) as u64, "seeds": e.w.runs, "steps": e.w.steps,
            "simulated_seconds": e.w.sim_ns as f64 / 1e9, "nontrivial_runs": e.w.nontrivial,
            "distinct_paths": e.w.paths.len(), "stopped_by_time": e.w.timed_out,
        });
        if let Some((idx, msg)) = e.bad {
            let lim = Duration::from_secs(90);
            let plan = family_plan(fam, prop, seed_of(vseed, prop, fam, idx));
            let (again, _) = verdict(&plan, &sc.0, &classes, lim);
            if again.is_none() {
                eprintln!("run {idx} of {fam} failed in the worker ({msg}) but not when repeated: the simulation is not deterministic");
                return 2;
            }
            let mut found = plan.clone();
            if let AnyPlan::Sweep(_) = &plan {
                if let ExecRes::Out(RunOut { failing: Some(p), .. }) = exec_child(&plan, &sc.0, lim) {
                    found = AnyPlan::Cli(p);
                }
            }
            let start = fix_schedule(&found, &sc.0, &classes, lim);
            let small = shrink(start, &sc.0, &classes, Duration::from_secs(if tier == "quick" { 20 } else { 60 }), e.hung);
            let (m, dg) = verdict(&small, &sc.0, &classes, lim);
            let (m2, dg2) = verdict(&small, &sc.0, &classes, lim);
            if m.is_none() || m != m2 || dg != dg2 {
                eprintln!("replay of run {idx} is not stable: {m:?} / {m2:?}");
                return 2;
            }
            let m = m.unwrap();
            let file = verif().join("evidence").join(format!("replay-{prop}-{fam}-{vseed}-{idx}.json"));
            fs::create_dir_all(file.parent().unwrap()).unwrap();
            let rep = json!({
                "property": prop, "family": fam, "verif_seed": vseed, "run": idx,
                "seed": seed_of(vseed, prop, fam, idx), "message": m, "original_message": msg,
                "digest": dg, "plan": small, "original_plan": plan,
                "how": format!("{}/check.sh replay {}", verif().display(), file.display()),
            });
            fs::write(&file, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
            println!("{prop} [{fam} seed {vseed} run {idx}]: {m}");
            println!("VIOLATION property={prop} replay={}", file.display());
            code = 1;
            violations += 1;
        } else {
            // the same seeds again, in other processes, must give the same event logs
            let k = n.min(if *fam == "sweep" { jobs } else if tier == "quick" { 24 } else { 200 });
            let r = explore(prop, fam, vseed, 0, k, 100_000, (jobs / 2).max(1), &sc.0.join("again"));
            let firsts: Vec<_> = e.w.digests.iter().filter(|x| x.0 < k).cloned().collect();
            let both: BTreeMap<u64, u64> = r.w.digests.iter().cloned().collect();
            let mut compared = 0;
            for (i, dg) in &firsts {
                if let Some(x) = both.get(i) {
                    compared += 1;
                    if x != dg {
                        eprintln!("run {i} of {fam} gave different event logs when repeated: the simulation is not deterministic");
                        return 2;
                    }
                }
            }
            fj["repeated_runs_identical"] = json!(compared);
        }
        for i in 0..2u64 {
            let mut s = serde_json::to_string(&family_plan(fam, prop, seed_of(vseed, prop, fam, i))).unwrap();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            samples.push(Value::String(s));
        }
        famv.insert(fam.to_string(), fj);
        if code != 0 {
            break;
        }
    }
    for (c, (k, m)) in &known {
        println!("KNOWN-FINDING: property={prop} class={c} ({k} runs) {m}");
    }
    let (fired, probes): (BTreeMap<_, _>, BTreeMap<_, _>) = faults.into_iter().partition(|(k, _)| k.starts_with("fault_"));
    cov.insert("evaluations".into(), json!(evals));
    cov.insert("distinct_nontrivial".into(), json!(distinct));
    cov.insert(
        "rule".into(),
        json!("each case is one simulated history generated from VERIF_SEED and the run number; it counts as distinct by \
               the digest of what was observed in it (results and states for library histories; thread switch points, \
               intercepted calls and results for process runs; in sweep a scenario is repeated with every single fault, each \
               repetition counted as a run; in libsweep one run tries every byte) and as non-trivial when it did more than start up: \
               insertions, switches between threads, or fired faults"),
    );
    cov.insert("samples".into(), json!(samples));
    cov.insert("families".into(), Value::Object(famv));
    cov.insert("faults_fired".into(), json!(fired));
    cov.insert("reached".into(), json!(probes));
    cov.insert("known_findings_seen".into(), json!(known.iter().map(|(c, v)| (c.clone(), v.0)).collect::<BTreeMap<_, _>>()));
    cov.insert("components".into(), json!(components(&fams.iter().map(|f| f.0).collect::<Vec<_>>())));
    let mut assume = vec!["seeded sampling: schedules, faults and histories not drawn are not covered"];
    let swept = SWEPT.contains(&prop);
    if swept {
        assume.push("single faults are enumerated for each scenario drawn for it, not combinations of faults");
    }
    let ev = json!({
        "property": prop, "tier": tier, "seed": vseed, "level": if swept { "fault_enumeration" } else { "exploration" }, "coverage": cov,
        "assumptions": assume,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let f = verif().join("evidence").join(format!("{prop}.json"));
    fs::create_dir_all(f.parent().unwrap()).unwrap();
    fs::write(&f, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    if code == 0 {
        println!("{prop}: held on {evals} runs ({distinct} distinct) in {:.1}s", t0.elapsed().as_secs_f64());
    }
    code
}

fn components(fams: &[&str]) -> Value {
    let mut m = serde_json::Map::new();
    for f in fams {
        let (real, stub) = match *f {
            "lib" | "libsweep" => (
                "poppy_filters library built from /repo, through its public API",
                "reader and writer (simulated streams), disk (in memory), allocator limit, the other implementation of the file formats",
            ),
            "cli" | "sweep" => (
                "the poppy program built from /repo with its library, standard library, thread pool and dependencies",
                "thread scheduling, locks and thread starts, system calls on files and standard streams, clocks, random numbers, processor count, allocation failures",
            ),
            "thr" => (
                "poppy_filters library built from /repo, standard library threads and locks",
                "thread scheduling, lock waits, clocks, random numbers",
            ),
            "py" => (
                "extension module built from /repo in /usr/bin/python3, the poppy program, poppy_filters library",
                "file calls of the interpreter process, clocks, random numbers",
            ),
            _ => ("", ""),
        };
        m.insert(f.to_string(), json!({"real": real, "simulated": stub}));
    }
    Value::Object(m)
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_slice(&fs::read(file).expect("replay file")).expect("json");
    let plan: AnyPlan = serde_json::from_value(v["plan"].clone()).expect("plan");
    let prop = v["property"].as_str().unwrap_or("");
    let sc = Scratch(scratch());
    fs::create_dir_all(&sc.0).unwrap();
    let (m, dg) = verdict(&plan, &sc.0, &known_classes(prop), Duration::from_secs(120));
    match m {
        Some(m) => {
            let same = v["message"].as_str() == Some(&m) && v["digest"].as_u64() == Some(dg);
            println!("{m}");
            println!("{}", if same { "reproduced exactly" } else { "violation reproduced, but not identically" });
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn determinism(prop: &str, n: u64) -> i32 {
    let sc = Scratch(scratch());
    fs::create_dir_all(&sc.0).unwrap();
    let mut bad = 0;
    for (fam, _) in families(prop, "quick") {
        let mut seen: BTreeMap<u64, u64> = BTreeMap::new();
        for jobs in [8u64, 1, 3] {
            let e = explore(prop, fam, 77, 0, n, 3_600_000, jobs, &sc.0.join("d"));
            for (i, d) in e.w.digests {
                if *seen.entry(i).or_insert(d) != d {
                    println!("{prop} {fam} run {i}: digests differ");
                    bad += 1;
                }
            }
        }
        println!("{prop} {fam}: {} seeds, three times each, {bad} mismatches", seen.len());
    }
    (bad > 0) as i32
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1]),
        Some("worker") => {
            worker(&a[1..]);
            0
        }
        Some("exec") => {
            quiet_panics();
            let p: AnyPlan = serde_json::from_slice(&fs::read(&a[1]).unwrap()).unwrap();
            let o = exec(&p);
            println!("{}", serde_json::to_string(&o).unwrap());
            if let Ok(d) = std::env::var("PSIM_DIR") {
                let _ = fs::remove_dir_all(Path::new(&d).join(format!("run-{}", std::process::id())));
            } else {
                let _ = fs::remove_dir_all(scratch());
            }
            0
        }
        Some("plan") => {
            let p = family_plan(&a[2], &a[1], seed_of(a[3].parse().unwrap(), &a[1], &a[2], a[4].parse().unwrap()));
            println!("{}", serde_json::to_string(&p).unwrap());
            0
        }
        Some("calib17") => {
            let n: u64 = a[1].parse().unwrap();
            let mut r = rng::Rng::new(a[2].parse().unwrap());
            for _ in 0..n {
                let p = *r.pick(&[0.001, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9]);
                let cap = r.logu(2, 40000);
                let kind = *r.pick(&[0u8, 1, 2, 4]);
                let cfg = world::Cfg { v: 2, cap, fpp: f64::to_bits(p), opt: r.below(4) as u8 };
                let mut f = world::make(&cfg, 0).unwrap();
                for i in 0..cap {
                    let _ = f.insert_bytes(world::ent_bytes(kind, i as u32));
                }
                let q = 40000;
                let h = (0..q).filter(|i| f.contains_bytes(world::ent_bytes(kind, (1 << 28) + i))).count();
                println!("{:.3} p={p} cap={cap} opt={} kind={kind} hits={h} cnt={}", h as f64 / q as f64 / p, cfg.opt, f.count_estimate());
            }
            0
        }
        Some("lists") => {
            // switch lists must reproduce the random schedules they were recorded from
            quiet_panics();
            std::env::set_var("PSIM_LISTS", "1");
            let (mut same, mut n) = (0, 0);
            for i in 0..a[2].parse::<u64>().unwrap() {
                let fam = if a[1] == "C15" { "thr" } else { "cli" };
                let p = family_plan(fam, &a[1], seed_of(5, &a[1], fam, i));
                let o = exec(&p);
                let q = match &p {
                    AnyPlan::Cli(c) => cli::concrete(c, &o.lists).map(AnyPlan::Cli),
                    AnyPlan::Thr(c) => thr::concrete(c, &o.lists).map(AnyPlan::Thr),
                    _ => None,
                };
                if let Some(q) = q {
                    n += 1;
                    same += (exec(&q).digest == o.digest) as u64;
                }
            }
            println!("{same} of {n} identical");
            let _ = fs::remove_dir_all(scratch());
            (same != n) as i32
        }
        Some("replay") => replay(&a[1]),
        Some("determinism") => determinism(&a[1], a[2].parse().unwrap()),
        _ => {
            eprintln!("usage: psim check|replay|exec|plan|determinism");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
