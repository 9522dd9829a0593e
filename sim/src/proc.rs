//! Runs one real process under libsim: configuration in, report out.

use crate::rng::Digest;
use serde::{Deserialize, Serialize};
use std::os::unix::process::CommandExt;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;

pub const OP_OPEN: u8 = 1;
pub const OP_READ: u8 = 2;
pub const OP_WRITE: u8 = 3;
pub const OP_CLOSE: u8 = 4;
pub const OP_SEEK: u8 = 5;
pub const OP_TRUNC: u8 = 6;
pub const OP_SYNC: u8 = 7;
pub const OP_RENAME: u8 = 8;
pub const OP_UNLINK: u8 = 9;
pub const OP_THREAD: u8 = 10;
pub const OP_ALLOC: u8 = 11;
pub const OP_STAT: u8 = 12;
pub const OP_FAULT: u8 = 14;
pub const OP_CREAT: u8 = 15;

pub const K_ERR: u8 = 1;
pub const K_SHORT: u8 = 2;
pub const K_CRASH: u8 = 3;
pub const K_TORN: u8 = 4;
pub const K_CRASHAFTER: u8 = 5;
pub const K_BUDGET: u8 = 6;
pub const K_HANG: u8 = 8;
pub const K_SWAP: u8 = 9;

pub const P_ANY: i32 = -1;
pub const P_STDIN: i32 = 1000;
pub const P_STDOUT: i32 = 1001;

pub const ST_DONE: u64 = 1;
pub const ST_STEPS: u64 = 2;
pub const ST_DEADLOCK: u64 = 3;
pub const ST_CRASH: u64 = 4;
pub const ST_CALLS: u64 = 5;
pub const ST_INTERNAL: u64 = 6;

const NSW: usize = 65536;
const NEV: usize = 65536;
const NCOV: usize = 65536;
const SW_OFF: usize = 4096;
const EV_OFF: usize = SW_OFF + NSW * 16;
const COV_OFF: usize = EV_OFF + NEV * 24;
const SHM_LEN: usize = COV_OFF + NCOV;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rule {
    pub op: u8,
    /// 0: the filter file, i+1: data file i, -1: any file, 1000/1001: standard input/output
    pub path: i32,
    pub kind: u8,
    pub nth: u64,
    pub every: u64,
    pub sticky: bool,
    pub arg: u64,
}

impl Rule {
    pub fn benign(&self) -> bool {
        self.kind == K_SHORT || (self.kind == K_ERR && self.arg == libc::EINTR as u64)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sim {
    /// 0: threads run until they block, 1: random, 2: from the list
    pub mode: u8,
    pub seed: u64,
    pub mean: u64,
    pub pio: u64,
    pub bias: u64,
    pub lifo: bool,
    pub ncpu: u64,
    pub clock: (u64, u64),
    pub rules: Vec<Rule>,
    pub kill: u64,
    /// switches (thread, its point count, next thread)
    pub list: Vec<(u32, u64, u32)>,
}

impl Default for Sim {
    fn default() -> Self {
        Sim { mode: 0, seed: 1, mean: 1000, pio: 100, bias: 0, lifo: false, ncpu: 4, clock: (0, 1000), rules: vec![], kill: 0, list: vec![] }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub op: u8,
    pub path: i32,
    pub err: i32,
    pub arg: i64,
    pub res: i64,
}

#[derive(Debug, Default)]
pub struct Report {
    pub code: Option<i32>,
    pub sig: Option<i32>,
    pub status: u64,
    pub hung: bool,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ev: Vec<Ev>,
    pub sw: Vec<(u32, u64, u32)>,
    /// how often each rule fired
    pub fired: Vec<u64>,
    pub killed_at_call: bool,
    pub steps: u64,
    pub calls: u64,
    pub threads: u64,
    /// most threads at a time, the first one included
    pub most: u64,
    /// most bytes of memory in use at a time, small blocks apart
    pub peak: u64,
    pub preempt: u64,
    pub blocked: u64,
    pub clock_ns: u64,
    pub digest: u64,
    pub ev_lost: bool,
}

impl Report {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn crashed(&self) -> bool {
        self.status == ST_CRASH
    }
    pub fn stuck(&self) -> Option<String> {
        if self.hung {
            return Some("does not end (stopped after 40 s)".into());
        }
        match self.status {
            ST_STEPS => Some(format!("still running after {} steps", self.steps)),
            ST_CALLS => Some(format!("still running after {} system calls", self.calls)),
            ST_DEADLOCK => Some("all threads wait for each other".into()),
            _ => None,
        }
    }
    pub fn how(&self) -> String {
        match (self.code, self.sig) {
            (Some(c), _) => format!("exit status {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "no status".into(),
        }
    }
}

pub struct Runner {
    pub dir: PathBuf,
    pub root: PathBuf,
    shm: *mut u8,
    shm_path: PathBuf,
    conf: PathBuf,
    pub blocks: Vec<u8>,
    /// address space of the processes, if limited
    pub space: u64,
}

pub fn build_dir() -> PathBuf {
    crate::verif().join(".build")
}

impl Runner {
    pub fn new(dir: &Path) -> Self {
        let _ = fs::remove_dir_all(dir);
        fs::create_dir_all(dir.join("root")).unwrap();
        let shm_path = dir.join("shm");
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&shm_path).unwrap();
        f.set_len(SHM_LEN as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHM_LEN,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                std::os::fd::AsRawFd::as_raw_fd(&f),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        unsafe {
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
        }
        Runner { root: dir.join("root"), conf: dir.join("conf"), dir: dir.to_path_buf(), shm: p as *mut u8, shm_path, blocks: vec![0; NCOV], space: 0 }
    }

    fn h(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile((self.shm as *const u64).add(i)) }
    }

    /// `names`: path numbers 0.. of the rules; `exe` and arguments are run inside the scratch root
    pub fn run(&mut self, exe: &Path, args: &[String], env: &[(&str, String)], names: &[String], sim: &Sim, stdin: Option<&Path>, limits: (u64, u64)) -> Report {
        let mut c = format!(
            "seed {}\nroot {}\nmode {}\nmean {}\npio {}\nbias {}\nlifo {}\nncpu {}\nclock {} {}\nkill {}\nsteps {}\ncalls {}\n",
            sim.seed,
            self.root.display(),
            sim.mode,
            sim.mean,
            sim.pio,
            sim.bias,
            sim.lifo as u8,
            sim.ncpu,
            sim.clock.0,
            sim.clock.1,
            sim.kill,
            limits.0,
            limits.1
        );
        c.push_str(&format!("stages {}\n", self.dir.display()));
        for n in names {
            c.push_str(&format!("path {n}\n"));
        }
        for r in &sim.rules {
            c.push_str(&format!("rule {} {} {} {} {} {} {}\n", r.op, r.path, r.kind, r.nth, r.every, r.sticky as u8, r.arg));
        }
        for (t, at, n) in &sim.list {
            c.push_str(&format!("sw {t} {at} {n}\n"));
        }
        fs::write(&self.conf, c).unwrap();
        unsafe {
            std::ptr::write_bytes(self.shm, 0, 4096);
            std::ptr::write_bytes(self.shm.add(COV_OFF), 0, NCOV);
        }
        let so = self.dir.join("stdout");
        let se = self.dir.join("stderr");
        let inp: Stdio = match stdin {
            Some(p) => fs::File::open(p).unwrap().into(),
            None => Stdio::null(),
        };
        let mut cmd = Command::new(exe);
        cmd.args(args)
            .current_dir(&self.root)
            .env_clear()
            .env("SIM_CONF", &self.conf)
            .env("SIM_SHM", &self.shm_path)
            .env("LD_PRELOAD", build_dir().join("libsim.so"))
            .stdin(inp)
            .stdout(fs::File::create(&so).unwrap())
            .stderr(fs::File::create(&se).unwrap());
        for (k, v) in env {
            cmd.env(k, v);
        }
        if self.space > 0 {
            let l = libc::rlimit { rlim_cur: self.space, rlim_max: self.space };
            unsafe {
                cmd.pre_exec(move || {
                    libc::setrlimit(libc::RLIMIT_AS, &l);
                    Ok(())
                });
            }
        }
        let mut child = cmd.spawn().unwrap_or_else(|e| panic!("cannot run {}: {e}", exe.display()));
        let mut rep = Report::default();
        let st = match wait(&mut child, Duration::from_secs(40)) {
            Some(s) => s,
            None => {
                rep.hung = true;
                let _ = child.kill();
                child.wait().unwrap()
            }
        };
        rep.code = st.code();
        rep.sig = st.signal();
        rep.out = fs::read(&so).unwrap_or_default();
        rep.err = fs::read(&se).unwrap_or_default();
        if self.h(0) != 0x51D51D || self.h(1) == ST_INTERNAL {
            panic!("the process did not run under the simulator: {} {}", st, String::from_utf8_lossy(&rep.err));
        }
        rep.status = self.h(1);
        rep.steps = self.h(2);
        rep.calls = self.h(3);
        rep.threads = self.h(5);
        rep.most = self.h(11).max(1);
        rep.peak = self.h(16);
        rep.clock_ns = self.h(6);
        rep.digest = self.h(7);
        rep.preempt = self.h(12);
        rep.blocked = self.h(13);
        rep.killed_at_call = self.h(32 + 20) > 0;
        rep.fired = (0..sim.rules.len()).map(|i| self.h(96 + i)).collect();
        let nev = self.h(8) as usize;
        rep.ev_lost = nev > NEV;
        let b = unsafe { std::slice::from_raw_parts(self.shm, SHM_LEN) };
        for i in 0..nev.min(NEV) {
            let e = &b[EV_OFF + i * 24..EV_OFF + i * 24 + 24];
            rep.ev.push(Ev {
                op: e[0],
                path: i16::from_le_bytes([e[2], e[3]]) as i32,
                err: i32::from_le_bytes(e[4..8].try_into().unwrap()),
                arg: i64::from_le_bytes(e[8..16].try_into().unwrap()),
                res: i64::from_le_bytes(e[16..24].try_into().unwrap()),
            });
        }
        let nsw = (self.h(9) as usize).min(NSW);
        for i in 0..nsw {
            let e = &b[SW_OFF + i * 16..SW_OFF + i * 16 + 16];
            rep.sw.push((
                u32::from_le_bytes(e[0..4].try_into().unwrap()),
                u64::from_le_bytes(e[8..16].try_into().unwrap()),
                u32::from_le_bytes(e[4..8].try_into().unwrap()),
            ));
        }
        for (a, c) in self.blocks.iter_mut().zip(&b[COV_OFF..COV_OFF + NCOV]) {
            *a |= c;
        }
        // what the process did, without what it printed on standard error
        let mut d = Digest::default();
        d.u64(rep.digest);
        d.u64(rep.status);
        d.u64(rep.code.map_or(1000, |c| c as u64));
        d.u64(rep.sig.map_or(1000, |c| c as u64));
        d.bytes(&rep.out);
        rep.digest = d.0;
        rep
    }

    /// empties the scratch root
    pub fn reset(&self) {
        if let Ok(rd) = fs::read_dir(&self.root) {
            for e in rd.flatten() {
                let p = e.path();
                if e.file_type().map_or(false, |t| t.is_dir()) {
                    let _ = fs::remove_dir_all(&p);
                } else {
                    let _ = fs::remove_file(&p);
                }
            }
        }
    }
}

fn wait(c: &mut std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = std::time::Instant::now();
    let fd = unsafe { libc::syscall(libc::SYS_pidfd_open, c.id() as libc::c_long, 0) as i32 };
    let mut r = None;
    while t0.elapsed() < limit {
        if let Some(s) = c.try_wait().unwrap() {
            r = Some(s);
            break;
        }
        if fd >= 0 {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            unsafe { libc::poll(&mut p, 1, 1000) };
        } else {
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    if fd >= 0 {
        unsafe { libc::close(fd) };
    }
    r
}
