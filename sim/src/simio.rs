//! Simulated streams: the seam between the library and its storage.

use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom, Write};

/// How the destination of a save behaves.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WPlan {
    /// largest number of bytes accepted per call (0: no limit)
    pub chunk: u32,
    /// every n-th call is interrupted (0: never)
    pub eintr: u32,
    pub fault: WFault,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WFault {
    None,
    /// device accepts `at` bytes, then fails with the given kind; for ever if `sticky`, else once
    Err { at: u64, kind: u8, sticky: bool },
    /// device accepts `at` bytes, then every write returns 0
    Zero { at: u64 },
    /// the flush call fails
    Flush,
    /// the process dies once the device has `at` bytes
    Crash { at: u64 },
}

impl WPlan {
    pub fn plain() -> Self {
        WPlan { chunk: 0, eintr: 0, fault: WFault::None }
    }
}

pub struct SimCrash;
pub struct SimHang;

pub fn err_kind(k: u8) -> io::Error {
    match k % 5 {
        0 => io::Error::from_raw_os_error(libc::EIO),
        1 => io::Error::from_raw_os_error(libc::ENOSPC),
        2 => io::Error::new(io::ErrorKind::BrokenPipe, "simulated broken pipe"),
        3 => io::Error::new(io::ErrorKind::Other, "simulated failure"),
        _ => io::Error::from_raw_os_error(libc::EDQUOT),
    }
}

pub fn rerr_kind(k: u8) -> io::Error {
    match k % 5 {
        0 => io::Error::from_raw_os_error(libc::EIO),
        1 => io::Error::from_raw_os_error(libc::ESTALE),
        2 => io::Error::new(io::ErrorKind::ConnectionReset, "simulated reset"),
        3 => io::Error::new(io::ErrorKind::Other, "simulated failure"),
        _ => io::Error::from_raw_os_error(libc::EBADMSG),
    }
}

pub struct SimWriter {
    pub out: Vec<u8>,
    plan: WPlan,
    calls: u64,
    budget: u64,
    last_eintr: bool,
    pub fired: bool,
    pub eintrs: u64,
    pub shorts: u64,
}

impl SimWriter {
    pub fn new(plan: &WPlan, expect: usize) -> Self {
        Self {
            out: vec![],
            plan: plan.clone(),
            calls: 0,
            budget: 4096 + 8 * expect as u64,
            last_eintr: false,
            fired: false,
            eintrs: 0,
            shorts: 0,
        }
    }
    fn tick(&mut self) {
        self.calls += 1;
        if self.calls > self.budget {
            std::panic::panic_any(SimHang)
        }
    }
    fn maybe_eintr(&mut self) -> bool {
        if self.plan.eintr > 0 && self.calls % self.plan.eintr as u64 == 0 && !self.last_eintr {
            self.last_eintr = true;
            self.eintrs += 1;
            return true;
        }
        self.last_eintr = false;
        false
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.tick();
        if buf.is_empty() {
            return Ok(0);
        }
        if self.maybe_eintr() {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if self.plan.chunk > 0 {
            n = n.min(self.plan.chunk as usize);
        }
        let have = self.out.len() as u64;
        match self.plan.fault.clone() {
            WFault::Err { at, kind, sticky } if !self.fired || sticky => {
                if have >= at {
                    self.fired = true;
                    return Err(err_kind(kind));
                }
                n = n.min((at - have) as usize);
            }
            WFault::Zero { at } => {
                if have >= at {
                    self.fired = true;
                    return Ok(0);
                }
                n = n.min((at - have) as usize);
            }
            WFault::Crash { at } => {
                if have + n as u64 >= at {
                    let k = at.saturating_sub(have) as usize;
                    self.out.extend_from_slice(&buf[..k]);
                    self.fired = true;
                    std::panic::panic_any(SimCrash)
                }
            }
            _ => {}
        }
        if n < buf.len() {
            self.shorts += 1;
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.tick();
        if self.plan.fault == WFault::Flush {
            self.fired = true;
            return Err(err_kind(0));
        }
        Ok(())
    }
}

/// How the source of a load behaves.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RPlan {
    /// largest number of bytes delivered per call (0: no limit)
    pub chunk: u32,
    pub eintr: u32,
    /// junk bytes in the stream before the filter; reading starts after them
    pub offset: u64,
    pub fault: RFault,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RFault {
    None,
    /// reading at or beyond this byte of the filter fails; for ever if `sticky`, else once
    Err { at: u64, kind: u8, sticky: bool },
    /// the n-th seek fails
    Seek { nth: u32 },
}

impl RPlan {
    pub fn plain() -> Self {
        RPlan { chunk: 0, eintr: 0, offset: 0, fault: RFault::None }
    }
}

pub struct SimReader<'a> {
    pre: u64,
    body: &'a [u8],
    pos: u64,
    plan: RPlan,
    calls: u64,
    budget: u64,
    last_eintr: bool,
    seeks: u32,
    pub st: &'a std::cell::RefCell<RStat>,
}

#[derive(Default, Clone, Debug)]
pub struct RStat {
    pub fired: bool,
    pub eintrs: u64,
    pub shorts: u64,
    pub calls: u64,
    pub hang: bool,
}

impl<'a> SimReader<'a> {
    pub fn new(plan: &RPlan, body: &'a [u8], st: &'a std::cell::RefCell<RStat>) -> Self {
        Self {
            pre: plan.offset,
            body,
            pos: plan.offset,
            plan: plan.clone(),
            calls: 0,
            budget: 4096 + 8 * body.len() as u64,
            last_eintr: false,
            seeks: 0,
            st,
        }
    }
    fn tick(&mut self) {
        self.calls += 1;
        self.st.borrow_mut().calls = self.calls;
        if self.calls > self.budget {
            self.st.borrow_mut().hang = true;
            std::panic::panic_any(SimHang)
        }
    }
}

impl<'a> Read for SimReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.tick();
        if buf.is_empty() {
            return Ok(0);
        }
        if self.plan.eintr > 0 && self.calls % self.plan.eintr as u64 == 0 && !self.last_eintr {
            self.last_eintr = true;
            self.st.borrow_mut().eintrs += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.last_eintr = false;
        let end = self.pre + self.body.len() as u64;
        let mut n = buf.len() as u64;
        if self.plan.chunk > 0 {
            n = n.min(self.plan.chunk as u64);
        }
        if let RFault::Err { at, kind, sticky } = self.plan.fault {
            let fired = self.st.borrow().fired;
            if !fired || sticky {
                let lim = self.pre + at;
                if self.pos >= lim {
                    self.st.borrow_mut().fired = true;
                    return Err(rerr_kind(kind));
                }
                n = n.min(lim - self.pos);
            }
        }
        n = n.min(end.saturating_sub(self.pos));
        for i in 0..n {
            let p = self.pos + i;
            buf[i as usize] = if p < self.pre {
                (p as u8) ^ 0xA5
            } else {
                self.body[(p - self.pre) as usize]
            };
        }
        if (n as usize) < buf.len() {
            self.st.borrow_mut().shorts += 1;
        }
        self.pos += n;
        Ok(n as usize)
    }
}

impl<'a> Seek for SimReader<'a> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.tick();
        self.seeks += 1;
        if let RFault::Seek { nth } = self.plan.fault {
            if self.seeks >= nth {
                self.st.borrow_mut().fired = true;
                return Err(rerr_kind(0));
            }
        }
        let end = self.pre + self.body.len() as u64;
        let np: i128 = match s {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => end as i128 + d as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            return Err(io::Error::from_raw_os_error(libc::EINVAL));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}
