//! Threads using filters, run under libsim. Prints what every operation returned.

mod ops;
use ops::*;
use poppy_filters::BloomFilter;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, RwLock};

struct Cell {
    f: BloomFilter,
    ver: u64,
}

/// Whether sharing is sound is what is tested, so the compiler is told that it is.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

enum Holder {
    Frozen(BloomFilter),
    Mutex(Mutex<Cell>),
    Rw(RwLock<Cell>),
}

fn run(shared: &[Holder], ops: &[Op]) -> Vec<(u64, u64)> {
    let mut own: BTreeMap<usize, BloomFilter> = BTreeMap::new();
    let mut out = vec![];
    for op in ops {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let f = op.target();
            match op {
                Op::New { spec, .. } => {
                    let g = build(spec);
                    let h = dig_bytes(&bytes(&g));
                    own.insert(f, g);
                    return (0, h);
                }
                Op::CopyFrom { from, .. } => {
                    let (g, v) = match &shared[*from] {
                        Holder::Frozen(g) => (g.clone(), 0),
                        Holder::Mutex(m) => {
                            let c = m.lock().unwrap_or_else(|e| e.into_inner());
                            (c.f.clone(), c.ver)
                        }
                        Holder::Rw(m) => {
                            let c = m.read().unwrap_or_else(|e| e.into_inner());
                            (c.f.clone(), c.ver)
                        }
                    };
                    own.insert(f, g);
                    return (v, 0);
                }
                _ => {}
            }
            if f >= shared.len() {
                let Some(g) = own.get_mut(&f) else { return (0, 0) };
                return (0, if op.reads() { query(g, op) } else { change(g, op) });
            }
            match &shared[f] {
                Holder::Frozen(g) => (0, if op.reads() { query(g, op) } else { 0 }),
                Holder::Mutex(m) => {
                    let mut c = m.lock().unwrap_or_else(|e| e.into_inner());
                    let v = c.ver;
                    (v, if op.reads() { query(&c.f, op) } else {
                        c.ver += 1;
                        change(&mut c.f, op)
                    })
                }
                Holder::Rw(m) => {
                    if op.reads() {
                        let c = m.read().unwrap_or_else(|e| e.into_inner());
                        (c.ver, query(&c.f, op))
                    } else {
                        let mut c = m.write().unwrap_or_else(|e| e.into_inner());
                        let v = c.ver;
                        c.ver += 1;
                        (v, change(&mut c.f, op))
                    }
                }
            }
        }));
        out.push(r.unwrap_or((u64::MAX, PANICKED)));
    }
    out
}

fn main() {
    let p = std::env::args().nth(1).unwrap();
    let w: Work = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let shared: Arc<Share<Vec<Holder>>> = Arc::new(Share(
        w.shared
            .iter()
            .map(|s| {
                let f = build(&s.spec);
                match s.lock {
                    0 => Holder::Frozen(f),
                    1 => Holder::Mutex(Mutex::new(Cell { f, ver: 0 })),
                    _ => Holder::Rw(RwLock::new(Cell { f, ver: 0 })),
                }
            })
            .collect(),
    ));
    let hs: Vec<_> = w
        .threads
        .into_iter()
        .map(|ops| {
            let s = shared.clone();
            std::thread::spawn(move || run(s.get(), &ops))
        })
        .collect();
    let mut o = String::new();
    for (t, h) in hs.into_iter().enumerate() {
        for (i, (v, r)) in h.join().unwrap().into_iter().enumerate() {
            o.push_str(&format!("r {t} {i} {v} {r}\n"));
        }
    }
    for (i, s) in shared.get().iter().enumerate() {
        let b = match s {
            Holder::Frozen(f) => bytes(f),
            Holder::Mutex(m) => bytes(&m.lock().unwrap_or_else(|e| e.into_inner()).f),
            Holder::Rw(m) => bytes(&m.read().unwrap_or_else(|e| e.into_inner()).f),
        };
        o.push_str(&format!("f {i} 0 0 {}\n", dig_bytes(&b)));
    }
    std::io::stdout().write_all(o.as_bytes()).unwrap();
}
