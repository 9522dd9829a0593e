// Operations of threads on filters; compiled into the threaded program and into the sequential model.

use poppy_filters::{v2, BloomFilter, OptLevel};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    pub v: u8,
    pub cap: u64,
    pub fpp: u64,
    pub opt: u8,
    /// initial entries
    pub kind: u8,
    pub start: u32,
    pub n: u32,
    /// bytes of attached data
    #[serde(default)]
    pub data: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Shared {
    pub spec: Spec,
    /// 0: never written, no lock; 1: mutex; 2: read-write lock
    pub lock: u8,
}

/// `f` below the number of shared filters is shared, otherwise it is a filter of the thread's own
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Has { f: usize, kind: u8, start: u32, n: u32, via: u8 },
    Stats { f: usize },
    Bytes { f: usize },
    Common { f: usize, kind: u8, start: u32, n: u32 },
    Ins { f: usize, kind: u8, start: u32, n: u32, via: u8 },
    Merge { f: usize, kind: u8, start: u32, n: u32 },
    Intersect { f: usize, kind: u8, start: u32, n: u32 },
    Data { f: usize, n: u32 },
    Reload { f: usize },
    Clear { f: usize },
    /// private filters only
    New { f: usize, spec: Spec },
    CopyFrom { f: usize, from: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Work {
    pub shared: Vec<Shared>,
    pub threads: Vec<Vec<Op>>,
}

impl Op {
    pub fn target(&self) -> usize {
        match self {
            Op::Has { f, .. }
            | Op::Stats { f }
            | Op::Bytes { f }
            | Op::Common { f, .. }
            | Op::Ins { f, .. }
            | Op::Merge { f, .. }
            | Op::Intersect { f, .. }
            | Op::Data { f, .. }
            | Op::Reload { f }
            | Op::Clear { f }
            | Op::New { f, .. }
            | Op::CopyFrom { f, .. } => *f,
        }
    }
    pub fn reads(&self) -> bool {
        matches!(self, Op::Has { .. } | Op::Stats { .. } | Op::Bytes { .. } | Op::Common { .. })
    }
}

pub const PANICKED: u64 = 0xDEAD;

pub fn dig(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29) ^ 0x1234567
}

pub fn dig_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        h = dig(h, u64::from_le_bytes(w));
    }
    h
}

pub fn entry(kind: u8, id: u32) -> String {
    match kind {
        0 => format!("{:016x}", (id as u64 + 1).wrapping_mul(0xD1B54A32D192ED03)),
        1 => format!("host-{id}.example.org"),
        2 => format!("{id}/{}", "abc".repeat((id % 40) as usize)),
        3 => format!("{id:x}").repeat(id as usize % 3),
        _ => format!("{id}:{}", "0123456789abcdef".repeat(10 + (id % 50) as usize)),
    }
}

pub fn build(s: &Spec) -> BloomFilter {
    let o = OptLevel::try_from(s.opt).unwrap();
    let mut f = BloomFilter::with_version_capacity_opt(s.v, s.cap as usize, f64::from_bits(s.fpp), o).unwrap();
    for i in 0..s.n {
        let _ = f.insert_bytes(entry(s.kind, s.start + i));
    }
    attach(&mut f, s.data);
    f
}

fn attach(f: &mut BloomFilter, n: u32) {
    let d = (0..n).map(|i| (i * 7 + n) as u8).collect();
    match f {
        BloomFilter::V1(v) => v.data = d,
        BloomFilter::V2(v) => v.data = d,
    }
}

pub fn bytes(f: &BloomFilter) -> Vec<u8> {
    let mut v = vec![];
    let _ = f.write(&mut v);
    v
}

/// an empty filter with the same parameters
fn twin(f: &BloomFilter, kind: u8, start: u32, n: u32) -> BloomFilter {
    let mut g = f.clone();
    g.clear();
    for i in 0..n {
        let _ = g.insert_bytes(entry(kind, start + i));
    }
    g
}

pub fn query(f: &BloomFilter, op: &Op) -> u64 {
    match op {
        Op::Has { kind, start, n, via, .. } => {
            let mut h = 0;
            for i in 0..*n {
                let e = entry(*kind, start + i);
                let b = match (f, via) {
                    (BloomFilter::V2(v), 1) => v.contains(&e.as_str()),
                    (BloomFilter::V2(v), 3) => v.contains(&Some(start + i)),
                    (BloomFilter::V2(v), 2) => v.contains_iter(v2::BloomFilter::build_index_iter(&e.as_str())).unwrap_or(false),
                    (BloomFilter::V2(v), _) => v.contains_bytes(&e),
                    (BloomFilter::V1(v), _) => v.contains_bytes(&e),
                };
                h = h << 1 | b as u64;
            }
            h
        }
        Op::Stats { .. } => [
            f.count_estimate(),
            f.is_full() as u64,
            f.capacity() as u64,
            f.fpp().to_bits(),
            f.size_in_bytes() as u64,
            f.version() as u64,
        ]
        .into_iter()
        .fold(1, dig),
        Op::Bytes { .. } => dig_bytes(&bytes(f)),
        Op::Common { kind, start, n, .. } => {
            let g = twin(f, *kind, *start, *n);
            match f.count_common_entries(&g) {
                Ok(n) => n as u64,
                Err(_) => u64::MAX,
            }
        }
        _ => unreachable!(),
    }
}

pub fn change(f: &mut BloomFilter, op: &Op) -> u64 {
    match op {
        Op::Ins { kind, start, n, via, .. } => {
            let mut h = 1;
            for i in 0..*n {
                let e = entry(*kind, start + i);
                let r = match (&mut *f, via) {
                    (BloomFilter::V2(v), 1) => v.insert(&e.as_str()),
                    (BloomFilter::V2(v), 3) => v.insert(&Some(start + i)),
                    (BloomFilter::V2(v), 2) => v.insert_iter(v2::BloomFilter::build_index_iter(&e.as_str())),
                    (f, _) => f.insert_bytes(&e),
                };
                h = h << 2
                    | match r {
                        Ok(true) => 1,
                        Ok(false) => 2,
                        Err(_) => 3,
                    };
            }
            h
        }
        Op::Merge { kind, start, n, .. } => {
            let g = twin(f, *kind, *start, *n);
            f.union_merge(&g).is_ok() as u64
        }
        Op::Intersect { kind, start, n, .. } => {
            let g = twin(f, *kind, *start, *n);
            match (f, g) {
                (BloomFilter::V2(f), BloomFilter::V2(g)) => f.intersection_merge(&g).is_ok() as u64,
                _ => 2,
            }
        }
        Op::Data { n, .. } => {
            attach(f, *n);
            1
        }
        Op::Reload { .. } => {
            let b = bytes(f);
            match BloomFilter::from_reader(std::io::Cursor::new(&b)) {
                Ok(g) => {
                    *f = g;
                    dig_bytes(&b)
                }
                Err(_) => 0,
            }
        }
        Op::Clear { .. } => {
            f.clear();
            1
        }
        _ => unreachable!(),
    }
}
