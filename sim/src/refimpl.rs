//! Independent implementation of the two published file formats (DCSO version 1, poppy version 2),
//! written from the layout, not from the library's code. Used as the "other implementation" that
//! takes turns with the real one on the same files.

use std::hash::Hasher;

pub const HDR: usize = 48; // bytes before the bit storage (v1) or the lookup cache (v2)
const BUCKET: usize = 4096;
const BUCKET_BITS: u64 = 32768;

#[derive(Clone, Debug, PartialEq)]
pub struct RefFilter {
    pub ver: u8,
    pub opt: u8,
    pub cap: u64,
    pub fpp: f64,
    pub k: u64,
    pub m: u64, // v1: number of bits
    pub count: u64,
    pub bits: Vec<u8>,  // v1: words as little endian bytes; v2: buckets
    pub cache: Vec<u8>, // v2 only
    pub data: Vec<u8>,
}

pub fn ln2() -> f64 {
    f64::ln(2.0)
}

/// v1 size in bits, and whether rounding makes the value ambiguous
pub fn v1_bits(cap: u64, fpp: f64) -> (u64, bool) {
    let x = (cap as f64) * f64::ln(fpp) / f64::ln(2.0).powf(2.0);
    (f64::abs(f64::ceil(x)) as u64, near_int(x))
}

fn near_int(x: f64) -> bool {
    let d = (x - x.round()).abs();
    x != 0.0 && d != 0.0 && d < 1e-9 * x.abs().max(1.0)
}

fn kf(bits: u64, cap: u64) -> (u64, bool) {
    let x = ln2() * bits as f64 / cap as f64;
    (f64::ceil(x) as u64, near_int(x))
}

fn est_p(n: u64, bits: u64) -> f64 {
    let (k, _) = kf(bits, n);
    (1.0 - f64::exp(-(k as f64) * n as f64 / bits as f64)).powf(k as f64)
}

pub struct Sizing {
    pub k: u64,
    pub m: u64,
    pub n_buckets: u64,
    pub cache_bytes: u64,
    /// floating point rounding could legitimately go either way
    pub ambiguous: bool,
}

pub fn sizing(ver: u8, cap: u64, fpp: f64, opt: u8) -> Sizing {
    if ver == 1 {
        let (m, a1) = v1_bits(cap, fpp);
        let (k, a2) = kf(m, cap);
        return Sizing { k, m, n_buckets: 0, cache_bytes: 0, ambiguous: a1 || a2 };
    }
    let bx = f64::abs(BUCKET_BITS as f64 * ln2().powf(2.0) / f64::ln(fpp));
    let bcap = bx as u64;
    let mut nb = (cap as f64 / bcap as f64).ceil() as u64;
    let (mut k, a2) = kf(BUCKET_BITS, bcap);
    let mut amb = near_int(bx) || a2 || near_int(cap as f64 / bcap as f64) && cap % bcap.max(1) != 0;
    let mut cache_bits = 0u64;
    if opt >= 2 {
        cache_bits = cap.next_power_of_two();
        if opt == 2 {
            nb = nb.next_power_of_two();
        }
        let bpe = (BUCKET_BITS as f64 / bcap as f64).round();
        let x = ln2() * est_p(cap, cache_bits) * bpe;
        k = x.ceil() as u64;
        amb |= near_int(x);
    }
    Sizing { k, m: 0, n_buckets: nb, cache_bytes: cache_bits.div_ceil(8), ambiguous: amb }
}

impl RefFilter {
    pub fn create(ver: u8, cap: u64, fpp: f64, opt: u8) -> Self {
        let s = sizing(ver, cap, fpp, opt);
        RefFilter {
            ver,
            opt: if ver == 1 { 0 } else { opt },
            cap,
            fpp,
            k: s.k,
            m: s.m,
            count: 0,
            bits: vec![0; if ver == 1 { s.m.div_ceil(64) as usize * 8 } else { s.n_buckets as usize * BUCKET }],
            cache: vec![0; s.cache_bytes as usize],
            data: vec![],
        }
    }

    pub fn write(&self) -> Vec<u8> {
        let mut o = vec![];
        o.extend_from_slice(&[self.ver, self.opt, 0, 0, 0, 0, 0, 0]);
        o.extend_from_slice(&self.cap.to_le_bytes());
        o.extend_from_slice(&self.fpp.to_bits().to_le_bytes());
        o.extend_from_slice(&self.k.to_le_bytes());
        if self.ver == 1 {
            o.extend_from_slice(&self.m.to_le_bytes());
            o.extend_from_slice(&self.count.to_le_bytes());
            o.extend_from_slice(&self.bits);
        } else {
            o.extend_from_slice(&self.count.to_le_bytes());
            o.extend_from_slice(&(self.cache.len() as u64 * 8).to_le_bytes());
            o.extend_from_slice(&self.cache);
            o.extend_from_slice(&((self.bits.len() / BUCKET) as u64).to_le_bytes());
            o.extend_from_slice(&self.bits);
        }
        o.extend_from_slice(&self.data);
        o
    }

    pub fn read(b: &[u8]) -> Option<Self> {
        let u = |o: usize| -> Option<u64> { Some(u64::from_le_bytes(b.get(o..o + 8)?.try_into().ok()?)) };
        let (ver, opt) = (*b.first()?, *b.get(1)?);
        let (cap, fpp, k) = (u(8)?, f64::from_bits(u(16)?), u(24)?);
        match ver {
            1 => {
                let (m, count) = (u(32)?, u(40)?);
                let n = (m.div_ceil(64) as usize).checked_mul(8)?;
                let bits = b.get(HDR..HDR.checked_add(n)?)?.to_vec();
                let data = b[HDR + n..].to_vec();
                Some(RefFilter { ver, opt, cap, fpp, k, m, count, bits, cache: vec![], data })
            }
            2 => {
                let (count, cb) = (u(32)?, u(40)?);
                let cn = cb.div_ceil(8) as usize;
                let cache = b.get(HDR..HDR.checked_add(cn)?)?.to_vec();
                let nb = u(HDR + cn)? as usize;
                let o = HDR + cn + 8;
                let n = nb.checked_mul(BUCKET)?;
                let bits = b.get(o..o.checked_add(n)?)?.to_vec();
                let data = b[o + n..].to_vec();
                Some(RefFilter { ver, opt, cap, fpp, k, m: 0, count, bits, cache, data })
            }
            _ => None,
        }
    }

    /// bit positions of an entry (offset in bits of `bits`), plus the lookup-cache bit
    fn positions(&self, h: EntryHash) -> (Vec<u64>, Option<u64>) {
        if self.ver == 1 {
            let mut x = h.fnv;
            const M: u64 = 18446744073709551557;
            const G: u64 = 18446744073709550147;
            x %= M;
            let mut v = vec![];
            for _ in 0..self.k {
                x = x.wrapping_mul(G) % M;
                v.push(x % self.m);
            }
            return (v, None);
        }
        let mut x = h.h64;
        let mut b = x;
        b ^= b << 12;
        b ^= b >> 25;
        b ^= b << 27;
        b = b.wrapping_mul(2685821657736338717);
        let nb = self.bits.len() as u64 / BUCKET as u64;
        let base = (b % nb) * BUCKET_BITS;
        let mut v = vec![];
        let mut y = 0u64;
        for i in 0..self.k {
            if i == 1 {
                y = wy(&x.to_be_bytes());
            }
            if i > 0 {
                x = x.wrapping_add(y);
                y = y.wrapping_add(i);
            }
            v.push(base + x % BUCKET_BITS);
        }
        let c = if self.cache.is_empty() { None } else { Some(b & (self.cache.len() as u64 * 8 - 1)) };
        (v, c)
    }

    pub fn contains(&self, h: EntryHash) -> bool {
        if self.cap == 0 {
            return false;
        }
        let (v, c) = self.positions(h);
        c.map_or(true, |c| bit(&self.cache, c)) && v.iter().all(|p| bit(&self.bits, *p))
    }

    pub fn insert(&mut self, h: EntryHash) -> Result<bool, ()> {
        if self.cap == 0 {
            return Err(());
        }
        let (v, c) = self.positions(h);
        let new = v.iter().any(|p| !bit(&self.bits, *p));
        if new && self.count >= self.cap {
            return Err(());
        }
        for p in v {
            self.bits[(p / 8) as usize] |= 1 << (p % 8);
        }
        if let Some(c) = c {
            self.cache[(c / 8) as usize] |= 1 << (c % 8);
        }
        if new {
            self.count += 1;
        }
        Ok(new)
    }

    /// union with a filter of equal parameters; the count is left alone
    pub fn or(&mut self, o: &Self) {
        for (a, b) in self.bits.iter_mut().zip(&o.bits) {
            *a |= b
        }
        for (a, b) in self.cache.iter_mut().zip(&o.cache) {
            *a |= b
        }
    }

    pub fn ones(&self) -> u64 {
        self.bits.iter().map(|b| b.count_ones() as u64).sum()
    }
}

fn bit(v: &[u8], p: u64) -> bool {
    v[(p / 8) as usize] >> (p % 8) & 1 == 1
}

pub fn wy(b: &[u8]) -> u64 {
    let mut h = wyhash::WyHash::with_seed(0x706f707079533d42);
    h.write(b);
    h.finish()
}

#[derive(Clone, Copy, Debug)]
pub struct EntryHash {
    pub fnv: u64,
    pub h64: u64,
}

/// Hash of a byte-string entry. Up to eight bytes are taken as a zero padded little endian number.
pub fn hash_bytes(b: &[u8]) -> EntryHash {
    let mut f = 14695981039346656037u64;
    for x in b {
        f = f.wrapping_mul(1099511628211);
        f ^= *x as u64;
    }
    let h64 = if b.len() <= 8 {
        let mut t = [0u8; 8];
        t[..b.len()].copy_from_slice(b);
        u64::from_le_bytes(t)
    } else {
        wy(b)
    };
    EntryHash { fnv: f, h64 }
}
