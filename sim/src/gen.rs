//! Seed to plan: one generator per property, all choices from one PRNG.

use crate::refimpl::sizing;
use crate::rng::Rng;
use crate::simio::*;
use crate::world::*;

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let ops = match prop {
        "C01" => mixed(&mut r, true),
        "C02" => reload(&mut r),
        "C03" => failing_saves(&mut r),
        "C04" => damaged(&mut r),
        "C05" => capacity(&mut r),
        "C06" => merges(&mut r),
        "C23" => common(&mut r),
        "C13" => exchange(&mut r),
        "C14" => metadata(&mut r),
        "C17" => fpp(&mut r),
        "C19" => clears(&mut r),
        "C25" => match r.below(3) {
            0 => mixed(&mut r, true),
            1 => merges(&mut r),
            _ => clears(&mut r),
        },
        _ => mixed(&mut r, true),
    };
    Plan { prop: prop.into(), seed, ops }
}

/// one small filter and one kind of fault, at every byte of its file
pub fn sweep(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let max = if r.chance(1, 8) { 14_000 } else { 5_000 };
    let base = gen_cfg(r, max, None);
    let mut ops = vec![Op::Create { s: 0, cfg: base, api: 0 }];
    let data = if r.chance(1, 3) { r.logu(1, 600) } else { 0 };
    if data > 0 {
        ops.push(Op::Data { s: 0, n: data as u32 });
    }
    ops.push(ins_range(r, 0, base.cap));
    ops.push(Op::Save { s: 0, f: 0, w: WPlan::plain() });
    let len = size_of(&base) + data;
    let (w, mut p) = (wplan(r), rplan(r));
    let sticky = r.chance(1, 2);
    let kind = r.below(5) as u8;
    let api = if r.chance(1, 10) { 2 } else { r.below(2) as u8 };
    let how = r.below(4);
    let partial = r.chance(1, 4);
    if p.offset > 100 {
        p.offset = 7;
    }
    for at in 0..len {
        ops.push(match prop {
            "C03" => {
                let fault = match how {
                    0 => WFault::Zero { at },
                    _ => WFault::Err { at, kind, sticky },
                };
                Op::Save { s: 0, f: 1, w: WPlan { fault, ..w.clone() } }
            }
            "C14" => Op::Partial { f: 0, r: RPlan { fault: RFault::Err { at, kind, sticky }, ..p.clone() } },
            // C04
            _ if how < 2 => Op::Damaged { f: 0, d: Damage::Truncate(at), r: p.clone(), partial, api },
            _ => Op::Damaged { f: 0, d: Damage::Truncate(len), r: RPlan { fault: RFault::Err { at, kind, sticky }, ..p.clone() }, partial, api },
        });
    }
    if prop != "C03" {
        for nth in 1..8 {
            let r = RPlan { fault: RFault::Seek { nth }, ..p.clone() };
            ops.push(if prop == "C14" { Op::Partial { f: 0, r } } else { Op::Damaged { f: 0, d: Damage::Truncate(len), r, partial: true, api: 0 } });
        }
    }
    Plan { prop: prop.into(), seed, ops }
}

pub fn size_of(c: &Cfg) -> u64 {
    let s = sizing(c.v, c.cap, c.p(), c.opt);
    if c.v == 1 {
        48 + s.m / 8
    } else {
        56 + s.cache_bytes + s.n_buckets * 4096
    }
}

fn gen_fpp(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.5,
        1 => 0.9,
        2 => 1.0,
        3 => 1e-12,
        4 => *r.pick(&[1e-30, 1e-100, 1e-300, f64::MIN_POSITIVE]),
        5 => *r.pick(&[0.7, 0.99, 0.999_999, 0.25]),
        6 | 7 => 0.001,
        8 => 0.01,
        9 => 0.1,
        _ => (-r.f64() * 20.0).exp(),
    }
}

/// capacity biased to bucket boundaries, bounded so that the filter stays below `max` bytes
pub fn gen_cfg(r: &mut Rng, max: u64, v: Option<u8>) -> Cfg {
    loop {
        let v = v.unwrap_or(if r.chance(3, 10) { 1 } else { 2 });
        if r.chance(1, 30) {
            // enormous capacities, at probabilities that need hardly any room for them
            let p: f64 = *r.pick(&[0.9999, 0.999_999, 0.999_999_99, 1.0]);
            let c = Cfg { v, cap: r.logu(1 << 30, 1 << 40), fpp: p.to_bits(), opt: r.below(2) as u8 * (v - 1) };
            if size_of(&c) <= max {
                return c;
            }
        }
        let p = gen_fpp(r);
        let opt = if v == 1 { *r.pick(&[0, 0, 0, 2, 3]) } else { r.below(4) as u8 };
        let bc = (32768.0 * 0.4804530139182014 / -p.ln()).min(1e9) as u64;
        let cap = match r.below(10) {
            0 => *r.pick(&[0, 1, 2, 3]),
            1 | 2 => r.range(1, 40),
            3 | 4 => r.logu(1, 3000),
            5 => {
                let b = *r.pick(&[1u64, 2, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
                b
            }
            6 | 7 => (bc * r.range(1, 9) + r.below(3)).saturating_sub(1),
            _ => r.logu(1, 100_000),
        };
        let c = Cfg { v, cap, fpp: p.to_bits(), opt };
        if size_of(&c) <= max {
            return c;
        }
    }
}

fn wplan(r: &mut Rng) -> WPlan {
    let chunk = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 9) as u32,
        3 => r.logu(10, 10_000) as u32,
        4 => *r.pick(&[4095, 4096, 4097, 8191, 8192, 8193]),
        _ => r.logu(1, 100) as u32,
    };
    WPlan { chunk, eintr: if r.chance(1, 3) { r.range(2, 6) as u32 } else { 0 }, fault: WFault::None }
}

fn rplan(r: &mut Rng) -> RPlan {
    let w = wplan(r);
    RPlan {
        chunk: w.chunk,
        eintr: w.eintr,
        offset: match r.below(4) {
            0 => r.logu(1, 20_000),
            1 => *r.pick(&[1, 8, 48, 4096, 8191, 8192, 1 << 31, (1 << 32) + 5, 1 << 40]),
            _ => 0,
        },
        fault: RFault::None,
    }
}

fn write_fault(r: &mut Rng, len: u64) -> WFault {
    let at = edge(r, len);
    match r.below(8) {
        0 => WFault::Zero { at },
        1 => WFault::Flush,
        2 => WFault::Crash { at },
        3 => WFault::Err { at, kind: r.below(5) as u8, sticky: false },
        _ => WFault::Err { at, kind: r.below(5) as u8, sticky: true },
    }
}

/// a byte position, biased to the ends, the header and the buffer boundaries
fn edge(r: &mut Rng, len: u64) -> u64 {
    let p = match r.below(7) {
        0 => r.below(60),
        1 => len.saturating_sub(1 + r.below(16)),
        2 => len.saturating_sub(1 + r.below(8192)),
        3 => {
            let b = *r.pick(&[4096u64, 8192, 16384, 48, 56]);
            (b + r.below(3)).saturating_sub(1)
        }
        4 => len.saturating_sub(1),
        _ => r.below(len.max(1)),
    };
    p.min(len.saturating_sub(1))
}

fn ent(r: &mut Rng, span: u32) -> Ent {
    Ent { ty: if r.chance(1, 4) { r.range(1, 9) as u8 } else { 0 }, kind: gen_kind(r), id: r.below(span as u64) as u32 }
}

fn gen_kind(r: &mut Rng) -> u8 {
    *r.pick(&[0u8, 0, 1, 2, 2, 3, 4, 5, 5, 5, 6, 7])
}

fn ins_range(r: &mut Rng, s: usize, cap: u64) -> Op {
    let n = match r.below(4) {
        0 => r.range(1, 8),
        1 => r.range(1, 60),
        _ => r.logu(1, cap.clamp(1, 700)),
    };
    let ty = if r.chance(1, 5) { r.range(1, 9) as u8 } else { 0 };
    let kind = *r.pick(&[0u8, 1, 2, 2, 3, 4, 5, 6]);
    Op::InsRange { s, ty, kind, start: r.below(2000) as u32, n: n as u32, via: r.below(8) as u8 }
}

/// a filter that has seen much: made elsewhere, with any number of elements on record
fn made_elsewhere(r: &mut Rng, o: &mut Vec<Op>, base: Cfg) {
    let count = match r.below(3) {
        0 => base.cap - r.below(base.cap.min(30) + 1),
        1 => r.logu(1, base.cap + 1).min(base.cap),
        _ => r.below(base.cap + 1),
    };
    o.push(Op::RefCreate { f: 0, cfg: base, data: if r.chance(1, 3) { r.logu(1, 300) as u32 } else { 0 }, count });
    o.push(Op::Load { s: 0, f: 0, r: rplan(r), api: r.below(3) as u8 });
}

fn vary(r: &mut Rng, c: &Cfg) -> Cfg {
    let mut d = *c;
    match r.below(4) {
        0 => d.opt = (d.opt + 1 + r.below(3) as u8) % 4,
        1 => d.cap = if r.chance(1, 2) { d.cap + 1 } else { d.cap.saturating_sub(1) },
        2 => d.fpp = if r.chance(1, 2) { (d.p() * 0.999_999).to_bits() } else { (d.p() * 0.5).to_bits() },
        _ => d.v = 3 - d.v,
    }
    if d.p() < f64::MIN_POSITIVE || size_of(&d) > 400_000 {
        return *c;
    }
    d
}

/// clients creating, sharing, saving, reloading, crashing and merging filters
fn mixed(r: &mut Rng, faults: bool) -> Vec<Op> {
    let base = gen_cfg(r, 60_000, None);
    let n = r.range(6, 40);
    let mut o = vec![Op::Create { s: 0, cfg: base, api: r.below(4) as u8 }];
    let len = size_of(&base);
    let live = r.range(2, SLOTS as u64) as usize;
    if r.chance(2, 3) {
        o.push(ins_range(r, 0, base.cap));
    }
    for _ in 0..n {
        let s = r.usize(live);
        let t = r.usize(live);
        let f = r.usize(live.min(FILES));
        o.push(match r.below(24) {
            0 | 1 => Op::Create { s, cfg: if r.chance(1, 6) { vary(r, &base) } else { base }, api: r.below(4) as u8 },
            2..=5 => ins_range(r, s, base.cap),
            6..=8 => Op::Ins { s, e: ent(r, 300), via: r.below(7) as u8 },
            9 | 10 => Op::Query { s, e: ent(r, 300), via: r.below(7) as u8 },
            11 => Op::Clone { s, t },
            12 | 13 => Op::Union { s, t, api: r.below(3) as u8 },
            14 => Op::Inter { s, t, api: r.below(2) as u8 },
            15..=17 => {
                let mut w = wplan(r);
                if faults && r.chance(1, 6) {
                    w.fault = write_fault(r, len);
                }
                Op::Save { s, f, w }
            }
            18..=20 => {
                let mut p = rplan(r);
                if faults && r.chance(1, 8) {
                    p.fault = RFault::Err { at: edge(r, len), kind: r.below(5) as u8, sticky: r.chance(1, 2) };
                }
                Op::Load { s, f, r: p, api: r.below(3) as u8 }
            }
            21 => if r.chance(1, 2) { Op::Crash { s } } else { Op::Clone { s, t } },
            22 => if r.chance(1, 3) { Op::Clear { s } } else { Op::Data { s, n: r.logu(0, 300) as u32 } },
            _ => Op::Probe { s, n: 10, seed: r.next() },
        });
    }
    o
}

fn reload(r: &mut Rng) -> Vec<Op> {
    let base = gen_cfg(r, 60_000, None);
    let mut o = vec![Op::Create { s: 0, cfg: base, api: r.below(4) as u8 }];
    if r.chance(1, 6) {
        made_elsewhere(r, &mut o, base);
    }
    if r.chance(1, 2) {
        o.push(Op::Data { s: 0, n: r.logu(0, 20_000) as u32 });
    }
    if r.chance(1, 3) {
        o.push(Op::Create { s: 1, cfg: base, api: 0 });
        o.push(ins_range(r, 1, base.cap));
    }
    for _ in 0..r.range(1, 8) {
        let s = if r.chance(1, 5) { 1 } else { 0 };
        for _ in 0..r.below(3) {
            o.push(ins_range(r, s, base.cap));
        }
        if r.chance(1, 3) {
            o.push(Op::Ins { s, e: ent(r, 100), via: r.below(7) as u8 });
        }
        match r.below(8) {
            0 => o.push(Op::Union { s: 0, t: 1, api: r.below(3) as u8 }),
            1 => o.push(Op::Inter { s: 0, t: 1, api: 0 }),
            2 => o.push(Op::Data { s, n: r.logu(0, 3000) as u32 }),
            3 => o.push(Op::Clear { s }),
            _ => {}
        }
        let f = r.usize(2);
        o.push(Op::Save { s, f, w: wplan(r) });
        if r.chance(2, 3) {
            o.push(Op::Crash { s });
        }
        o.push(Op::Load { s, f, r: rplan(r), api: r.below(3) as u8 });
        if r.chance(1, 3) {
            o.push(Op::Probe { s, n: 30, seed: r.next() });
        }
    }
    o
}

fn failing_saves(r: &mut Rng) -> Vec<Op> {
    let base = gen_cfg(r, 60_000, None);
    let mut o = vec![Op::Create { s: 0, cfg: base, api: 0 }];
    let data = if r.chance(1, 2) { r.logu(1, 20_000) } else { 0 };
    if data > 0 {
        o.push(Op::Data { s: 0, n: data as u32 });
    }
    if r.chance(2, 3) {
        o.push(ins_range(r, 0, base.cap));
    }
    let len = size_of(&base) + data;
    for _ in 0..r.range(1, 8) {
        let mut w = wplan(r);
        if r.chance(5, 6) {
            w.fault = write_fault(r, len + 8);
        }
        let crash = matches!(w.fault, WFault::Crash { .. });
        o.push(Op::Save { s: 0, f: 0, w });
        if crash {
            // restart from the last good copy
            o.push(Op::Load { s: 0, f: 1, r: RPlan::plain(), api: 0 });
        } else if r.chance(1, 2) {
            o.push(Op::Save { s: 0, f: 1, w: WPlan::plain() });
            if r.chance(1, 3) {
                o.push(ins_range(r, 0, base.cap));
            }
        }
    }
    o
}

/// something wrong with the bytes of a filter file
pub fn damage(r: &mut Rng, base: &Cfg, len: u64) -> Damage {
    let sz = sizing(base.v, base.cap, base.p(), base.opt);
    let nb_off = 48 + sz.cache_bytes;
    match r.below(9) {
        0 | 1 => Damage::Truncate(edge(r, len)),
        2 | 3 => {
            // a header field takes an extreme value
            let mut fields = vec![0u64, 1, 8, 16, 24, 32, 40];
            if base.v == 2 {
                fields.extend([40, nb_off, nb_off, 40]);
            } else {
                fields.extend([32, 32]);
            }
            let f = *r.pick(&fields);
            if f <= 1 {
                Damage::Patch(f, vec![r.below(256) as u8])
            } else if f == 16 {
                let v = *r.pick(&[0.0f64, -1.0, 1.5, f64::NAN, f64::INFINITY, -0.0, 5e-324, 1.0, 1e-9]);
                Damage::Patch(f, v.to_le_bytes().to_vec())
            } else {
                let v = match r.below(9) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => u64::MAX / 2,
                    3 => 1 << r.below(64),
                    4 => r.next(),
                    5 => r.below(4096),
                    6 => (1u64 << 52) + r.below(3) - 1,
                    7 => u64::MAX - r.below(70_000),
                    _ => r.logu(1, 1 << 44),
                };
                Damage::Patch(f, v.to_le_bytes().to_vec())
            }
        }
        4 => Damage::Flip(r.below(64).min(len - 1), 1 << r.below(8)),
        5 => Damage::Flip(r.below(len), r.range(1, 255) as u8),
        6 => {
            let n = r.logu(0, 200) as usize;
            let mut b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            if n > 2 && r.chance(3, 4) {
                b[0] = r.range(1, 2) as u8;
                b[1] = r.below(4) as u8;
                if n >= 24 {
                    b[16..24].copy_from_slice(&0.01f64.to_le_bytes());
                }
            }
            Damage::Replace(b)
        }
        7 => {
            // several fields at once
            let n = r.range(1, 40) as usize;
            let at = r.below(48 - 7);
            Damage::Patch(at.max(2), (0..n.min(46 - at as usize)).map(|_| r.next() as u8).collect())
        }
        _ => Damage::Truncate(r.below(60)),
    }
}

fn damaged(r: &mut Rng) -> Vec<Op> {
    let base = gen_cfg(r, 40_000, None);
    let mut o = vec![Op::Create { s: 0, cfg: base, api: 0 }];
    let data = if r.chance(1, 3) { r.logu(1, 9000) } else { 0 };
    if data > 0 {
        o.push(Op::Data { s: 0, n: data as u32 });
    }
    if r.chance(2, 3) {
        o.push(ins_range(r, 0, base.cap));
    }
    o.push(Op::Save { s: 0, f: 0, w: WPlan::plain() });
    let len = size_of(&base) + data;
    for _ in 0..r.range(3, 14) {
        let mut p = rplan(r);
        let d = if r.chance(1, 10) {
            p.fault = if r.chance(1, 4) {
                RFault::Seek { nth: r.range(1, 4) as u32 }
            } else {
                RFault::Err { at: edge(r, len + 1), kind: r.below(5) as u8, sticky: r.chance(1, 2) }
            };
            Damage::Truncate(len)
        } else {
            damage(r, &base, len)
        };
        o.push(Op::Damaged { f: 0, d, r: p, partial: r.chance(1, 4), api: if r.chance(1, 10) { 2 } else { r.below(2) as u8 } });
    }
    if r.chance(1, 6) {
        // a torn save, then a restart that tries to load it
        o.push(Op::Save { s: 0, f: 1, w: WPlan { chunk: 0, eintr: 0, fault: WFault::Crash { at: edge(r, len) } } });
        o.push(Op::Load { s: 1, f: 1, r: rplan(r), api: r.below(3) as u8 });
    }
    o
}

fn capacity(r: &mut Rng) -> Vec<Op> {
    let mut base = gen_cfg(r, 30_000, None);
    if r.chance(2, 3) {
        base.cap = *r.pick(&[0, 1, 2, 3, 5, 8, 10, 16, 33, 64, 100, 250]);
    }
    if size_of(&base) > 200_000 {
        base.fpp = 0.01f64.to_bits();
    }
    let cap = base.cap.min(600);
    let mut o = vec![Op::Create { s: 0, cfg: base, api: r.below(4) as u8 }, Op::Create { s: 1, cfg: base, api: 0 }];
    if r.chance(1, 6) {
        made_elsewhere(r, &mut o, base);
    }
    for _ in 0..r.range(2, 12) {
        let s = r.usize(2);
        match r.below(10) {
            0..=3 => o.push(Op::InsRange {
                s,
                ty: if r.chance(1, 4) { r.range(1, 4) as u8 } else { 0 },
                kind: *r.pick(&[0u8, 1, 2, 4, 5]),
                start: r.below(3 * cap + 4) as u32,
                n: r.range(1, cap + 6) as u32,
                via: r.below(8) as u8,
            }),
            4 => o.push(Op::Ins { s, e: ent(r, 2 * cap as u32 + 4), via: r.below(7) as u8 }),
            5 => o.push(Op::Union { s: 0, t: 1, api: r.below(3) as u8 }),
            6 => {
                o.push(Op::Save { s, f: 0, w: wplan(r) });
                o.push(Op::Load { s, f: 0, r: rplan(r), api: r.below(3) as u8 });
            }
            7 => o.push(if r.chance(1, 3) { Op::Clear { s } } else { Op::Clone { s, t: 1 - s } }),
            8 => o.push(Op::Inter { s: 0, t: 1, api: 0 }),
            _ => {
                // right at the boundary: fill exactly, then one more
                o.push(Op::InsRange { s, ty: 0, kind: 2, start: 50_000, n: cap as u32, via: r.below(8) as u8 });
                o.push(Op::InsRange { s, ty: 0, kind: 4, start: 90_000, n: 3, via: r.below(8) as u8 });
                o.push(Op::InsRange { s, ty: 0, kind: 2, start: 50_000, n: 3, via: r.below(7) as u8 });
            }
        }
    }
    o
}

fn merges(r: &mut Rng) -> Vec<Op> {
    let base = gen_cfg(r, 60_000, None);
    let parts = r.range(2, SLOTS as u64) as usize;
    let hashed = r.chance(2, 3);
    let mut o = vec![];
    for s in 0..parts {
        let cfg = if r.chance(1, 8) { vary(r, &base) } else { base };
        o.push(Op::Create { s, cfg, api: r.below(4) as u8 });
        if r.chance(1, 6) {
            o.push(Op::Data { s, n: r.logu(1, 200) as u32 });
        }
    }
    let share = (base.cap / parts as u64).clamp(1, 900);
    for s in 0..parts {
        for _ in 0..r.range(1, 2) {
            let kind = if hashed { *r.pick(&[2u8, 2, 4, 3]) } else { gen_kind(r) % 7 };
            o.push(Op::InsRange {
                s,
                ty: if !hashed && r.chance(1, 4) { r.range(1, 4) as u8 } else { 0 },
                kind,
                start: r.below(2 * share + 1) as u32,
                n: r.logu(1, share) as u32,
                via: r.below(7) as u8,
            });
        }
    }
    for _ in 0..r.range(1, 7) {
        let s = r.usize(parts);
        let t = r.usize(parts);
        match r.below(9) {
            0..=4 => o.push(Op::Union { s, t, api: r.below(3) as u8 }),
            5 => o.push(Op::Inter { s, t, api: r.below(2) as u8 }),
            6 => {
                o.push(Op::Save { s, f: 0, w: wplan(r) });
                o.push(Op::Load { s, f: 0, r: rplan(r), api: r.below(3) as u8 });
            }
            7 => o.push(ins_range(r, s, share)),
            _ => o.push(Op::Clone { s, t }),
        }
    }
    o
}

/// the histories of the merge property, with comparisons in between
fn common(r: &mut Rng) -> Vec<Op> {
    let mut o = vec![];
    for op in merges(r) {
        let pair = match &op {
            Op::Union { s, t, .. } | Op::Inter { s, t, .. } | Op::Clone { s, t } => Some((*s, *t)),
            Op::Load { s, .. } => Some((*s, r.usize(SLOTS))),
            _ => None,
        };
        if let Some((s, t)) = pair {
            o.push(Op::Common { s, t });
        }
        o.push(op);
        if let Some((s, t)) = pair {
            o.push(Op::Common { s, t: if r.chance(1, 6) { s } else { t } });
        }
    }
    o
}

fn exchange(r: &mut Rng) -> Vec<Op> {
    let base = gen_cfg(r, 50_000, None);
    let mut o = vec![];
    for f in 0..2 {
        if r.chance(1, 2) {
            o.push(Op::Create { s: f, cfg: base, api: r.below(4) as u8 });
            o.push(Op::Save { s: f, f, w: WPlan::plain() });
        } else {
            let most = r.logu(1, base.cap + 1).min(base.cap + 1);
            let count = if r.chance(1, 3) { base.cap - r.below(most) } else { 0 };
            o.push(Op::RefCreate { f, cfg: base, data: if r.chance(1, 3) { r.logu(1, 300) as u32 } else { 0 }, count });
        }
    }
    for _ in 0..r.range(2, 9) {
        let f = r.usize(2);
        let kind = gen_kind(r);
        let (start, n) = (r.below(200) as u32, r.range(1, 60) as u32);
        let ty = *r.pick(&[0u8, 0, 0, 1, 2]);
        match r.below(8) {
            0..=2 => o.push(Op::RefTurn { f, ty, kind, start, n }),
            3..=5 => {
                let s = f;
                o.push(Op::Load { s, f, r: rplan(r), api: r.below(3) as u8 });
                o.push(Op::InsRange { s, ty, kind, start, n, via: r.below(8) as u8 });
                o.push(Op::Probe { s, n: 20, seed: r.next() });
                o.push(Op::Save { s, f, w: wplan(r) });
            }
            6 => o.push(Op::RefMerge { f, g: 1 - f }),
            _ => {
                o.push(Op::Load { s: 0, f: 0, r: RPlan::plain(), api: 0 });
                o.push(Op::Load { s: 1, f: 1, r: RPlan::plain(), api: 0 });
                o.push(Op::Union { s: 0, t: 1, api: r.below(3) as u8 });
                o.push(Op::Save { s: 0, f: 0, w: WPlan::plain() });
            }
        }
    }
    o.push(Op::Load { s: 2, f: 0, r: rplan(r), api: 0 });
    o.push(Op::RefTurn { f: 0, ty: 0, kind: 2, start: 0, n: 1 });
    o
}

fn metadata(r: &mut Rng) -> Vec<Op> {
    let base = gen_cfg(r, 60_000, None);
    let mut o = vec![Op::Create { s: 0, cfg: base, api: 0 }];
    if r.chance(1, 6) {
        made_elsewhere(r, &mut o, base);
    }
    let mut data = 0;
    if r.chance(2, 3) {
        data = r.logu(1, 20_000);
        o.push(Op::Data { s: 0, n: data as u32 });
    }
    for _ in 0..r.range(1, 5) {
        if r.chance(2, 3) {
            o.push(ins_range(r, 0, base.cap));
        }
        o.push(Op::Save { s: 0, f: 0, w: wplan(r) });
        for _ in 0..r.range(1, 3) {
            let mut p = rplan(r);
            match r.below(6) {
                0 => p.fault = RFault::Err { at: edge(r, size_of(&base) + data), kind: r.below(5) as u8, sticky: r.chance(1, 2) },
                1 => p.fault = RFault::Seek { nth: r.range(1, 3) as u32 },
                _ => {}
            }
            o.push(Op::Partial { f: 0, r: p });
        }
    }
    o
}

fn fpp(r: &mut Rng) -> Vec<Op> {
    // big enough to measure, small enough to be quick
    let cfg = loop {
        let p = *r.pick(&[0.001, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.9]);
        let mut c = gen_cfg(r, 120_000, Some(2));
        c.fpp = f64::to_bits(p);
        if c.cap >= 2 && c.cap <= 30_000 && size_of(&c) <= 120_000 {
            break c;
        }
    };
    let mut o = vec![Op::Create { s: 0, cfg, api: r.below(4) as u8 }, Op::Create { s: 1, cfg, api: 0 }];
    let cap = cfg.cap as u32;
    // short entries are not hashed, so their rate depends on the data
    let kind = *r.pick(&[2u8, 2, 4]);
    let n = (100.0 / cfg.p()).clamp(3000.0, 100_000.0) as u32;
    let ty = 0;
    let via = 0;
    let mut next = 0u32;
    match r.below(5) {
        0 => o.push(Op::InsRange { s: 0, ty, kind, start: 0, n: cap, via }),
        1 => {
            // merged from parts
            let cut = r.range(1, cap as u64) as u32;
            o.push(Op::InsRange { s: 0, ty, kind, start: 0, n: cut, via });
            o.push(Op::InsRange { s: 1, ty, kind, start: cut, n: cap - cut, via });
            o.push(Op::Union { s: 0, t: 1, api: r.below(3) as u8 });
        }
        2 => {
            // filled, cleared, refilled with something else
            for _ in 0..r.range(1, 3) {
                o.push(Op::InsRange { s: 0, ty, kind, start: next, n: cap, via });
                next += cap;
                o.push(Op::Clear { s: 0 });
            }
            o.push(Op::Fpp { s: 0, n: 1500, kind });
            o.push(Op::InsRange { s: 0, ty, kind, start: next, n: r.range(1, cap as u64) as u32, via });
        }
        3 => {
            // reloaded on the way
            let cut = r.range(1, cap as u64) as u32;
            o.push(Op::InsRange { s: 0, ty, kind, start: 0, n: cut, via });
            o.push(Op::Save { s: 0, f: 0, w: wplan(r) });
            o.push(Op::Crash { s: 0 });
            o.push(Op::Load { s: 0, f: 0, r: rplan(r), api: r.below(3) as u8 });
            o.push(Op::InsRange { s: 0, ty, kind, start: cut, n: cap - cut, via });
        }
        _ => {
            // refused insertions must not fill it further
            o.push(Op::InsRange { s: 0, ty, kind, start: 0, n: cap, via });
            o.push(Op::InsRange { s: 0, ty, kind, start: 1 << 24, n: cap, via });
        }
    }
    o.push(Op::Fpp { s: 0, n, kind });
    o
}

fn clears(r: &mut Rng) -> Vec<Op> {
    let base = gen_cfg(r, 60_000, None);
    let mut o = vec![Op::Create { s: 0, cfg: base, api: r.below(4) as u8 }, Op::Create { s: 1, cfg: base, api: 0 }];
    if r.chance(1, 3) {
        o.push(Op::Data { s: 0, n: r.logu(1, 300) as u32 });
    }
    if r.chance(1, 2) {
        o.push(ins_range(r, 1, base.cap));
    }
    for _ in 0..r.range(1, 3) {
        for _ in 0..r.range(0, 4) {
            match r.below(6) {
                0 => o.push(Op::Union { s: 0, t: 1, api: 0 }),
                1 => o.push(Op::Inter { s: 0, t: 1, api: 0 }),
                2 => {
                    o.push(Op::Save { s: 0, f: 0, w: wplan(r) });
                    o.push(Op::Load { s: 0, f: 0, r: rplan(r), api: 0 });
                }
                _ => o.push(ins_range(r, 0, base.cap)),
            }
        }
        o.push(Op::Clear { s: 0 });
        for _ in 0..r.range(0, 4) {
            match r.below(8) {
                0 => o.push(Op::Union { s: 0, t: 1, api: 0 }),
                1 => {
                    o.push(Op::Save { s: 0, f: 0, w: wplan(r) });
                    o.push(Op::Load { s: 0, f: 0, r: rplan(r), api: 0 });
                }
                2 => o.push(Op::Probe { s: 0, n: 30, seed: r.next() }),
                3 => o.push(Op::Ins { s: 0, e: ent(r, 50), via: r.below(7) as u8 }),
                _ => o.push(ins_range(r, 0, base.cap)),
            }
        }
        o.push(Op::Probe { s: 0, n: 40, seed: r.next() });
    }
    o
}
