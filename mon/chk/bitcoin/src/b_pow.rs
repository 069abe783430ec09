use crate::model::{get_compact, set_compact, Compact};
use bitcoin::{pow::*, GetCompact, SetCompact};
use mon::rand::Rng;
use mon::*;
use num_bigint::BigUint;
use primitive_types::U256;

fn big(u: &U256) -> BigUint {
    let mut b = [0u8; 32];
    u.to_little_endian(&mut b);
    BigUint::from_bytes_le(&b)
}
fn u256(b: &BigUint) -> U256 {
    U256::from_little_endian(&b.to_bytes_le())
}

fn check_bits(c: &mut Case, bits: u32) {
    let Ok(got) = guard(|| U256::set_compact(bits)) else {
        c.violate("set_compact: panic", format!("{bits:08x}"));
        return;
    };
    match (set_compact(bits), got) {
        (Compact::Val(v), Some(g)) => {
            if big(&g) != v {
                c.violate("set_compact: wrong value", format!("{bits:08x} -> {g}"));
            }
        }
        (Compact::Val(_), None) => c.violate("set_compact: rejects a valid target", format!("{bits:08x}")),
        (_, Some(g)) => c.violate("set_compact: accepts a negative or overflowing target", format!("{bits:08x} -> {g}")),
        _ => {}
    }
}

pub fn run(m: &Mon) {
    m.rule("stream bits: compact encodings (structured: every exponent x boundary and random mantissas, and uniform 32-bit values; the thorough run enumerates all 2^32). stream value: 256-bit values of every bit length. stream retarget: previous target of every size up to the limit, time spans around the clamps. State = distinct (exponent, mantissa class) / value / (target, span). Oracle: Bitcoin Core's arith_uint256 and pow rules on big integers.");
    m.stream("bits", 4096, 1, |c, r| {
        let e = (c.index & 0xff) as u32;
        let edges = [0u32, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7f_ffff, 0x80_0000, 0x80_0001, 0x80_00ff, 0xff_ffff];
        for m in edges {
            check_bits(c, e << 24 | m);
        }
        for _ in 0..300 {
            let b = e << 24 | (r.gen::<u32>() & 0xff_ffff) >> r.gen_range(0..24);
            check_bits(c, b);
            c.state(&b.to_le_bytes());
        }
        for _ in 0..300 {
            let b: u32 = r.gen();
            check_bits(c, b);
            c.state(&b.to_le_bytes());
        }
        c.eval(615);
        c.events("compact decoded", 615);
    });
    if m.thorough {
        m.stream("all-bits", 1 << 16, 1, |c, _| {
            // big-integer oracle only where it matters: compare against u256 shift arithmetic checked in `bits`
            let hi = (c.index as u32) << 16;
            for lo in 0..=0xffffu32 {
                let bits = hi | lo;
                let size = bits >> 24;
                let word = bits & 0x7f_ffff;
                let got = U256::set_compact(bits);
                let (w, shift) = if size <= 3 { (word >> (8 * (3 - size)), 0) } else { (word, 8 * (size - 3)) };
                let fits = w == 0 || (32 - w.leading_zeros()) + shift <= 256;
                let want = if w != 0 && bits & 0x80_0000 != 0 || !fits { None } else if w == 0 { Some(U256::zero()) } else { Some(U256::from(w) << shift as usize) };
                if got != want {
                    c.violate("set_compact: wrong value", format!("{bits:08x}"));
                }
            }
            c.eval(65536);
        });
    }
    m.stream("value", 1_000_000, 30, |c, r| {
        let bl = r.gen_range(0..=256usize);
        let mut v = if bl == 0 { U256::zero() } else { U256::from_big_endian(&r.gen::<[u8; 32]>()) >> (256 - bl) };
        if r.gen_ratio(1, 4) && bl > 0 {
            v = (U256::one() << (bl - 1)).overflowing_add(U256::from(r.gen_range(0..3u32))).0;
        }
        if r.gen_ratio(1, 4) && bl > 0 && bl < 256 {
            v = (U256::one() << bl) - 1 - U256::from(r.gen_range(0..2u32));
        }
        let mut kb = [0u8; 32];
        v.to_little_endian(&mut kb);
        c.state(&kb);
        let ctx = || format!("{v:x}");
        if let Some(g) = c.total("get_compact", ctx, || v.get_compact()) {
            c.eq(g, Some(get_compact(&big(&v))), "get_compact: differs from Bitcoin's compact encoding", ctx);
            // truncation only: decoding gives the largest representable value not above v
            if let Some(g) = g {
                if let Some(d) = c.total("set_compact", ctx, || U256::set_compact(g)) {
                    c.check(d.map(|d| d <= v && d.get_compact() == Some(g)).unwrap_or(false), "compact encoding does not round down or is not idempotent", || format!("{} -> {g:08x} -> {d:?}", ctx()));
                }
            }
        }
    });
    let limit = BigUint::from_bytes_be(&{
        let mut b = [0u8; 32];
        for x in b.iter_mut().skip(4) {
            *x = 0xff;
        }
        b
    });
    m.stream("retarget", 1_000_000, 30, |c, r| {
        let bl = r.gen_range(1..=224usize);
        let mut prev = BigUint::from_bytes_be(&r.gen::<[u8; 32]>()) >> (256 - bl);
        if r.gen() {
            // representable targets, as stored by the relay
            if let Compact::Val(v) = set_compact(get_compact(&prev)) {
                prev = v;
            }
        }
        let ts: u64 = 14 * 24 * 60 * 60;
        let span: i64 = match r.gen_range(0..6) {
            0 => ts as i64 / 4 + r.gen_range(-2..3),
            1 => ts as i64 * 4 + r.gen_range(-2..3),
            2 => ts as i64 + r.gen_range(-2..3),
            3 => -r.gen_range(0..10_000_000),
            4 => r.gen_range(0..20_000_000),
            _ => weird_u64(r) as i64 / 4,
        };
        let first = match r.gen_range(0..3) {
            0 => weird_u64(r) / 4,
            1 => 1_600_000_000,
            _ => 10_000_000,
        } as i64;
        let last = (first + span).max(0);
        let (first, last) = (first as u64, last as u64);
        let sp = (last.saturating_sub(first)).clamp(ts / 4, ts * 4);
        c.event(if sp == ts / 4 { "clamped low" } else if sp == ts * 4 { "clamped high" } else { "not clamped" });
        let mut want = &prev * sp / ts;
        if want > limit {
            want = limit.clone();
            c.event("limited");
        }
        let want = get_compact(&want);
        c.state(format!("{prev}{sp}").as_bytes());
        c.sample(|| format!("prev {prev:x} span {sp} -> {want:08x}"));
        let ctx = || format!("prev {prev:x} first {first} last {last}");
        match c.total("calculate_next_work_required", ctx, || calculate_next_work_required(u256(&prev), first, last)) {
            Some(Ok(g)) => {
                c.eq(g, want, "retarget: differs from Bitcoin's difficulty rule", ctx);
            }
            Some(Err(e)) => c.violate("retarget: fails", format!("{e:?} {}", ctx())),
            None => {}
        }
    });
    m.require("compact decoded", 100_000);
    m.require("clamped low", 1000);
    m.require("clamped high", 1000);
    m.require("not clamped", 1000);
    m.require("limited", 100);
}
