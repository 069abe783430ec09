//! Independent model of Bitcoin's consensus serialization, merkle trees and compact targets.
//! Nothing here calls the crate under test.
use mon::rand::Rng;
use mon::*;
use sha2::{Digest, Sha256};

pub fn dsha(b: &[u8]) -> [u8; 32] {
    let a = Sha256::digest(b);
    let a = Sha256::digest(&a);
    a.into()
}

#[derive(Clone, Debug, PartialEq)]
pub struct MIn {
    pub prev: [u8; 32],
    pub index: u32,
    /// complete script bytes as serialized
    pub script: Vec<u8>,
    pub seq: u32,
    pub wit: Vec<Vec<u8>>,
    /// Some(h): the script starts with the BIP34 push of h
    pub height: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MTx {
    pub version: i32,
    pub ins: Vec<MIn>,
    pub outs: Vec<(i64, Vec<u8>)>,
    pub lock: u32,
}

pub fn varint(v: &mut Vec<u8>, n: u64) {
    if n <= 0xfc {
        v.push(n as u8)
    } else if n <= 0xffff {
        v.push(0xfd);
        v.extend((n as u16).to_le_bytes())
    } else if n <= 0xffff_ffff {
        v.push(0xfe);
        v.extend((n as u32).to_le_bytes())
    } else {
        v.push(0xff);
        v.extend(n.to_le_bytes())
    }
}

/// BIP34 push: length byte, then the minimal little-endian two's-complement-free script number.
pub fn bip34(h: u32) -> Vec<u8> {
    let mut n = vec![];
    let mut x = h;
    while x > 0 {
        n.push((x & 0xff) as u8);
        x >>= 8;
    }
    if n.is_empty() {
        n.push(0);
    }
    if n[n.len() - 1] >= 0x80 {
        n.push(0);
    }
    let mut r = vec![n.len() as u8];
    r.extend(n);
    r
}

impl MTx {
    pub fn has_wit(&self) -> bool {
        self.ins.iter().any(|i| !i.wit.is_empty())
    }
    pub fn ser(&self, with_wit: bool) -> Vec<u8> {
        let mut v = vec![];
        v.extend(self.version.to_le_bytes());
        let w = with_wit && self.has_wit();
        if w {
            v.extend([0, 1]);
        }
        varint(&mut v, self.ins.len() as u64);
        for i in &self.ins {
            v.extend(i.prev);
            v.extend(i.index.to_le_bytes());
            varint(&mut v, i.script.len() as u64);
            v.extend(&i.script);
            v.extend(i.seq.to_le_bytes());
        }
        varint(&mut v, self.outs.len() as u64);
        for (a, s) in &self.outs {
            v.extend(a.to_le_bytes());
            varint(&mut v, s.len() as u64);
            v.extend(s);
        }
        if w {
            for i in &self.ins {
                varint(&mut v, i.wit.len() as u64);
                for x in &i.wit {
                    varint(&mut v, x.len() as u64);
                    v.extend(x);
                }
            }
        }
        v.extend(self.lock.to_le_bytes());
        v
    }
    pub fn txid(&self) -> [u8; 32] {
        dsha(&self.ser(false))
    }
    pub fn wtxid(&self) -> [u8; 32] {
        dsha(&self.ser(true))
    }
}

pub const EDGE_LEN: &[usize] = &[0, 1, 2, 22, 23, 25, 34, 74, 75, 76, 77, 83, 100, 107, 251, 252, 253, 254, 255, 256, 257, 519, 520, 521];
pub const BIG_LEN: &[usize] = &[9_999, 10_000, 65_533, 65_534, 65_535, 65_536, 65_537];

pub fn any_len(r: &mut R, max: usize) -> usize {
    let l = match r.gen_range(0..20) {
        0..=9 => *pick(r, EDGE_LEN),
        10 => *pick(r, BIG_LEN),
        _ => r.gen_range(0..200),
    };
    l.min(max)
}
/// Count biased to varint boundaries.
pub fn any_count(r: &mut R, rare_big: bool) -> usize {
    match r.gen_range(0..60) {
        0 if rare_big => *pick(r, &[251, 252, 253, 254, 255, 256, 300]),
        _ => r.gen_range(1..5),
    }
}
pub fn any_height(r: &mut R) -> u32 {
    let edges = [0u32, 1, 16, 17, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216, 0x7fff_ffff];
    match r.gen_range(0..4) {
        0 => *pick(r, &edges),
        1 => r.gen_range(0..1000),
        2 => r.gen_range(100_000..2_000_000),
        _ => r.gen::<u32>() >> r.gen_range(1..31),
    }
}

pub fn any_tx(r: &mut R) -> MTx {
    let coinbase = r.gen_ratio(1, 5);
    let version = if r.gen() { 1 } else { 2 };
    let segwit = r.gen();
    let n_in = if coinbase { 1 } else { any_count(r, true) };
    let small = n_in > 10;
    let mut ins = vec![];
    for _ in 0..n_in {
        let mut i = MIn {
            prev: r.gen(),
            index: weird_u32(r),
            script: vec![],
            seq: weird_u32(r),
            wit: vec![],
            height: None,
        };
        if r.gen_ratio(1, 12) {
            i.prev = [0; 32];
            i.prev[r.gen_range(0..32)] = r.gen_range(1..=255); // nearly null
        }
        if coinbase {
            i.prev = [0; 32];
            i.index = u32::MAX;
            if version == 2 {
                let h = any_height(r);
                i.height = Some(h);
                i.script = bip34(h);
                let extra = *pick(r, &[0, 1, 3, 50, 99, 100]);
                i.script.extend(bytes(r, extra));
            } else {
                let l = *pick(r, &[0, 2, 50, 99, 100]);
                i.script = bytes(r, l);
            }
        } else {
            let l = if small { r.gen_range(0..30) } else { any_len(r, usize::MAX) };
            i.script = bytes(r, l);
        }
        if segwit && r.gen_ratio(2, 3) {
            let k = match r.gen_range(0..30) {
                0 => *pick(r, &[252, 253, 254]),
                _ => r.gen_range(0..4),
            };
            for _ in 0..k {
                let l = if small || k > 5 { r.gen_range(0..4) } else { any_len(r, usize::MAX) };
                i.wit.push(bytes(r, l));
            }
        }
        ins.push(i);
    }
    let n_out = if r.gen_ratio(1, 50) { 0 } else { any_count(r, true) };
    let small = n_out > 10;
    let mut outs = vec![];
    for _ in 0..n_out {
        let v = match r.gen_range(0..5) {
            0 => 0,
            1 => 21_000_000i64 * 100_000_000,
            2 => r.gen::<i64>(),
            _ => r.gen_range(0..1_000_000_000_000),
        };
        let l = if small { r.gen_range(0..30) } else { any_len(r, 10_000) };
        outs.push((v, bytes(r, l)));
    }
    let lock = match r.gen_range(0..4) {
        0 => 0,
        1 => *pick(r, &[499_999_999u32, 500_000_000, 500_000_001, u32::MAX]),
        _ => weird_u32(r),
    };
    MTx { version, ins, outs, lock }
}

// ------------------------------------------------------------------ merkle

pub fn merkle_levels(leaves: &[[u8; 32]]) -> Vec<Vec<[u8; 32]>> {
    let mut lv = vec![leaves.to_vec()];
    while lv.last().unwrap().len() > 1 {
        let cur = lv.last().unwrap();
        let mut nx = vec![];
        for p in cur.chunks(2) {
            let l = p[0];
            let r = *p.get(1).unwrap_or(&l);
            nx.push(dsha(&[&l[..], &r[..]].concat()));
        }
        lv.push(nx);
    }
    lv
}

/// Partial merkle tree of Bitcoin Core (CPartialMerkleTree), for any set of matches.
pub fn build_partial(leaves: &[[u8; 32]], matches: &[bool]) -> (Vec<bool>, Vec<[u8; 32]>) {
    let lv = merkle_levels(leaves);
    let mut bits = vec![];
    let mut hashes = vec![];
    fn rec(lv: &[Vec<[u8; 32]>], m: &[bool], h: usize, pos: usize, bits: &mut Vec<bool>, hashes: &mut Vec<[u8; 32]>) {
        let lo = pos << h;
        let hi = ((pos + 1) << h).min(m.len());
        let any = m[lo..hi].iter().any(|x| *x);
        bits.push(any);
        if h == 0 || !any {
            hashes.push(lv[h][pos]);
        } else {
            rec(lv, m, h - 1, pos * 2, bits, hashes);
            if pos * 2 + 1 < lv[h - 1].len() {
                rec(lv, m, h - 1, pos * 2 + 1, bits, hashes);
            }
        }
    }
    rec(&lv, matches, lv.len() - 1, 0, &mut bits, &mut hashes);
    (bits, hashes)
}

pub struct Extracted {
    pub root: [u8; 32],
    pub matches: Vec<(u32, [u8; 32])>,
    pub duplicate_branch: bool,
}

/// Verification as in Bitcoin Core's ExtractMatches; `None` when the proof is malformed.
pub fn extract(count: u32, bits: &[bool], hashes: &[[u8; 32]]) -> Option<Extracted> {
    if count == 0 || count > 4_000_000 / 240 || hashes.len() > bits.len() {
        return None;
    }
    let width = |h: u32| ((count as u64 + (1u64 << h) - 1) >> h) as u32;
    let mut height = 0;
    while width(height) > 1 {
        height += 1;
    }
    struct S<'a> {
        bits: &'a [bool],
        hashes: &'a [[u8; 32]],
        b: usize,
        h: usize,
        m: Vec<(u32, [u8; 32])>,
        dup: bool,
        bad: bool,
    }
    fn rec(s: &mut S, w: &dyn Fn(u32) -> u32, h: u32, pos: u32) -> [u8; 32] {
        if s.bad || s.b >= s.bits.len() {
            s.bad = true;
            return [0; 32];
        }
        let f = s.bits[s.b];
        s.b += 1;
        if h == 0 || !f {
            if s.h >= s.hashes.len() {
                s.bad = true;
                return [0; 32];
            }
            let x = s.hashes[s.h];
            s.h += 1;
            if h == 0 && f {
                s.m.push((pos, x));
            }
            return x;
        }
        let l = rec(s, w, h - 1, pos * 2);
        let r = if pos * 2 + 1 < w(h - 1) {
            let r = rec(s, w, h - 1, pos * 2 + 1);
            if r == l {
                s.dup = true;
            }
            r
        } else {
            l
        };
        dsha(&[&l[..], &r[..]].concat())
    }
    let mut s = S { bits, hashes, b: 0, h: 0, m: vec![], dup: false, bad: false };
    let root = rec(&mut s, &width, height, 0);
    if s.bad || s.h != hashes.len() || (s.b + 7) / 8 != (bits.len() + 7) / 8 {
        return None;
    }
    Some(Extracted { root, matches: s.m, duplicate_branch: s.dup })
}

// ------------------------------------------------------------------ compact targets (arith_uint256)

use num_bigint::BigUint;
pub enum Compact {
    Neg,
    Over,
    Val(BigUint),
}
pub fn set_compact(n: u32) -> Compact {
    let size = n >> 24;
    let mut word = n & 0x007f_ffff;
    let val = if size <= 3 {
        word >>= 8 * (3 - size);
        BigUint::from(word)
    } else {
        BigUint::from(word) << (8 * (size - 3)) as usize
    };
    if word != 0 && n & 0x0080_0000 != 0 {
        return Compact::Neg;
    }
    if val.bits() > 256 {
        return Compact::Over;
    }
    // Core flags overflow by these size rules; they coincide with "does not fit in 256 bits"
    Compact::Val(val)
}
pub fn get_compact(v: &BigUint) -> u32 {
    let mut size = ((v.bits() + 7) / 8) as u32;
    let mut c: u32 = if size <= 3 {
        let x: u64 = v.iter_u64_digits().next().unwrap_or(0);
        (x << (8 * (3 - size))) as u32
    } else {
        let s = v >> (8 * (size - 3)) as usize;
        s.iter_u64_digits().next().unwrap_or(0) as u32
    };
    if c & 0x0080_0000 != 0 {
        c >>= 8;
        size += 1;
    }
    c | (size << 24)
}
