//! Parsing and verification entry points are total: any input gives a value or an error.
use crate::{b_tx::*, model::*};
use bitcoin::{
    formatter::TryFormat,
    merkle::{MerkleProof, PartialTransactionProof},
    parser::*,
    types::*,
    Address, Script,
};
use codec::Decode;
use mon::rand::Rng;
use mon::*;
use std::convert::TryFrom;

fn mutate(r: &mut R, v: &mut Vec<u8>) {
    for _ in 0..r.gen_range(1..4) {
        if v.is_empty() {
            v.push(r.gen());
        }
        let i = r.gen_range(0..v.len());
        match r.gen_range(0..9) {
            0 => v[i] ^= 1 << r.gen_range(0..8),
            1 => v[i] = *pick(r, &[0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x7f, 0x80]),
            2 => v.truncate(i),
            3 => {
                let n = r.gen_range(1..10);
                let b = bytes(r, n);
                v.splice(i..i, b);
            }
            4 => {
                // inflate something that may be a length
                let mut x = vec![*pick(r, &[0xfdu8, 0xfe, 0xff])];
                let b: u8 = *pick(r, &[0xff, 0x7f, 0x80, 0, 1]);
                x.extend(vec![b; 8]);
                if r.gen() {
                    x[1] = *pick(r, &[0xff, 0xfe, 0xf0, 0xe0]);
                }
                let e = (i + 9).min(v.len());
                if r.gen() {
                    v.splice(i..e, x);
                } else {
                    v.splice(i..=i, x);
                }
            }
            5 => {
                let j = r.gen_range(i..v.len());
                v.drain(i..j);
            }
            6 => {
                let j = r.gen_range(i..v.len().min(i + 40));
                let b = v[i..j].to_vec();
                v.splice(i..i, b);
            }
            7 => v[i] = v[i].wrapping_add(1),
            _ => v[i] = v[i].wrapping_sub(1),
        }
    }
}

fn feed(c: &mut Case, b: &[u8]) {
    let ctx = || format!("input {} ({} bytes)", hex(&b[..b.len().min(1500)]), b.len());
    if let Some(Ok(t)) = c.total("parse_transaction", ctx, || parse_transaction(b)) {
        c.event("tx accepted");
        c.state(b);
        c.total("format of a parsed transaction", ctx, || {
            let _ = fmt(&t);
            let _ = t.tx_id();
            let _ = t.hash();
            let _ = t.tx_id_bounded(50);
            let _ = t.outputs.iter().map(|o| o.extract_address()).count();
            let _ = t.outputs.iter().map(|o| o.script.extract_op_return_data()).count();
        });
    } else {
        c.event("tx rejected");
    }
    c.total("parse_block_header", ctx, || parse_block_header(b).is_ok());
    c.total("BlockHeader::from_bytes", ctx, || BlockHeader::from_bytes(b).is_ok());
    c.total("BlockHeader::from_hex", ctx, || BlockHeader::from_hex(b).is_ok());
    if let Some(Ok(p)) = c.total("MerkleProof::parse", ctx, || MerkleProof::parse(b)) {
        c.event("proof parsed");
        c.state(b);
        let mut w = vec![];
        c.total("format of a parsed proof", ctx, || p.try_format(&mut w).is_ok());
        let t = Transaction::default();
        c.total("verify_proof", ctx, || PartialTransactionProof { transaction: t, tx_encoded_len: u32::MAX, merkle_proof: p }.verify_proof().is_ok());
    }
    if let Some(r) = c.total("parse_compact_uint", ctx, || parse_compact_uint(b)) {
        let want = match b.first() {
            None => None,
            Some(0xfd) => b.get(1..3).map(|x| (u16::from_le_bytes([x[0], x[1]]) as u64, 3)),
            Some(0xfe) => b.get(1..5).map(|x| (u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as u64, 5)),
            Some(0xff) => b.get(1..9).map(|x| (u64::from_le_bytes(<[u8; 8]>::try_from(x).unwrap()), 9)),
            Some(x) => Some((*x as u64, 1)),
        };
        c.eq(r.ok(), want, "parse_compact_uint: wrong value or length", ctx);
    }
    let s = Script::from(b.to_vec());
    c.total("Address::from_script_pub_key", ctx, || Address::from_script_pub_key(&s).is_ok());
    c.total("extract_op_return_data", ctx, || s.extract_op_return_data().is_ok());
    c.total("script predicates", ctx, || (s.is_p2pkh(), s.is_p2sh(), s.is_p2wpkh_v0(), s.is_p2wsh_v0(), s.is_empty()));
    let st = String::from_utf8_lossy(b).to_string();
    c.total("Script::try_from(str)", ctx, || Script::try_from(&st[..]).is_ok());
    // the form in which proofs reach the chain
    if let Some(Ok(p)) = c.total("SCALE decode of a proof", ctx, || FullTransactionProof::decode(&mut &b[..])) {
        c.event("scale proof decoded");
        c.total("verify decoded proof", ctx, || p.user_tx_proof.verify_proof().is_ok());
    }
}

pub fn run(m: &Mon) {
    m.rule("streams of raw inputs: uniform bytes; mutated serialized transactions, headers and merkle proofs (bit flips, truncation, splices, inflated length fields); coinbase scripts with arbitrary height pushes; decoded SCALE proofs with arbitrary counts, flags and hashes. State = distinct accepted input. A panic (including arithmetic overflow, slice and memory checks of a debug build) is the violation.");
    m.stream("random", 600_000, 40, |c, r| {
        let n = *pick(r, &[0, 1, 4, 9, 10, 36, 41, 60, 79, 80, 81, 84, 100, 180, 300]);
        let mut b = bytes(r, n);
        if n > 5 && r.gen() {
            b[..4].copy_from_slice(&[1 + r.gen_range(0..2), 0, 0, 0]);
            b[4] = r.gen_range(0..3);
        }
        c.sample(|| hex(&b));
        feed(c, &b);
    });
    m.stream("mutated-tx", 1_000_000, 40, |c, r| {
        let mut t = any_tx(r);
        for i in &mut t.ins {
            i.script.truncate(120);
            for w in &mut i.wit {
                w.truncate(80)
            }
        }
        for o in &mut t.outs {
            o.1.truncate(90)
        }
        let mut b = t.ser(true);
        mutate(r, &mut b);
        c.sample(|| hex(&b[..b.len().min(200)]));
        feed(c, &b);
    });
    m.stream("coinbase-height", 200_000, 20, |c, r| {
        // 02000000 01 <null> ffffffff <varint script len> <script> ...
        let mut b = vec![2, 0, 0, 0, 1];
        b.extend([0u8; 32]);
        b.extend([0xff; 4]);
        let n = r.gen_range(0..110);
        let mut script = bytes(r, n);
        if n > 0 {
            script[0] = match r.gen_range(0..4) {
                0 => r.gen_range(0..8),
                1 => r.gen_range(0x51..0x61),
                2 => *pick(r, &[0xfd, 0xfe, 0xff]),
                _ => r.gen(),
            };
            if script[0] >= 0xfd && r.gen() {
                for x in script.iter_mut().skip(1).take(8) {
                    *x = *pick(r, &[0xffu8, 0xff, 0xff, 0xfe, 0]);
                }
            }
        }
        if r.gen_ratio(1, 8) {
            b.extend([0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, *pick(r, &[0xff, 0x7f])]);
        } else {
            varint(&mut b, (n as u64).wrapping_add(*pick(r, &[0, 0, 0, 1, u64::MAX])).min(252));
        }
        b.extend(&script);
        b.extend([0xff; 4]);
        b.push(1);
        b.extend([0u8; 8]);
        b.push(0);
        b.extend([0u8; 4]);
        c.sample(|| hex(&b));
        feed(c, &b);
    });
    m.stream("mutated-proof", 600_000, 40, |c, r| {
        let n = r.gen_range(1..40);
        let leaves: Vec<[u8; 32]> = (0..n).map(|_| r.gen()).collect();
        let ms: Vec<bool> = (0..n).map(|_| r.gen_ratio(1, 5)).collect();
        let (bits, hs) = build_partial(&leaves, &ms);
        let mut b = bytes(r, 80);
        b[72..76].copy_from_slice(&0x1d00ffffu32.to_le_bytes());
        b.extend((n as u32).to_le_bytes());
        varint(&mut b, hs.len() as u64);
        for h in &hs {
            b.extend(h);
        }
        let mut fb = vec![0u8; (bits.len() + 7) / 8];
        for (i, x) in bits.iter().enumerate() {
            fb[i / 8] |= (*x as u8) << (i % 8);
        }
        varint(&mut b, fb.len() as u64);
        b.extend(fb);
        if r.gen_ratio(9, 10) {
            mutate(r, &mut b);
        }
        feed(c, &b);
    });
    m.stream("arbitrary-proof", 600_000, 40, |c, r| {
        let nb = r.gen_range(0..40);
        let nh = r.gen_range(0..12);
        let p = MerkleProof {
            block_header: BlockHeader::default(),
            flag_bits: (0..nb).map(|_| r.gen_ratio(2, 3)).collect(),
            transactions_count: match r.gen_range(0..4) {
                0 => weird_u32(r),
                1 => r.gen_range(16_660..16_670),
                _ => r.gen_range(0..40),
            },
            hashes: (0..nh).map(|_| H256Le::from_bytes_le(&r.gen::<[u8; 32]>())).collect(),
        };
        let ctx = format!("{:?}", p);
        c.state(ctx.as_bytes());
        let x = PartialTransactionProof { transaction: real_of(&any_tx(r)), tx_encoded_len: weird_u32(r), merkle_proof: p };
        if let Some(v) = c.total("verify_proof", || ctx.clone(), || x.verify_proof()) {
            c.event(if v.is_ok() { "arbitrary proof accepted" } else { "arbitrary proof rejected" });
        }
    });
    m.require("tx accepted", 1000);
    m.require("tx rejected", 1000);
    m.require("proof parsed", 1000);
}
