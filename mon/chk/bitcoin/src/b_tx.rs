use crate::model::*;
use bitcoin::{
    compat::rust_bitcoin::{self, consensus::Decodable, consensus::Encodable},
    formatter::TryFormat,
    parser::{parse_block_header, parse_transaction, FromLeBytes},
    types::*,
    Script, SetCompact,
};
use codec::{Decode, Encode};
use mon::rand::Rng;
use mon::*;
use std::convert::TryFrom;

pub fn fmt<T: TryFormat>(t: &T) -> Result<Vec<u8>, bitcoin::Error> {
    let mut v = vec![];
    t.try_format(&mut v)?;
    Ok(v)
}

/// The transaction of the crate under test that the model describes.
pub fn real_of(m: &MTx) -> Transaction {
    Transaction {
        version: m.version,
        inputs: m
            .ins
            .iter()
            .map(|i| {
                let coin = i.prev == [0; 32] && i.index == u32::MAX;
                let (source, script) = if coin {
                    match i.height {
                        Some(h) => (TransactionInputSource::Coinbase(Some(h)), i.script[bip34(h).len()..].to_vec()),
                        None => (TransactionInputSource::Coinbase(None), i.script.clone()),
                    }
                } else {
                    (TransactionInputSource::FromOutput(H256Le::from_bytes_le(&i.prev), i.index), i.script.clone())
                };
                TransactionInput { source, script, sequence: i.seq, witness: i.wit.clone() }
            })
            .collect(),
        outputs: m.outs.iter().map(|(v, s)| TransactionOutput { value: *v, script: Script::from(s.clone()) }).collect(),
        lock_at: if m.lock < 500_000_000 { LockTime::BlockHeight(m.lock) } else { LockTime::Time(m.lock) },
    }
}

fn check_tx(c: &mut Case, m: &MTx) {
    let raw = m.ser(true);
    let base = m.ser(false);
    let ctx = || format!("raw tx ({} bytes) {}", raw.len(), if raw.len() < 3000 { hex(&raw) } else { format!("{}...", hex(&raw[..200])) });
    // the model itself is cross-checked against rust-bitcoin
    let rb = rust_bitcoin::Transaction::consensus_decode(&mut &raw[..]).expect("model: rust-bitcoin rejects the model's bytes");
    let txid = m.txid();
    assert_eq!(&rb.txid()[..], &txid[..], "model txid");
    let wtxid = m.wtxid();
    assert_eq!(&rb.wtxid()[..], &wtxid[..], "model wtxid");

    let want = real_of(m);
    c.event(if m.ins[0].prev == [0; 32] && m.ins[0].index == u32::MAX { "coinbase" } else { "spend" });
    if m.has_wit() {
        c.event("segwit")
    }
    if m.ins.iter().any(|i| i.script.len() >= 65_535) {
        c.event("script>=65535")
    }
    let shape = (
        m.version,
        m.ins.iter().take(6).map(|i| (i.script.len(), i.wit.len(), i.height.is_some())).collect::<Vec<_>>(),
        m.outs.iter().take(6).map(|o| o.1.len()).collect::<Vec<_>>(),
        m.lock >= 500_000_000,
    );
    c.state_dbg(&shape);

    let Some(got) = c.total("parse", ctx, || parse_transaction(&raw)) else { return };
    match got {
        Ok(tx) => {
            c.check(tx == want, "parse: fields differ from the serialized transaction", || format!("{:?}\nwant {:?}\n{}", tx, want, ctx()));
        }
        Err(e) => c.violate("parse: valid transaction rejected", format!("{:?} {}", e, ctx())),
    }
    // serialization and identifiers of the structure built directly
    if let Some(Ok(b)) = c.total("format", ctx, || fmt(&want)) {
        c.check(b == raw, "format: serialization differs from the consensus encoding", || format!("got {}\n{}", hex(&b[..b.len().min(300)]), ctx()));
    }
    if let Some(id) = c.total("tx_id", ctx, || want.tx_id()) {
        c.eq(id.to_bytes_le(), txid, "tx_id: differs from double-SHA256 of the non-witness serialization", ctx);
    }
    if let Some(h) = c.total("hash", ctx, || want.hash()) {
        c.eq(h.to_bytes_le(), wtxid, "hash: differs from double-SHA256 of the full serialization", ctx);
    }
    if let Some(n) = c.total("size_no_witness", ctx, || want.size_no_witness()) {
        c.eq(n, base.len(), "size_no_witness: wrong size", ctx);
    }
    // bounded id: succeeds exactly when the bound covers the non-witness size
    let n = base.len() as u32;
    for b in [0, 1, n / 2, n - 1, n, n + 1, u32::MAX] {
        if let Some(r) = c.total("tx_id_bounded", ctx, || want.tx_id_bounded(b)) {
            match r {
                Ok(id) => {
                    c.check(b >= n, "tx_id_bounded: accepted a transaction larger than the bound", || format!("bound {} size {}\n{}", b, n, ctx()));
                    c.eq(id.to_bytes_le(), txid, "tx_id_bounded: wrong id", ctx);
                }
                Err(e) => {
                    c.check(b < n, "tx_id_bounded: rejected a transaction within the bound", || format!("{:?} bound {} size {}\n{}", e, b, n, ctx()));
                }
            }
        }
    }
    let coin = m.ins.len() == 1 && m.ins[0].prev == [0; 32] && m.ins[0].index == u32::MAX;
    c.eq(want.is_coinbase(), coin, "is_coinbase: wrong", ctx);

    // conversions to and from rust-bitcoin
    if let Some(r) = c.total("to rust-bitcoin", ctx, || rust_bitcoin::Transaction::try_from(want.clone())) {
        match r {
            Ok(t) => {
                c.check(t == rb, "conversion to rust-bitcoin changes the transaction", ctx);
            }
            Err(e) => c.violate("conversion to rust-bitcoin fails", format!("{:?} {}", e, ctx())),
        }
    }
    if let Some(r) = c.total("from rust-bitcoin", ctx, || Transaction::try_from(rb.clone())) {
        match r {
            Ok(t) => {
                c.check(t == want, "conversion from rust-bitcoin changes the transaction", ctx);
            }
            Err(e) => c.violate("conversion from rust-bitcoin fails", format!("{:?} {}", e, ctx())),
        }
    }
    // the on-chain (SCALE) form carries the same transaction
    let enc = want.encode();
    match Transaction::decode(&mut &enc[..]) {
        Ok(t) => {
            c.check(t == want, "SCALE round trip changes the transaction", ctx);
        }
        Err(e) => c.violate("SCALE round trip fails", format!("{e:?} {}", ctx())),
    }

    // strict prefixes are never accepted
    let raw2 = raw.clone();
    for k in 0..12usize {
        let cut = (raw.len() * k / 12).min(raw.len() - 1);
        if let Some(r) = c.total("parse prefix", || format!("cut {} {}", cut, hex(&raw2[..raw2.len().min(500)])), || parse_transaction(&raw[..cut])) {
            c.check(r.is_err(), "parse: strict prefix of a transaction accepted", || format!("cut {} {}", cut, ctx()));
        }
    }
    // trailing bytes do not influence the result
    let mut ext = raw.clone();
    ext.extend([0xff, 0, 1, 2, 3]);
    if let Some(r) = c.total("parse extended", ctx, || parse_transaction(&ext)) {
        c.check(matches!(&r, Ok(t) if *t == want), "parse: trailing bytes change the result", ctx);
    }
}

pub fn run(m: &Mon) {
    m.rule("stream tx: random transactions (coinbase/spend, v1/v2, segwit/legacy, script, witness, input and output counts biased to varint boundaries); non-trivial state = distinct (version, per-input script/witness sizes, per-output script sizes, locktime kind). Oracle: own consensus serializer cross-checked with rust-bitcoin 0.30.");
    m.stream("tx", 60_000, 25, |c, r| {
        let t = any_tx(r);
        c.sample(|| format!("tx v{} in {:?} out {:?} txid {}", t.version, t.ins.iter().map(|i| i.script.len()).collect::<Vec<_>>(), t.outs.iter().map(|o| o.1.len()).collect::<Vec<_>>(), hex(&t.txid())));
        check_tx(c, &t);
    });
    m.rule("stream boundary: one exact script, witness or count size per case, all sizes 0..700 and around 2^16.");
    // the expensive cases first, so that they overlap
    m.stream("boundary", 6 * 709, 1, |c, r| {
        let n = 708 - c.index as usize / 6;
        let l = if n < 700 { n } else { 65_530 + (n - 700) };
        let mut t = any_tx(r);
        t.ins.truncate(1);
        t.outs.truncate(1);
        if t.ins[0].height.is_some() || t.ins[0].prev == [0; 32] {
            t.ins[0].prev = [7; 32];
            t.ins[0].index = 1;
            t.ins[0].height = None;
        }
        t.ins[0].script = vec![];
        t.ins[0].wit = vec![];
        match c.index % 6 {
            0 if l > 0 && (l < 700 || m.thorough && (65_535..65_537).contains(&l)) => {
                let i = t.ins[0].clone();
                t.ins = vec![i; l];
            }
            1 if l > 0 && (l < 700 || (65_535..65_537).contains(&l)) => t.outs = vec![(1, vec![]); l],
            2 if l < 700 || (65_533..65_538).contains(&l) => t.ins[0].wit = vec![vec![]; l],
            3 => t.ins[0].script = bytes(r, l),
            4 => t.ins[0].wit = vec![bytes(r, l), vec![]],
            5 if l <= 10_000 => t.outs = vec![(1, bytes(r, l))],
            _ => return,
        }
        check_tx(c, &t);
        c.event("boundary size");
    });
    m.rule("stream reject: a valid transaction made invalid or unsupported in one documented way; it must be rejected.");
    m.stream("reject", 100_000, 10, |c, r| {
        let t = any_tx(r);
        let kind = r.gen_range(0..7);
        let (name, raw) = match kind {
            0 => {
                let mut t = t;
                t.version = loop {
                    let v = match r.gen_range(0..3) {
                        0 => r.gen_range(-3..6),
                        1 => 0x4000_0000 | r.gen_range(0..4),
                        _ => r.gen(),
                    };
                    if v != 1 && v != 2 {
                        break v;
                    }
                };
                ("unsupported version", t.ser(true))
            }
            1 => {
                let mut t = t;
                for i in &mut t.ins {
                    i.wit.clear();
                }
                let mut v = t.ser(false);
                let lock = v.split_off(v.len() - 4);
                let mut w = v[..4].to_vec();
                w.extend([0, 1]);
                w.extend(&v[4..]);
                w.extend(vec![0u8; t.ins.len()]);
                w.extend(lock);
                ("witness flag without witness", w)
            }
            2 => {
                let mut t = t;
                for i in &mut t.ins {
                    i.wit.clear();
                }
                let flag = loop {
                    let f: u8 = if r.gen() { 1 << r.gen_range(1..8) } else { r.gen() };
                    if f > 1 && f & 1 == 0 {
                        break f;
                    }
                };
                let v = t.ser(false);
                let mut w = v[..4].to_vec();
                w.extend([0, flag]);
                w.extend(&v[4..]);
                ("unknown flag", w)
            }
            3 => {
                let mut t = t;
                for i in &mut t.ins {
                    i.wit = vec![vec![1]];
                }
                let mut w = t.ser(true);
                w[5] = loop {
                    let f: u8 = r.gen::<u8>() | 1;
                    if f > 1 {
                        break f;
                    }
                };
                ("unknown flag besides witness", w)
            }
            4 => {
                let mut t = t;
                t.ins[0].prev = [0; 32];
                t.ins[0].height = None;
                t.ins[0].index = loop {
                    let x = weird_u32(r);
                    if x != u32::MAX {
                        break x;
                    }
                };
                t.ins[0].script = bip34(5);
                ("null prevout with an index other than 2^32-1", t.ser(true))
            }
            5 => {
                let mut t = t;
                if t.outs.is_empty() {
                    t.outs.push((0, vec![]));
                }
                let l = *pick(r, &[10_001, 10_002, 12_000, 65_535, 65_536]);
                t.outs[0].1 = bytes(r, l);
                ("output script above 10000 bytes", t.ser(true))
            }
            _ => {
                let mut t = t;
                t.version = 1;
                t.ins.truncate(1);
                t.ins[0].prev = [0; 32];
                t.ins[0].index = u32::MAX;
                t.ins[0].height = None;
                let l = *pick(r, &[101, 102, 150, 253]);
                t.ins[0].script = bytes(r, l);
                ("coinbase script above 100 bytes", t.ser(true))
            }
        };
        c.event(&format!("reject: {name}"));
        c.state(&dsha(&raw));
        let sh = raw.clone();
        if let Some(x) = c.total("parse", || hex(&sh[..sh.len().min(800)]), || parse_transaction(&raw)) {
            c.check(x.is_err(), &format!("parse: accepted {name}"), || hex(&raw[..raw.len().min(800)]));
        }
    });
    m.require("coinbase", 1000);
    m.require("segwit", 1000);
    m.require("script>=65535", 20);
}

pub fn run_header(m: &Mon) {
    m.rule("random 80-byte headers (version, hashes, time, nonce uniform or at boundaries; canonical bits of every size); distinct header bytes counted. Oracle: byte layout, double SHA-256, rust-bitcoin header hash.");
    m.stream("header", 500_000, 30, |c, r| {
        let size = r.gen_range(1u32..=32);
        let mant = match size {
            1 => r.gen_range(1u32..0x80) << 16,
            2 => r.gen_range(0x80u32..0x8000) << 8,
            _ => r.gen_range(0x8000u32..0x80_0000),
        };
        let bits = size << 24 | mant;
        let version: i32 = if r.gen() { r.gen_range(-2..8) } else { r.gen() };
        let (prev, root): ([u8; 32], [u8; 32]) = (r.gen(), r.gen());
        let (time, nonce) = (weird_u32(r), weird_u32(r));
        let mut raw = vec![];
        raw.extend(version.to_le_bytes());
        raw.extend(prev);
        raw.extend(root);
        raw.extend(time.to_le_bytes());
        raw.extend(bits.to_le_bytes());
        raw.extend(nonce.to_le_bytes());
        let hash = dsha(&raw);
        let rb = rust_bitcoin::block::Header::consensus_decode(&mut &raw[..]).unwrap();
        assert_eq!(&rb.block_hash()[..], &hash[..]);
        c.state(&raw);
        c.event("header");
        c.sample(|| hex(&raw));
        let ctx = || hex(&raw);
        let want = BlockHeader {
            merkle_root: H256Le::from_bytes_le(&root),
            target: primitive_types::U256::from_little_endian(&rb.target().to_le_bytes()),
            timestamp: time,
            version,
            hash: H256Le::from_bytes_le(&hash),
            hash_prev_block: H256Le::from_bytes_le(&prev),
            nonce,
        };
        for (n, p) in [
            ("parse_block_header", c.total("parse_block_header", ctx, || parse_block_header(&raw))),
            ("from_le_bytes", c.total("from_le_bytes", ctx, || <BlockHeader as FromLeBytes>::from_le_bytes(&raw))),
            ("from_bytes", c.total("from_bytes", ctx, || BlockHeader::from_bytes(&raw))),
            ("from_hex", c.total("from_hex", ctx, || BlockHeader::from_hex(hex(&raw)))),
        ] {
            match p {
                Some(Ok(h)) => {
                    c.eq(h, want, &format!("{n}: wrong header"), ctx);
                }
                Some(Err(e)) => c.violate(format!("{n}: valid header rejected"), format!("{e:?} {}", ctx())),
                None => {}
            }
        }
        if let Some(f) = c.total("format", ctx, || fmt(&want)) {
            c.check(f.as_ref().ok() == Some(&raw), "format: header does not serialize to its 80 bytes", || format!("{f:?} {}", ctx()));
        }
        if let Some(f) = c.total("hash", ctx, || want.hash()) {
            c.check(f.as_ref().ok() == Some(&want.hash), "hash: not the double SHA-256 of the serialized header", || format!("{f:?} {}", ctx()));
        }
        let mut wrong = want;
        wrong.hash = H256Le::zero();
        if let Some(f) = c.total("update_hash", ctx, || wrong.update_hash()) {
            c.check(f.is_ok() && wrong == want, "update_hash: stored hash wrong or other field changed", ctx);
        }
        c.eq(want.ensure_version().is_ok(), version >= 4, "ensure_version: accepts exactly versions >= 4", ctx);
        let enc = want.encode();
        c.check(BlockHeader::decode(&mut &enc[..]).ok() == Some(want), "SCALE round trip changes the header", ctx);
        // any change of a byte changes the hash; a wrong length is rejected
        let i = r.gen_range(0..80);
        let mut raw2 = raw.clone();
        raw2[i] ^= 1 << r.gen_range(0..8);
        if let Some(Ok(h2)) = c.total("parse", ctx, || parse_block_header(&raw2)) {
            c.check(h2.hash != want.hash, "hash: unchanged although a header byte changed", ctx);
        }
        let cut = r.gen_range(0..80);
        if let Some(x) = c.total("parse short", ctx, || (parse_block_header(&raw[..cut]).is_err(), BlockHeader::from_bytes(&raw[..cut]).is_err())) {
            c.check(x == (true, true), "short header accepted", || format!("{} {}", cut, ctx()));
        }
        let mut long = raw.clone();
        long.push(0);
        if let Some(x) = c.total("from_bytes long", ctx, || BlockHeader::from_bytes(&long).is_err()) {
            c.check(x, "from_bytes: accepts more than 80 bytes", ctx);
        }
    });
    m.rule("stream bits: header whose compact target is arbitrary; decoding follows Bitcoin Core (negative or overflowing targets rejected).");
    m.stream("bits", 100_000, 20, |c, r| {
        let bits: u32 = if r.gen() { r.gen() } else { (r.gen_range(0..40u32) << 24) | (r.gen::<u32>() & 0xff_ffff) };
        let mut raw = bytes(r, 80);
        raw[72..76].copy_from_slice(&bits.to_le_bytes());
        c.state(&bits.to_le_bytes());
        if let Some(p) = c.total("parse", || hex(&raw), || parse_block_header(&raw)) {
            match (set_compact(bits), p) {
                (Compact::Val(v), Ok(h)) => {
                    let mut b = [0u8; 32];
                    h.target.to_little_endian(&mut b);
                    c.eq(num_bigint::BigUint::from_bytes_le(&b), v, "target decoded wrongly", || format!("{bits:08x}"));
                }
                (Compact::Val(_), Err(e)) => c.violate("valid bits rejected", format!("{bits:08x} {e:?}")),
                (_, Ok(_)) => c.violate("negative or overflowing bits accepted", format!("{bits:08x}")),
                _ => c.event("invalid bits rejected"),
            }
        }
    });
    m.rule("stream hash-type: byte-order conversions of the 32-byte hash type.");
    m.stream("hash-type", 5_000, 10, |c, r| {
        let b: [u8; 32] = r.gen();
        let mut be = b;
        be.reverse();
        c.state(&b);
        let h = H256Le::from_bytes_le(&b);
        let ctx = || hex(&b);
        c.eq(h.to_bytes_le(), b, "to_bytes_le", ctx);
        c.eq(h.to_bytes_be(), be, "to_bytes_be", ctx);
        c.eq(H256Le::from_bytes_be(&be), h, "from_bytes_be", ctx);
        c.eq(h.to_hex_le(), hex(&b), "to_hex_le", ctx);
        c.eq(h.to_hex_be(), hex(&be), "to_hex_be", ctx);
        c.eq(H256Le::from_hex_le(&hex(&b)), h, "from_hex_le", ctx);
        c.eq(H256Le::from_hex_be(&hex(&be)), h, "from_hex_be", ctx);
        c.eq(format!("{}", h), format!("0x{}", hex(&be)), "Display", ctx);
        c.eq(format!("{:x}", h), hex(&be), "LowerHex", ctx);
        c.eq(h.as_u256(), primitive_types::U256::from_big_endian(&be), "as_u256", ctx);
        c.check(primitive_types::H256::from(be) == h && h == primitive_types::H256::from(be), "H256 equality", ctx);
        c.check(b == be || primitive_types::H256::from(b) != h, "H256 equality ignores byte order", ctx);
        c.eq(h.sha256d().to_bytes_le(), dsha(&b), "sha256d", ctx);
        c.eq(h.is_zero(), b == [0; 32], "is_zero", ctx);
        let x = weird_u64(r);
        c.eq(H256Le::from(x).as_u256(), primitive_types::U256::from(x), "From<u64>", || x.to_string());
        c.eq(H256Le::from(x as u32).as_u256(), primitive_types::U256::from(x as u32), "From<u32>", || x.to_string());
        let _ = <U256 as SetCompact>::set_compact(0);
        let mut w = vec![];
        rb_encode(&mut w);
        let data = { let n = r.gen_range(0..300); bytes(r, n) };
        c.eq(bitcoin::utils::sha256d(&data), dsha(&data), "sha256d of bytes", || hex(&data));
        c.eq(bitcoin::utils::sha256d_le(&data).to_bytes_le(), dsha(&data), "sha256d_le", || hex(&data));
        c.eq(bitcoin::utils::sha256d_be(&data).0, dsha(&data), "sha256d_be", || hex(&data));
        c.eq(bitcoin::utils::hash256_merkle_step(&b, &data).to_bytes_le(), dsha(&[&b[..], &data[..]].concat()), "hash256_merkle_step", ctx);
        let v = 1 + weird_u64(r) / 2;
        let want = (0..64).find(|i| (1u128 << i) >= v as u128).unwrap();
        if let Some(g) = c.total("log2", || v.to_string(), || bitcoin::utils::log2(v)) {
            c.eq(g, want, "log2 is the rounded-up logarithm", || v.to_string());
        }
        let v = primitive_types::U256::from(v) << r.gen_range(0..190usize);
        let mut want = 0u8;
        let mut p = primitive_types::U256::one();
        while p < v {
            p = p.saturating_mul(256.into());
            want += 1;
        }
        if let Some(g) = c.total("log256", || v.to_string(), || bitcoin::utils::log256(&v)) {
            c.eq(g, want, "log256 is the rounded-up logarithm", || v.to_string());
        }
    });
    m.require("header", 1000);
}

fn rb_encode(w: &mut Vec<u8>) {
    let _ = 0u8.consensus_encode(w);
}
