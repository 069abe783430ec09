use crate::{b_tx::*, model::*};
use bitcoin::{
    compat::rust_bitcoin::{self, consensus::Encodable},
    merkle::{MerkleProof, MerkleTree, PartialTransactionProof},
    types::*,
    Address,
};
use codec::{Decode, Encode};
use mon::rand::Rng;
use mon::*;

fn small_tx(r: &mut R, tag: u64) -> Transaction {
    let mut b = TransactionBuilder::new();
    b.with_version(1 + (tag % 2) as i32);
    let mut i = TransactionInputBuilder::new();
    let mut prev = [9u8; 32];
    prev[..8].copy_from_slice(&tag.to_le_bytes());
    prev[8..16].copy_from_slice(&r.gen::<[u8; 8]>());
    i.with_source(TransactionInputSource::FromOutput(H256Le::from_bytes_le(&prev), r.gen_range(0..5)));
    i.with_sequence(r.gen());
    if r.gen() {
        let n = r.gen_range(0..80);
        i.with_script(&bytes(r, n));
    }
    if r.gen_ratio(1, 3) {
        i.add_witness(&bytes(r, 8));
    }
    b.add_input(i.build());
    for _ in 0..r.gen_range(1..3) {
        b.add_output(TransactionOutput::payment(r.gen_range(0..1_000_000), &Address::P2PKH(H160(r.gen()))));
    }
    b.build()
}

fn easy() -> U256 {
    U256::from(2).pow(255.into()) - 1
}

fn block(r: &mut R, n: usize) -> Block {
    let mut b = BlockBuilder::new();
    b.with_version(4).with_timestamp(r.gen()).with_previous_hash(H256Le::from_bytes_le(&r.gen::<[u8; 32]>()));
    b.with_coinbase(&Address::P2WPKHv0(H160(r.gen())), 50, r.gen_range(1..1_000_000));
    for k in 1..n {
        b.add_transaction(small_tx(r, k as u64));
    }
    let mut target = easy();
    // a canonical compact target, so that the header formats
    use bitcoin::{GetCompact, SetCompact};
    target = U256::set_compact(target.get_compact().unwrap()).unwrap();
    b.mine(target).expect("mine")
}

fn any_size(r: &mut R, big: usize) -> usize {
    match r.gen_range(0..12) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => (1 << r.gen_range(0..7)) + 1,
        4 => 1 << r.gen_range(0..7),
        5 => ((1usize << r.gen_range(1..7)) - 1).max(1),
        6 => r.gen_range(1..big),
        _ => r.gen_range(1..40),
    }
}

pub fn run_complete(m: &Mon) {
    m.rule("random blocks of 1..~120 transactions (sizes biased to powers of two +-1; a few of thousands); for every block several match sets. State = distinct (transactions in block, matched positions). Oracles: own merkle tree and partial-tree builder, rust-bitcoin MerkleBlock bytes.");
    m.stream("block", 20_000, 30, |c, r| {
        let n = any_size(r, 120);
        let Some(b) = c.total("build block", || format!("{n} txs"), || block(r, n)) else { return };
        let ids: Vec<[u8; 32]> = b.transactions.iter().map(|t| t.tx_id().to_bytes_le()).collect();
        let lv = merkle_levels(&ids);
        let root = lv.last().unwrap()[0];
        let ctx = || format!("block with {} transactions", n);
        c.event("block");
        c.eq(b.header.merkle_root.to_bytes_le(), root, "block builder: header does not commit to its transactions", ctx);
        c.eq(MerkleTree::compute_height(n as u32) as usize, lv.len() - 1, "compute_height", ctx);
        for (h, l) in lv.iter().enumerate() {
            c.eq(MerkleTree::compute_width(n as u32, h as u32) as usize, l.len(), "compute_width", || format!("{n} {h}"));
            let p = r.gen_range(0..l.len());
            let leaves: Vec<H256Le> = ids.iter().map(|x| H256Le::from_bytes_le(x)).collect();
            if let Some(Ok(x)) = c.total("compute_root", ctx, || MerkleTree::compute_root(p as u32, h as u32, n as u32, &leaves)) {
                c.eq(x.to_bytes_le(), l[p], "compute_root: wrong node", || format!("{n} height {h} pos {p}"));
            } else {
                c.violate("compute_root fails on a valid tree", ctx());
            }
        }
        c.check(b.header.hash == b.header.hash().unwrap() && b.header.hash.as_u256() < b.header.target, "mined header hash", ctx);

        // the whole block on the wire, against rust-bitcoin
        match c.total("format block", ctx, || fmt(&b)) {
            Some(Ok(w)) => match rust_bitcoin::consensus::deserialize::<rust_bitcoin::Block>(&w) {
                Ok(rb) => {
                    let rids: Vec<[u8; 32]> = rb.txdata.iter().map(|t| rust_bitcoin::consensus::serialize(&t.txid()).try_into().unwrap()).collect();
                    c.check(rids == ids && rust_bitcoin::consensus::serialize(&rb.header) == fmt(&b.header).unwrap(), "a serialized block holds another header or other transactions", || format!("{n} {}", hex(&w)));
                    c.check(rb.check_merkle_root(), "a serialized block does not commit to its transactions", || hex(&w));
                    c.event("block on the wire");
                }
                Err(e) => c.violate("a block does not serialize to Bitcoin's encoding", format!("{e:?} {n} {}", hex(&w))),
            },
            Some(Err(e)) => c.violate("a block does not serialize", format!("{e:?} {n}")),
            None => {}
        }

        let singles = if n <= 12 { n } else { 12 };
        for k in 0..singles + 2 {
            let ms: Vec<bool> = if k < singles {
                let p = if n <= 12 { k } else { *pick(r, &[0, n - 1, n / 2, r.clone().gen_range(0..n)]) };
                (0..n).map(|i| i == p).collect()
            } else {
                let d = r.gen_range(1..10);
                (0..n).map(|_| r.gen_ratio(1, d)).collect()
            };
            let incl: Vec<H256Le> = ids.iter().zip(&ms).filter(|x| *x.1).map(|x| H256Le::from_bytes_le(x.0)).collect();
            c.state_dbg(&(n, &ms));
            c.eval(1);
            let Some(pr) = c.total("merkle_proof", ctx, || b.merkle_proof(&incl)) else { continue };
            let Ok(pr) = pr else {
                c.violate("merkle_proof: fails on a valid block", ctx());
                continue;
            };
            let (bits, hs) = build_partial(&ids, &ms);
            let real_h: Vec<[u8; 32]> = pr.hashes.iter().map(|h| h.to_bytes_le()).collect();
            c.check(pr.flag_bits == bits && real_h == hs && pr.transactions_count == n as u32 && pr.block_header == b.header, "merkle_proof: differs from the Bitcoin partial merkle tree", || format!("n {n} matches {ms:?}\n{pr:?}"));
            // wire form, against rust-bitcoin
            let mut wire = vec![];
            let rb_hdr: rust_bitcoin::block::Header = rust_bitcoin::consensus::deserialize(&fmt(&b.header).unwrap()).unwrap();
            let rb_ids: Vec<rust_bitcoin::Txid> = ids.iter().map(|x| rust_bitcoin::consensus::deserialize(&x[..]).unwrap()).collect();
            let mb = rust_bitcoin::MerkleBlock { header: rb_hdr, txn: rust_bitcoin::merkle_tree::PartialMerkleTree::from_txids(&rb_ids, &ms) };
            mb.consensus_encode(&mut wire).unwrap();
            match fmt(&pr) {
                Ok(w) => {
                    c.check(w == wire, "proof serialization differs from Bitcoin's merkleblock encoding", || format!("{}\nwant {}", hex(&w), hex(&wire)));
                }
                Err(e) => c.violate("proof does not serialize", format!("{e:?}")),
            }
            let Some(back) = c.total("MerkleProof::parse", ctx, || MerkleProof::parse(&wire)) else { continue };
            let Ok(back) = back else {
                c.violate("MerkleProof::parse rejects Bitcoin's encoding", hex(&wire));
                continue;
            };
            let mut padded = bits.clone();
            while padded.len() % 8 != 0 {
                padded.push(false);
            }
            c.check(back.hashes == pr.hashes && back.transactions_count == n as u32 && back.block_header == b.header && back.flag_bits == padded, "MerkleProof::parse: wrong proof", || hex(&wire));
            let sc = pr.encode();
            c.check(MerkleProof::decode(&mut &sc[..]).ok() == Some(pr.clone()), "SCALE round trip changes the proof", ctx);
            let matched: Vec<usize> = (0..n).filter(|i| ms[*i]).collect();
            if matched.len() == 1 {
                let p = matched[0];
                let tx = &b.transactions[p];
                for proof in [pr.clone(), back.clone()] {
                    let x = PartialTransactionProof { transaction: tx.clone(), tx_encoded_len: tx.size_no_witness() as u32, merkle_proof: proof };
                    let sc = x.encode();
                    c.check(PartialTransactionProof::decode(&mut &sc[..]).ok().as_ref() == Some(&x), "SCALE round trip changes the transaction proof", ctx);
                    if let Some(v) = c.total("verify_proof", ctx, || x.verify_proof()) {
                        match v {
                            Ok(v) => {
                                c.event("proof verified");
                                c.check(
                                    v.extracted_root.to_bytes_le() == root
                                        && v.transaction_hash.to_bytes_le() == ids[p]
                                        && v.transaction_position == p as u32
                                        && v.tx_count == n as u32
                                        && v.block_hash == b.header.hash
                                        && v.transaction == *tx,
                                    "verify_proof: wrong root, position, count, hash or transaction",
                                    || format!("n {n} p {p} {v:?}"),
                                );
                            }
                            Err(e) => c.violate("verify_proof: rejects a genuine proof", format!("{e:?} n {n} p {p}")),
                        }
                    }
                }
            }
        }
    });
    m.rule("stream large: blocks up to the maximum of 16666 transactions (shape only, synthetic ids).");
    m.stream("large", 16, 6, |c, r| {
        let n = match c.index {
            0 => 16_666,
            1 => 16_665,
            2 => 16_384,
            3 => 16_385,
            _ => r.gen_range(200..16_667),
        };
        let tx = small_tx(r, 1);
        let mut ids: Vec<[u8; 32]> = (0..n).map(|_| r.gen()).collect();
        let p = r.gen_range(0..n);
        ids[p] = tx.tx_id().to_bytes_le();
        let root = merkle_levels(&ids).last().unwrap()[0];
        let ms: Vec<bool> = (0..n).map(|i| i == p).collect();
        let (bits, hs) = build_partial(&ids, &ms);
        c.state_dbg(&(n, p));
        let proof = MerkleProof { block_header: BlockHeader::default(), flag_bits: bits, transactions_count: n as u32, hashes: hs.iter().map(|h| H256Le::from_bytes_le(h)).collect() };
        let x = PartialTransactionProof { tx_encoded_len: tx.size_no_witness() as u32, transaction: tx, merkle_proof: proof };
        match c.total("verify_proof", || format!("{n} {p}"), || x.verify_proof()) {
            Some(Ok(v)) => {
                c.event("large proof verified");
                c.check(v.extracted_root.to_bytes_le() == root && v.transaction_position == p as u32, "verify_proof: wrong result on a large block", || format!("{n} {p}"));
            }
            Some(Err(e)) => c.violate("verify_proof: rejects a genuine proof", format!("{e:?} {n} {p}")),
            None => {}
        }
    });
    m.require("proof verified", 1000);
    m.require("block on the wire", 500);
    m.require("large proof verified", 5);
}

pub fn run_sound(m: &Mon) {
    m.rule("genuine proofs from random blocks attacked by 1-3 mutations (flags, hashes, counts, transaction, declared length, interior nodes presented as leaves, duplicated branches, unused trailing flags or hashes). State = distinct attacked proof. Oracles: Bitcoin Core's extraction rules re-implemented, and membership of the transaction in the block whenever the root matches.");
    m.stream("attack", 400_000, 40, |c, r| {
        let n = any_size(r, 70);
        let txs: Vec<Transaction> = (0..n).map(|k| small_tx(r, k as u64)).collect();
        let ids: Vec<[u8; 32]> = txs.iter().map(|t| t.tx_id().to_bytes_le()).collect();
        let lv = merkle_levels(&ids);
        let root = lv.last().unwrap()[0];
        let p = r.gen_range(0..n);
        let mut ms: Vec<bool> = (0..n).map(|i| i == p).collect();
        if r.gen_ratio(1, 6) {
            let d = r.gen_range(0..n);
            ms[d] = true;
        }
        let (mut bits, mut hs) = build_partial(&ids, &ms);
        let mut count = n as u32;
        let mut tx = txs[p].clone();
        let mut len = tx.size_no_witness() as u32;
        let k = r.gen_range(0..4);
        let mut ops = vec![];
        for _ in 0..k {
            let op = r.gen_range(0..16);
            ops.push(op);
            match op {
                0 => {
                    let i = r.gen_range(0..bits.len().max(1));
                    if i < bits.len() {
                        bits[i] ^= true;
                    }
                }
                1 => {
                    if !hs.is_empty() {
                        let i = r.gen_range(0..hs.len());
                        hs[i][r.gen_range(0..32)] ^= 1 << r.gen_range(0..8);
                    }
                }
                2 => {
                    if !hs.is_empty() {
                        let i = r.gen_range(0..hs.len());
                        let j = r.gen_range(0..hs.len());
                        hs.swap(i, j);
                    }
                }
                3 => {
                    hs.push(r.gen());
                    if r.gen() {
                        bits.push(r.gen());
                    }
                }
                4 => {
                    hs.pop();
                }
                5 => {
                    for _ in 0..*pick(r, &[1, 7, 8, 9, 16]) {
                        bits.push(r.gen_ratio(1, 4));
                    }
                }
                6 => {
                    bits.pop();
                }
                7 => count = (count as i64 + r.gen_range(-3..4)).max(0) as u32,
                8 => count = *pick(r, &[0, 1, 2, count.wrapping_mul(2), count / 2, 16_666, 16_667, u32::MAX, 1 << 31]),
                9 => {
                    // another transaction of the block
                    tx = pick(r, &txs).clone();
                    len = tx.size_no_witness() as u32;
                }
                10 => {
                    // a transaction that is not in the block
                    tx = small_tx(r, 1 << 40);
                    len = tx.size_no_witness() as u32;
                    if r.gen() && !hs.is_empty() {
                        let i = r.gen_range(0..hs.len());
                        hs[i] = tx.tx_id().to_bytes_le();
                    }
                }
                11 => len = (len as i64 + *pick(r, &[-1i64, -2, 1, 100, -50])).max(0) as u32,
                12 => {
                    // same transaction, another witness or tampered output
                    if r.gen() {
                        tx.inputs[0].witness.push(vec![1, 2, 3]);
                    } else {
                        tx.outputs[0].value ^= 1;
                        len = tx.size_no_witness() as u32;
                    }
                }
                13 => {
                    // duplicate the last part of an uneven level (CVE-2012-2459)
                    let mut ids2 = ids.clone();
                    if ids2.len() > 1 && ids2.len() % 2 == 1 {
                        ids2.push(*ids2.last().unwrap());
                    } else if ids2.len() % 4 == 2 && ids2.len() > 2 {
                        let l = ids2.len();
                        ids2.push(ids2[l - 2]);
                        ids2.push(ids2[l - 1]);
                    }
                    let q = ids2.len() - 1 - r.gen_range(0..2.min(ids2.len()));
                    let ms2: Vec<bool> = (0..ids2.len()).map(|i| i == q).collect();
                    let x = build_partial(&ids2, &ms2);
                    bits = x.0;
                    hs = x.1;
                    count = ids2.len() as u32;
                    let pos = ids.iter().position(|i| *i == ids2[q]).unwrap();
                    tx = txs[pos].clone();
                    len = tx.size_no_witness() as u32;
                }
                14 => {
                    // an interior level presented as the leaf level
                    if lv.len() > 1 {
                        let h = r.gen_range(1..lv.len());
                        let l = &lv[h];
                        let q = r.gen_range(0..l.len());
                        let ms2: Vec<bool> = (0..l.len()).map(|i| i == q).collect();
                        let x = build_partial(l, &ms2);
                        bits = x.0;
                        hs = x.1;
                        count = l.len() as u32;
                    }
                }
                _ => {
                    // clear every flag: nothing is matched
                    for b in bits.iter_mut() {
                        *b = false;
                    }
                    bits.truncate(1);
                    hs = vec![root];
                }
            }
        }
        let header = BlockHeader { hash: H256Le::from_bytes_le(&r.gen::<[u8; 32]>()), merkle_root: H256Le::from_bytes_le(&root), ..Default::default() };
        let x = PartialTransactionProof {
            transaction: tx.clone(),
            tx_encoded_len: len,
            merkle_proof: MerkleProof { block_header: header, flag_bits: bits.clone(), transactions_count: count, hashes: hs.iter().map(|h| H256Le::from_bytes_le(h)).collect() },
        };
        let txid = tx.tx_id().to_bytes_le();
        let ctx = || format!("n {n} ops {ops:?} count {count} len {len} bits {bits:?} hashes {:?}", hs.iter().map(|h| hex(h)).collect::<Vec<_>>());
        c.state(ctx().as_bytes());
        c.sample(|| ctx().chars().take(300).collect());
        let Some(v) = c.total("verify_proof", ctx, || x.verify_proof()) else { return };
        let reference = extract(count, &bits, &hs);
        let accept = match &reference {
            Some(e) if !e.duplicate_branch && !e.matches.is_empty() => {
                // the proven transaction is the matched leaf; with several matches, any of them may be meant
                (tx.size_no_witness() as u32 <= len) && e.matches.iter().any(|(_, h)| *h == txid)
            }
            _ => false,
        };
        match v {
            Ok(v) => {
                c.event("accepted");
                if !c.check(accept, "verify_proof: accepts a proof that Bitcoin's rules reject", || format!("{v:?}\n{}", ctx())) {
                    return;
                }
                let e = reference.unwrap();
                c.eq(v.extracted_root.to_bytes_le(), e.root, "verify_proof: wrong root", ctx);
                c.eq(v.transaction_hash.to_bytes_le(), txid, "verify_proof: reported hash is not the transaction's", ctx);
                c.check(e.matches.iter().any(|(q, h)| *q == v.transaction_position && *h == txid), "verify_proof: wrong position", ctx);
                c.check(v.transaction == tx && v.tx_count == count && v.block_hash == header.hash, "verify_proof: result fields differ from the proof", ctx);
                if v.extracted_root.to_bytes_le() == root {
                    c.event("accepted under the block's root");
                    c.check(ids.contains(&txid), "verify_proof: proves a transaction that is not in the block", ctx);
                    if count == n as u32 {
                        c.check(ids[v.transaction_position as usize] == txid, "verify_proof: proves a wrong position", ctx);
                    }
                } else {
                    c.event("accepted under another root");
                }
            }
            Err(e) => {
                c.event("rejected");
                let single = reference.as_ref().map(|x| x.matches.len() == 1).unwrap_or(false);
                c.check(!(accept && single), "verify_proof: rejects a proof that Bitcoin's rules accept", || format!("{e:?}\n{}", ctx()));
            }
        }
    });
    m.require("accepted under the block's root", 1000);
    m.require("accepted under another root", 50);
    m.require("rejected", 1000);
}
