//! R02: inclusion proofs. Honest proofs of confirmed transactions are accepted; whatever is
//! accepted is a transaction of a confirmed main-chain block.
use crate::r_tree::Model;
use bitcoin::types::{FullTransactionProof, H256Le};
use mon::rand::Rng;
use mon::*;
use rt::{btc, btc::Blk, model::*, runtime::*, world::*};
use std::collections::HashSet;

fn txs(r: &mut R, n: usize) -> Vec<bitcoin::types::Transaction> {
    (0..n)
        .map(|_| {
            let k = r.gen_range(1..4);
            let outs = (0..k).map(|_| btc::pay(r.gen_range(0..1_000_000), &btc::any_address(r))).collect();
            btc::tx(outs, r)
        })
        .collect()
}
/// A mined block one of whose leaves is a 64-byte "transaction" whose second half is the id of
/// `fake`: the leaf-node attack.  Returns the block and the proof of the fake one level deeper.
fn leaf_attack(prev: H256Le, height: u32, r: &mut R) -> (Blk, FullTransactionProof) {
    let n = *pick(r, &[1usize, 3, 7]); // with the coinbase: a full tree of 2, 4, 8 leaves
    let real = txs(r, n);
    let fake = txs(r, 1).pop().unwrap();
    let fid = btc::txid(&fake);
    let mut b = btc::block(prev, height, real, 1_600_000_000, r);
    let i = r.gen_range(1..b.ids.len());
    let other: [u8; 32] = bytes(r, 32).try_into().unwrap();
    b.ids[i] = dsha(&[other, fid].concat());
    // remine
    let root = btc::root_of(&b.ids);
    b.header.merkle_root = H256Le::from_bytes_le(&root);
    loop {
        let h = dsha(&btc::header_bytes(&b.header, btc::EASY_BITS));
        if sp_core::U256::from_little_endian(&h) < b.header.target {
            b.header.hash = H256Le::from_bytes_le(&h);
            b.hash = b.header.hash;
            break;
        }
        b.header.nonce = b.header.nonce.wrapping_add(1);
    }
    // the pretended block has twice as many leaves; all but two are unknown and only their parents
    // are given
    let depth = b.ids.len().trailing_zeros();
    let mut flags = vec![];
    let mut hashes = vec![];
    let lv = merkle_levels(&b.ids);
    let mut pos = 0usize;
    for d in (0..depth as usize).rev() {
        // node (d+1, pos) contains i
        flags.push(true);
        let left = pos * 2;
        let go = i >> d;
        if go == left {
            pos = left;
        } else {
            flags.push(false);
            hashes.push(lv[d][left]);
            pos = left + 1;
        }
    }
    // at leaf i of the real tree, one level above the pretended leaves
    flags.push(true);
    flags.push(false);
    hashes.push(other);
    flags.push(true);
    hashes.push(fid);
    // right siblings on the way up
    for d in 0..depth as usize {
        let p = i >> d;
        if p % 2 == 0 {
            flags.push(false);
            hashes.push(lv[d][p + 1]);
        }
    }
    let mp = bitcoin::merkle::MerkleProof {
        block_header: b.header,
        flag_bits: flags,
        transactions_count: b.ids.len() as u32 * 2,
        hashes: hashes.iter().map(|h| H256Le::from_bytes_le(h)).collect(),
    };
    let up = bitcoin::merkle::PartialTransactionProof { tx_encoded_len: btc::ser_tx(&fake).len() as u32, transaction: fake, merkle_proof: mp };
    let full = FullTransactionProof { user_tx_proof: up, coinbase_proof: btc::partial(&b, 0) };
    (b, full)
}

fn case_(case: &mut Case, r: &mut R) {
    let k = r.gen_range(1..=4);
    let p = *pick(r, &[0, 1, 3]);
    let cfg = Cfg { btc_confirmations: k, para_confirmations: p, accounts: 0, ..Default::default() };
    with_world(&cfg, || {
        let g = btc::init(r.gen_range(0..1000), r);
        let mut m = Model::new(k, p, g.header, BTCRelay::get_best_block_height(), active());
        let mut blks = vec![g];
        let mut attacks = vec![];
        let n = r.gen_range(4..16);
        for _ in 0..n {
            for _ in 0..r.gen_range(0..3) {
                next_block();
            }
            let par = if r.gen_bool(0.85) { m.main } else { m.n.len() - 1 - r.gen_range(0..m.n.len().min(4)) };
            let cnt = *pick(r, &[0usize, 1, 1, 2, 3, 4, 6, 7, 8, 12, 19]);
            let h = m.n[par].height + 1;
            let b = if r.gen_bool(0.2) {
                let (b, f) = leaf_attack(m.n[par].hash, h, r);
                attacks.push((blks.len(), f));
                b
            } else {
                let t = txs(r, cnt);
                btc::block(m.n[par].hash, h, t, r.gen(), r)
            };
            let a = active();
            if btc::submit(&b.header).is_err() {
                case.violate("valid header refused", "");
                return;
            }
            m.add(par, b.header, a);
            blks.push(b);
        }
        // possibly let everything confirm
        let tail = r.gen_range(0..=2 * k + 1);
        for _ in 0..tail {
            let par = m.main;
            let b = btc::block(m.n[par].hash, m.n[par].height + 1, vec![], 7, r);
            let a = active();
            btc::submit(&b.header).expect("submit");
            m.add(par, b.header, a);
            blks.push(b);
        }
        for _ in 0..r.gen_range(0..=p + 1) {
            next_block();
        }
        let unsubmitted = {
            let t = txs(r, 3);
            btc::block(m.n[m.main].hash, 1, t, 7, r)
        };
        let main = m.main_set();
        for probe in 0..60 {
            let confs = match r.gen_range(0..4) {
                0 => Some(r.gen_range(0..8)),
                1 => Some(weird_u32(r)),
                _ => None,
            };
            let ok_blk = |i: usize| m.included(i, &main, confs, active());
            let genuine: HashSet<[u8; 32]> = (0..blks.len()).filter(|i| ok_blk(*i)).flat_map(|i| blks[i].txs.iter().enumerate().filter(|(j, t)| blks[i].ids[*j] == btc::txid(t)).map(|(_, t)| btc::txid(t)).collect::<Vec<_>>()).collect();
            let bi = r.gen_range(0..blks.len());
            let b = if r.gen_bool(0.03) { &unsubmitted } else { &blks[bi] };
            let stored = b.hash == blks[bi].hash;
            let ti = r.gen_range(0..b.txs.len());
            if b.ids[ti] != btc::txid(&b.txs[ti]) {
                continue;
            }
            let mut f = btc::proof(b, ti);
            // None: honest; Some(true): certainly invalid; Some(false): judged by soundness only
            let mut bad: Option<bool> = None;
            let mut what = "honest";
            if probe % 3 != 0 {
                let kind = r.gen_range(0..18);
                bad = Some(true);
                let other = &blks[r.gen_range(0..blks.len())];
                match kind {
                    0 => {
                        what = "amount changed";
                        f.user_tx_proof.transaction.outputs[0].value += 1;
                    }
                    1 => {
                        what = "coinbase of another block";
                        if other.hash == b.hash { continue; }
                        f.coinbase_proof = btc::partial(other, 0);
                    }
                    2 => {
                        what = "user transaction offered as coinbase";
                        if ti == 0 { continue; }
                        f.coinbase_proof = f.user_tx_proof.clone();
                    }
                    3 => {
                        what = "header of another block in the proof";
                        if other.hash == b.hash { continue; }
                        f.user_tx_proof.merkle_proof.block_header = other.header;
                        f.coinbase_proof.merkle_proof.block_header = other.header;
                    }
                    4 => {
                        what = "hash field of another stored block";
                        if other.hash == b.hash { continue; }
                        f.user_tx_proof.merkle_proof.block_header.hash = other.hash;
                        f.coinbase_proof.merkle_proof.block_header.hash = other.hash;
                    }
                    5 => {
                        what = "length bound too small";
                        f.user_tx_proof.tx_encoded_len -= 1;
                    }
                    6 => {
                        what = "length bound larger";
                        f.user_tx_proof.tx_encoded_len = f.user_tx_proof.tx_encoded_len.saturating_add(weird_u32(r));
                        bad = None;
                    }
                    7 => {
                        what = "transaction count changed";
                        let d = weird_u32(r) % 50 + 1;
                        f.user_tx_proof.merkle_proof.transactions_count = f.user_tx_proof.merkle_proof.transactions_count.wrapping_add(d);
                        bad = Some(false);
                        if f.coinbase_proof.merkle_proof.transactions_count != f.user_tx_proof.merkle_proof.transactions_count { bad = Some(true); }
                    }
                    8 => {
                        what = "flag flipped";
                        let v = &mut f.user_tx_proof.merkle_proof.flag_bits;
                        if v.is_empty() { continue; }
                        let i = r.gen_range(0..v.len());
                        v[i] = !v[i];
                        bad = Some(false);
                    }
                    9 => {
                        what = "hash changed";
                        let v = &mut f.user_tx_proof.merkle_proof.hashes;
                        let i = r.gen_range(0..v.len());
                        let mut h = v[i].to_bytes_le();
                        h[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8);
                        v[i] = H256Le::from_bytes_le(&h);
                    }
                    10 => {
                        what = "another transaction under the proof";
                        let j = r.gen_range(0..b.txs.len());
                        if j == ti { continue; }
                        f.user_tx_proof.transaction = b.txs[j].clone();
                        f.user_tx_proof.tx_encoded_len = u32::MAX;
                    }
                    11 => {
                        what = "proof of several transactions";
                        let j = r.gen_range(0..b.ids.len());
                        f.user_tx_proof.merkle_proof = btc::merkle_proof(b, &[ti, j]);
                        bad = Some(false);
                    }
                    12 => {
                        what = "coinbase proof of a later position";
                        // same block, genuine proof, not at the front
                        if b.ids.len() < 2 { continue; }
                        let j = r.gen_range(1..b.ids.len());
                        if b.ids[j] != btc::txid(&b.txs[j]) { continue; }
                        f.coinbase_proof = btc::partial(b, j);
                    }
                    13 => {
                        what = "only the user proof names a stored block";
                        let mut cb = btc::partial(&unsubmitted, 0);
                        if r.gen() { cb.merkle_proof.block_header.hash = b.hash; }
                        f.coinbase_proof = cb;
                        if !stored { bad = Some(false); }
                    }
                    14 => {
                        what = "only the coinbase proof names a stored block";
                        let j = r.gen_range(0..unsubmitted.txs.len());
                        f.user_tx_proof = btc::partial(&unsubmitted, j);
                        if r.gen() { f.user_tx_proof.merkle_proof.block_header.hash = b.hash; }
                        if !stored { bad = Some(false); }
                    }
                    15 => {
                        what = "leaf-node attack";
                        if attacks.is_empty() { continue; }
                        let (i, a) = pick(r, &attacks);
                        if !ok_blk(*i) { continue; }
                        f = a.clone();
                        if r.gen_bool(0.3) {
                            f.coinbase_proof = f.user_tx_proof.clone();
                        } else if r.gen_bool(0.3) {
                            f.coinbase_proof.merkle_proof.transactions_count *= 2;
                        }
                        case.event("leaf-node-attack");
                    }
                    16 => {
                        what = "another root with the stored hash";
                        // a whole forged block whose header claims the stored block's hash
                        let t = txs(r, 2);
                        let mut x = btc::block(b.header.hash_prev_block, 5, t, b.header.timestamp, r);
                        x.header.hash = b.hash;
                        let j = r.gen_range(0..x.txs.len());
                        f = btc::proof(&x, j);
                    }
                    _ => {
                        what = "extra hash or flag";
                        if r.gen() {
                            f.user_tx_proof.merkle_proof.hashes.push(H256Le::from_bytes_le(&bytes(r, 32)));
                        } else {
                            for _ in 0..9 { f.user_tx_proof.merkle_proof.flag_bits.push(true); }
                        }
                    }
                }
            }
            let want = bad.is_none() && stored && ok_blk(bi);
            let f2 = f.clone();
            let ctx = || format!("{what}; block {} of {} (main {}), best {}, tx {ti} of {}, confirmations {confs:?}, k {k} p {p}", m.n[bi].height, blks.len(), main.contains(&bi), m.n[m.main].height, b.txs.len());
            let Some(got) = case.total("inclusion check", ctx, || BTCRelay::_verify_transaction_inclusion(f2, confs)) else { return };
            match got {
                Ok(t) => {
                    let id = btc::txid(&t);
                    case.event(if bad.is_none() { "accepted-honest" } else { "accepted-odd" });
                    case.check(genuine.contains(&id), "accepted a transaction that is in no confirmed block", ctx);
                    case.check(bad != Some(true), &format!("accepted an invalid inclusion proof: {what}"), ctx);
                    case.check(id == btc::txid(&f.user_tx_proof.transaction), "accepted transaction is not the submitted one", ctx);
                }
                Err(e) => {
                    case.event(if want { "refused-honest" } else { "refused" });
                    case.check(!want, "honest proof of a confirmed transaction refused", || format!("{e:?}; {}", ctx()));
                }
            }
            case.event(&format!("probe: {what}"));
            case.state_dbg(&(what, b.txs.len(), ti, m.n[m.main].height as i64 - m.n[bi].height as i64, confs.map(|c| c.min(9))));
            if case.failed() {
                return;
            }
        }
        case.eval(60);
    });
}

pub fn run(m: &Mon) {
    m.rule("A case is a relay with blocks of 1 to 20 transactions, forks and confirmations; every probe offers an honest or manipulated proof (wrong coinbase, foreign header, forged block under a stored hash, leaf-node attack, ...). A state is (manipulation, block size, position, depth, requested confirmations).");
    m.stream("proofs", 1500, 12, |c, r| case_(c, r));
    for (e, n) in [("accepted-honest", 1000), ("refused", 3000), ("leaf-node-attack", 30), ("probe: honest", 3000), ("probe: coinbase of another block", 50), ("probe: another root with the stored hash", 50)] {
        m.require(e, n);
    }
}
