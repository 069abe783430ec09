//! Bitcoin blocks, transactions and inclusion proofs, built with the monitor's own merkle and
//! hashing code (`model`), not with the library under test.
use crate::model::*;
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    types::{BlockHeader, FullTransactionProof, H256Le, Transaction, TransactionInput, TransactionInputSource, TransactionOutput, LockTime},
    Address, Script,
};
use mon::rand::Rng;
use mon::*;
use sp_core::U256;

pub const EASY_BITS: u32 = 0x207fffff;
pub fn easy_target() -> U256 {
    U256::from(0x7fffffu32) << 232
}

#[derive(Clone, Debug)]
pub struct Blk {
    pub header: BlockHeader,
    pub hash: H256Le,
    pub txs: Vec<Transaction>,
    pub ids: Vec<[u8; 32]>,
}

fn out_script(o: &TransactionOutput) -> Vec<u8> {
    o.script.as_bytes().to_vec()
}
/// Consensus bytes without witness.
pub fn ser_tx(t: &Transaction) -> Vec<u8> {
    let mut v = t.version.to_le_bytes().to_vec();
    varint(&mut v, t.inputs.len() as u64);
    for i in &t.inputs {
        match &i.source {
            TransactionInputSource::FromOutput(h, n) => {
                v.extend(h.to_bytes_le());
                v.extend(n.to_le_bytes());
                varint(&mut v, i.script.len() as u64);
                v.extend(&i.script);
            }
            TransactionInputSource::Coinbase(height) => {
                v.extend([0; 32]);
                v.extend([0xff; 4]);
                let h = height.map(bip34).unwrap_or_default();
                varint(&mut v, (h.len() + i.script.len()) as u64);
                v.extend(&h);
                v.extend(&i.script);
            }
        }
        v.extend(i.sequence.to_le_bytes());
    }
    varint(&mut v, t.outputs.len() as u64);
    for o in &t.outputs {
        v.extend(o.value.to_le_bytes());
        let s = out_script(o);
        varint(&mut v, s.len() as u64);
        v.extend(s);
    }
    v.extend(
        match t.lock_at {
            LockTime::BlockHeight(n) => n,
            LockTime::Time(n) => n,
        }
        .to_le_bytes(),
    );
    v
}
pub fn txid(t: &Transaction) -> [u8; 32] {
    dsha(&ser_tx(t))
}
pub fn coinbase(height: u32, salt: u32) -> Transaction {
    Transaction {
        version: 2,
        inputs: vec![TransactionInput {
            source: TransactionInputSource::Coinbase(Some(height)),
            script: salt.to_le_bytes().to_vec(),
            sequence: u32::MAX,
            witness: vec![],
        }],
        outputs: vec![TransactionOutput { value: 5_000_000_000, script: Script::from([vec![0x76, 0xa9, 20], vec![7; 20], vec![0x88, 0xac]].concat()) }],
        lock_at: LockTime::BlockHeight(0),
    }
}
pub fn tx(outputs: Vec<TransactionOutput>, r: &mut R) -> Transaction {
    Transaction {
        version: 2,
        inputs: vec![TransactionInput {
            source: TransactionInputSource::FromOutput(H256Le::from_bytes_le(&bytes(r, 32)), r.gen_range(0..4)),
            script: bytes(r, 70),
            sequence: u32::MAX,
            witness: vec![],
        }],
        outputs,
        lock_at: LockTime::BlockHeight(0),
    }
}
/// scriptPubKey of an address, by the monitor's own rules.
pub fn spk(a: &Address) -> Vec<u8> {
    match a {
        Address::P2PKH(h) => [vec![0x76, 0xa9, 20], h.as_bytes().to_vec(), vec![0x88, 0xac]].concat(),
        Address::P2SH(h) => [vec![0xa9, 20], h.as_bytes().to_vec(), vec![0x87]].concat(),
        Address::P2WPKHv0(h) => [vec![0, 20], h.as_bytes().to_vec()].concat(),
        Address::P2WSHv0(h) => [vec![0, 32], h.as_bytes().to_vec()].concat(),
    }
}
pub fn pay(value: i64, a: &Address) -> TransactionOutput {
    TransactionOutput { value, script: Script::from(spk(a)) }
}
pub fn op_ret(value: i64, data: &[u8]) -> TransactionOutput {
    assert!(data.len() <= 75);
    TransactionOutput { value, script: Script::from([vec![0x6a, data.len() as u8], data.to_vec()].concat()) }
}
pub fn any_address(r: &mut R) -> Address {
    let b = bytes(r, 32);
    match r.gen_range(0..4) {
        0 => Address::P2PKH(sp_core::H160::from_slice(&b[..20])),
        1 => Address::P2SH(sp_core::H160::from_slice(&b[..20])),
        2 => Address::P2WPKHv0(sp_core::H160::from_slice(&b[..20])),
        _ => Address::P2WSHv0(sp_core::H256::from_slice(&b)),
    }
}
pub fn header_bytes(h: &BlockHeader, bits: u32) -> Vec<u8> {
    let mut v = h.version.to_le_bytes().to_vec();
    v.extend(h.hash_prev_block.to_bytes_le());
    v.extend(h.merkle_root.to_bytes_le());
    v.extend(h.timestamp.to_le_bytes());
    v.extend(bits.to_le_bytes());
    v.extend(h.nonce.to_le_bytes());
    v
}
pub fn root_of(ids: &[[u8; 32]]) -> [u8; 32] {
    merkle_levels(ids).last().unwrap()[0]
}
/// A mined block on `prev` with a coinbase followed by `txs`.
pub fn block(prev: H256Le, height: u32, txs: Vec<Transaction>, time: u32, r: &mut R) -> Blk {
    let mut all = vec![coinbase(height, r.gen())];
    all.extend(txs);
    let ids: Vec<[u8; 32]> = all.iter().map(txid).collect();
    let mut header = BlockHeader {
        merkle_root: H256Le::from_bytes_le(&root_of(&ids)),
        target: easy_target(),
        timestamp: time,
        version: 4,
        hash: H256Le::zero(),
        hash_prev_block: prev,
        nonce: 0,
    };
    loop {
        let h = dsha(&header_bytes(&header, EASY_BITS));
        if U256::from_little_endian(&h) < header.target {
            header.hash = H256Le::from_bytes_le(&h);
            break;
        }
        header.nonce += 1;
    }
    Blk { hash: header.hash, header, txs: all, ids }
}
pub fn merkle_proof(b: &Blk, matched: &[usize]) -> MerkleProof {
    let m: Vec<bool> = (0..b.ids.len()).map(|i| matched.contains(&i)).collect();
    let (flag_bits, hashes) = build_partial(&b.ids, &m);
    MerkleProof {
        block_header: b.header,
        flag_bits,
        transactions_count: b.ids.len() as u32,
        hashes: hashes.iter().map(|h| H256Le::from_bytes_le(h)).collect(),
    }
}
pub fn partial(b: &Blk, i: usize) -> PartialTransactionProof {
    PartialTransactionProof {
        tx_encoded_len: ser_tx(&b.txs[i]).len() as u32,
        transaction: b.txs[i].clone(),
        merkle_proof: merkle_proof(b, &[i]),
    }
}
pub fn proof(b: &Blk, i: usize) -> FullTransactionProof {
    FullTransactionProof { user_tx_proof: partial(b, i), coinbase_proof: partial(b, 0) }
}

/// Submits a header as any relayer would.
pub fn submit(h: &BlockHeader) -> Result<(), sp_runtime::DispatchError> {
    use crate::{runtime::*, world::*};
    by(&acc(RELAYER), btc_relay::Call::<Runtime>::store_block_header { block_header: *h, fork_bound: u32::MAX })
}
/// Initializes the relay with a genesis block at `height`.
pub fn init(height: u32, r: &mut R) -> Blk {
    use crate::{runtime::*, world::*};
    let b = block(H256Le::zero(), height, vec![], 1_600_000_000, r);
    by(&acc(RELAYER), btc_relay::Call::<Runtime>::initialize { block_header: b.header, block_height: height }).expect("init relay");
    b
}
/// Mines a block with `txs` on the relay's best block.
pub fn mine(txs: Vec<Transaction>, r: &mut R) -> Blk {
    use crate::runtime::*;
    let h = BTCRelay::get_best_block_height() + 1;
    let b = block(BTCRelay::get_best_block(), h, txs, 1_600_000_000 + h * 600, r);
    submit(&b.header).expect("submit header");
    b
}
pub fn mine_n(n: u32, r: &mut R) {
    for _ in 0..n {
        mine(vec![], r);
    }
}
