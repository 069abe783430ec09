//! Estimated virtual size of transactions against transactions actually serialized.
use crate::model::*;
use bitcoin::utils::*;
use mon::rand::Rng;
use mon::*;

fn actual_vsize(kind: u32, n: u32, sigs: u32, keys: u32, outs: [u32; 4]) -> u64 {
    let mut t = MTx { version: 2, ins: vec![], outs: vec![], lock: 0 };
    for _ in 0..n {
        let mut i = MIn { prev: [1; 32], index: 0, script: vec![], seq: 0, wit: vec![], height: None };
        match kind {
            0 => i.script = vec![0; 1 + 72 + 1 + 33],
            1 => {
                let redeem = 3 + keys * 34;
                let push = if redeem < 76 { 1 } else if redeem <= 255 { 2 } else if redeem <= 65535 { 3 } else { 5 };
                i.script = vec![0; (1 + sigs * 73 + push + redeem) as usize];
            }
            _ => i.wit = vec![vec![0; 72], vec![0; 33]],
        }
        t.ins.push(i);
    }
    for (k, l) in [(0usize, 25usize), (1, 23), (2, 22), (3, 25)] {
        for _ in 0..outs[k] {
            t.outs.push((0, vec![0; l]));
        }
    }
    let base = t.ser(false).len() as u64;
    let total = t.ser(true).len() as u64;
    (base * 3 + total + 3) / 4
}

pub fn run(m: &Mon) {
    m.rule("input kind (p2pkh, p2sh multisig, p2wpkh) x counts biased to varint boundaries x output mixes; estimate vs virtual size of an actually serialized transaction with 72-byte signatures. State = distinct parameter tuple.");
    m.stream("size", 300_000, 10, |c, r| {
        let kind = r.gen_range(0..3);
        let cnt = |r: &mut R, lo: u32| match r.gen_range(0..12) {
            0 => *pick(r, &[251u32, 252, 253, 254, 255, 256]),
            1 => r.gen_range(lo..600),
            _ => r.gen_range(lo..8),
        };
        let n = cnt(r, 1);
        let keys = r.gen_range(1..16);
        let sigs = r.gen_range(1..=keys);
        let outs = [cnt(r, 0), r.gen_range(0..5), cnt(r, 0), r.gen_range(0..3)];
        let key = (kind, n, sigs, keys, outs);
        c.state_dbg(&key);
        c.sample(|| format!("{key:?}"));
        let st = match kind {
            0 => InputType::P2PKH,
            1 => InputType::P2SH { num_signatures: sigs, num_pubkeys: keys },
            _ => InputType::P2WPKHv0,
        };
        let Some(est) = c.total("virtual_transaction_size", || format!("{key:?}"), || {
            virtual_transaction_size(
                TransactionInputMetadata { script_type: st, count: n },
                TransactionOutputMetadata { num_p2pkh: outs[0], num_p2sh: outs[1], num_p2wpkh: outs[2], num_op_return: outs[3] },
            )
        }) else { return };
        c.event("estimate");
        let act = actual_vsize(kind, n, sigs, keys, outs) as i64;
        // tolerance: the per-input witness item count is counted once for all inputs, and push
        // opcodes of redeem scripts around 75 bytes are estimated one byte apart
        let redeem = 3 + keys * 34;
        let tol = match kind {
            0 => 0,
            1 if (74..77).contains(&redeem) => 1 + n as i64,
            1 => 0,
            _ => (n as i64 - 1 + 3) / 4,
        };
        c.check((est as i64 - act).abs() <= tol, "estimated size is not the size of the transaction", || format!("{key:?}: estimate {est} actual {act}"));
    });
    m.require("estimate", 1000);
}
