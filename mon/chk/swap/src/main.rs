//! C01: the Bitcoin swap contract. Histories of orders, payments and executions run on the real
//! contract in ink's off-chain environment; a model of the orders decides what each call may pay.
use bitcoin::{merkle::{MerkleProof, PartialTransactionProof}, types::*, Address};
use btc_swap::{BtcSwap, CustomEnvironment as E};
use codec::{Decode, Encode};
use ink::env::{test, DefaultEnvironment, Environment};
use mon::rand::Rng;
use mon::*;
use std::collections::BTreeMap;

type Acc = <DefaultEnvironment as Environment>::AccountId;

thread_local! {
    /// what the relay answers, and what it was asked
    static ANSWER: std::cell::RefCell<Box<dyn Fn(&[u8], &[u8]) -> (u32, Option<u64>)>> = std::cell::RefCell::new(Box::new(|_, _| (1, None)));
    static ASKED: std::cell::RefCell<Vec<(Vec<u8>, Vec<u8>)>> = std::cell::RefCell::new(vec![]);
}

struct Relay;
impl test::ChainExtension for Relay {
    fn func_id(&self) -> u32 {
        1101
    }
    fn call(&mut self, input: &[u8], output: &mut Vec<u8>) -> u32 {
        // the arguments arrive as one encoded byte string
        let inner = Vec::<u8>::decode(&mut &input[..]).unwrap_or_else(|_| input.to_vec());
        let parse = |b: &[u8]| {
            let mut c = b;
            let p = FullTransactionProof::decode(&mut c).ok()?;
            let a = Vec::<u8>::decode(&mut c).ok()?;
            c.is_empty().then_some((p, a))
        };
        let (p, a) = parse(&inner).or_else(|| parse(input)).expect("relay arguments");
        let pe = p.encode();
        ASKED.with(|x| x.borrow_mut().push((pe.clone(), a.clone())));
        let (code, ans) = ANSWER.with(|f| (f.borrow())(&pe, &a));
        if code == 0 {
            ans.encode_to(output);
        }
        code
    }
}

fn proof(id: u32) -> FullTransactionProof {
    let p = |n| PartialTransactionProof { transaction: Transaction::default(), tx_encoded_len: n, merkle_proof: MerkleProof::default() };
    FullTransactionProof { user_tx_proof: p(id), coinbase_proof: p(id ^ 0x55) }
}

#[derive(Clone, Debug)]
enum Op {
    Create { who: u8, addr: Address, min: u64, value: u128 },
    Execute { who: u8, party: u8, proof: u32 },
}

fn acc(i: u8) -> Acc {
    Acc::from([i + 10; 32])
}
const CONTRACT: [u8; 32] = [200; 32];
const N: u8 = 4;

fn balances() -> Vec<u128> {
    (0..N).map(acc).chain([Acc::from(CONTRACT)]).map(|a| test::get_account_balance::<DefaultEnvironment>(a).unwrap_or(0)).collect()
}

fn fresh() -> BtcSwap {
    ink::env::test::set_callee::<DefaultEnvironment>(Acc::from(CONTRACT));
    for i in 0..N {
        test::set_account_balance::<DefaultEnvironment>(acc(i), 1_000_000_000);
    }
    test::set_account_balance::<DefaultEnvironment>(Acc::from(CONTRACT), 0);
    test::register_chain_extension(Relay);
    BtcSwap::new()
}

/// One call with its balance effects; Err when the contract traps.
fn apply(c: &mut BtcSwap, op: &Op) -> Result<(), Panicked> {
    match op {
        Op::Create { who, addr, min, value } => {
            test::set_caller::<DefaultEnvironment>(acc(*who));
            test::transfer_in::<DefaultEnvironment>(*value);
            guard(|| c.create_trade(*addr, *min))
        }
        Op::Execute { who, party, proof: p } => {
            test::set_caller::<DefaultEnvironment>(acc(*who));
            test::set_value_transferred::<DefaultEnvironment>(0);
            guard(|| c.execute_trade(acc(*party), proof(*p)))
        }
    }
}

fn main() {
    let m = Mon::from_env();
    m.rule("stream history: 6..24 calls by four accounts on one contract (orders with addresses, minimums and locked values; executions with payment proofs the relay accepts, underpays, rejects, or knows for another address only). A trapped call is rolled back by replaying the accepted prefix in a fresh environment. Distinct accepted histories counted. Compared against a ledger of open orders: who was paid, how much, and that nobody else's balance moved.");
    m.stream("history", 60_000, 40, |c, r| {
        let mut kept: Vec<Op> = vec![];
        let mut orders: BTreeMap<u8, (Address, u64, u128)> = BTreeMap::new();
        // payments known to the relay: (proof, address) -> sats
        let mut pay: BTreeMap<(u32, Vec<u8>), u64> = BTreeMap::new();
        let seed: u64 = r.gen();
        let addrs: Vec<Address> = (0..3).map(|i| if i == 0 { Address::P2SH(bitcoin::types::H160::repeat_byte(r.gen())) } else if i == 1 { Address::P2WPKHv0(bitcoin::types::H160::repeat_byte(r.gen())) } else { Address::P2WSHv0(bitcoin::types::H256::repeat_byte(r.gen())) }).collect();
        for p in 0..6u32 {
            let a = pick(r, &addrs).encode();
            let s = if r.gen() { r.gen_range(0..2000) } else { weird_u64(r) };
            pay.insert((p, a), s);
        }
        let n = r.gen_range(6..24);
        let script: Vec<Op> = (0..n)
            .map(|_| {
                if r.gen_ratio(2, 5) {
                    Op::Create {
                        who: r.gen_range(0..N),
                        addr: *pick(r, &addrs),
                        min: if r.gen_ratio(1, 10) { 0 } else if r.gen() { r.gen_range(1..2000) } else { weird_u64(r) },
                        value: if r.gen_ratio(1, 6) { 0 } else { r.gen_range(1..10_000) },
                    }
                } else {
                    Op::Execute { who: r.gen_range(0..N), party: r.gen_range(0..N), proof: r.gen_range(0..7) }
                }
            })
            .collect();
        let payc = pay.clone();
        let fail_even = seed & 1 == 0;
        ANSWER.with(|f| {
            *f.borrow_mut() = Box::new(move |p, a| {
                let id = (0..8u32).find(|i| proof(*i).encode() == p).unwrap_or(99);
                match payc.get(&(id, a.to_vec())) {
                    Some(s) => (0, Some(*s)),
                    None if fail_even || id % 2 == 0 => (1, None),
                    None => (0, None),
                }
            })
        });
        let res = test::run_test::<DefaultEnvironment, _>(|_| {
            let mut ctr = fresh();
            for op in script.iter() {
                // keep distinct orders: replacing an open order is outside the claim
                if let Op::Create { who, .. } = op {
                    if orders.contains_key(who) {
                        continue;
                    }
                }
                let before = balances();
                ASKED.with(|x| x.borrow_mut().clear());
                let res = apply(&mut ctr, op);
                let after = balances();
                c.log(|| format!("{op:?} -> {} balances {after:?}", if res.is_ok() { "ok" } else { "trap" }));
                c.eval(1);
                match op {
                    Op::Create { who, addr, min, value } => {
                        let valid = *min > 0;
                        if res.is_ok() {
                            c.event("order created");
                            c.check(valid, "an order without a minimum is accepted", || format!("{op:?}"));
                            let mut want = before.clone();
                            want[*who as usize] -= value;
                            want[N as usize] += value;
                            c.eq(after, want, "creating an order moves other funds than the locked value", || format!("{op:?}"));
                            orders.insert(*who, (*addr, *min, *value));
                        } else {
                            c.event("order refused");
                            c.check(!valid, "a valid order is refused", || format!("{op:?} {res:?}"));
                        }
                    }
                    Op::Execute { who, party, proof: p } => {
                        let order = orders.get(party).cloned();
                        let sats = order.as_ref().and_then(|(a, _, _)| pay.get(&(*p, a.encode())));
                        let due = match (&order, sats) {
                            (Some((_, min, v)), Some(s)) if s >= min => Some(*v),
                            _ => None,
                        };
                        if res.is_ok() {
                            c.event("order paid out");
                            let Some(v) = due else {
                                c.violate(if order.is_none() { "payout without an open order" } else { "payout without a verified sufficient payment" }, format!("{op:?} order {order:?} relay says {sats:?}"));
                                return Ok(());
                            };
                            let mut want = before.clone();
                            want[N as usize] -= v;
                            want[*who as usize] += v;
                            c.eq(after, want, "payout differs from the locked value", || format!("{op:?} order {order:?}"));
                            let asked = ASKED.with(|x| x.borrow().clone());
                            c.check(asked.iter().any(|(pe, a)| *pe == proof(*p).encode() && *a == order.as_ref().unwrap().0.encode()), "payout without asking the relay about this proof and address", || format!("{op:?}"));
                            orders.remove(party);
                        } else {
                            c.event(if order.is_none() { "no order" } else if sats.is_none() { "unverified payment" } else { "underpaid" });
                            c.check(due.is_none(), "a paid order is not executed", || format!("{op:?} order {order:?} relay says {sats:?} {res:?}"));
                        }
                    }
                }
                if c.failed() {
                    return Ok(());
                }
                if res.is_ok() {
                    kept.push(op.clone());
                } else {
                    // the chain would discard every effect of a trapped call
                    ctr = replay(&kept);
                    let b = balances();
                    if b != before {
                        panic!("harness: replay of {kept:?} gives {b:?}, not {before:?}");
                    }
                }
                let locked: u128 = orders.values().map(|o| o.2).sum();
                c.eq(balances()[N as usize], locked, "the contract does not hold exactly the value of the open orders", String::new);
            }
            Ok(())
        });
        res.unwrap();
        c.state(format!("{kept:?}").as_bytes());
        c.sample(|| format!("{kept:?}"));
        let _ = std::marker::PhantomData::<E>;
    });
    m.require("order created", 2000);
    m.require("order paid out", 500);
    m.require("no order", 500);
    m.require("unverified payment", 500);
    m.require("underpaid", 100);
    m.require("order refused", 100);
    m.finish()
}

fn replay(kept: &[Op]) -> BtcSwap {
    // reset storage and balances of this thread's environment
    let _ = test::run_test::<DefaultEnvironment, _>(|_| Ok(()));
    let mut ctr = fresh();
    for k in kept {
        apply(&mut ctr, k).expect("accepted call replays");
    }
    ctr
}
