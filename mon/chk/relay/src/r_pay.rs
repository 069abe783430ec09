//! R03: which confirmed transactions count as a payment.
use bitcoin::{types::TransactionOutput, Address, Script};
use mon::rand::Rng;
use mon::*;
use rt::{btc, runtime::*, world::*};
use sp_core::H256;

#[derive(Clone, Debug, PartialEq)]
enum O {
    Pay(i64, Address),
    Ret(i64, Vec<u8>),
    Odd(i64, Vec<u8>),
}
fn out(o: &O) -> TransactionOutput {
    match o {
        O::Pay(v, a) => btc::pay(*v, a),
        O::Ret(v, d) => btc::op_ret(*v, d),
        O::Odd(v, s) => TransactionOutput { value: *v, script: Script::from(s.clone()) },
    }
}
/// Exactly one OP_RETURN with the id and no value; one or two payments, to different addresses;
/// nothing else; the recipient gets exactly the amount.
fn valid_op_return(o: &[O], to: &Address, amount: i64, id: &H256) -> bool {
    if o.len() > 3 {
        return false;
    }
    let mut rets = 0;
    let mut pays: Vec<(i64, Address)> = vec![];
    for x in o {
        match x {
            O::Odd(..) => return false,
            O::Ret(v, d) => {
                if *v != 0 || d[..] != id[..] {
                    return false;
                }
                rets += 1;
            }
            O::Pay(v, a) => pays.push((*v, *a)),
        }
    }
    rets == 1 && (pays.len() == 1 || (pays.len() == 2 && pays[0].1 != pays[1].1)) && pays.iter().any(|p| p.1 == *to && p.0 == amount)
}
fn issue_amount(o: &[O], to: &Address) -> Option<i64> {
    o.iter().find_map(|x| match x {
        O::Pay(v, a) if a == to => Some(*v),
        _ => None,
    })
}
fn amount(r: &mut R) -> i64 {
    match r.gen_range(0..6) {
        0 => r.gen_range(0..3),
        1 => i64::MAX - r.gen_range(0..2),
        2 => 21_000_000_0000_0000,
        _ => r.gen_range(1..10_000_000),
    }
}
/// same hash, other address kind
fn twin(a: &Address) -> Address {
    match a {
        Address::P2PKH(h) => Address::P2SH(*h),
        Address::P2SH(h) => Address::P2WPKHv0(*h),
        Address::P2WPKHv0(h) => Address::P2PKH(*h),
        Address::P2WSHv0(h) => Address::P2PKH(sp_core::H160::from_slice(&h[..20])),
    }
}
fn outputs(r: &mut R, to: &Address, amt: i64, id: &H256) -> Vec<O> {
    let other = btc::any_address(r);
    let mut o = match r.gen_range(0..8) {
        0..=2 => vec![O::Pay(amt, *to), O::Ret(0, id.as_bytes().to_vec())],
        3..=5 => vec![O::Pay(amt, *to), O::Pay(amount(r), other), O::Ret(0, id.as_bytes().to_vec())],
        6 => vec![O::Pay(amt, *to)],
        _ => vec![],
    };
    for _ in 0..*pick(r, &[0, 0, 0, 1, 1, 2]) {
        let n = o.len();
        match r.gen_range(0..14) {
            0 => o.push(O::Pay(amt, *to)),
            1 => o.push(O::Pay(amount(r), other)),
            2 => o.push(O::Pay(amount(r), btc::any_address(r))),
            3 => o.push(O::Ret(0, id.as_bytes().to_vec())),
            4 => {
                let l = *pick(r, &[0usize, 1, 31, 33, 64, 75]);
                let l = l;
                o.push(O::Ret(0, bytes(r, l)))
            }
            5 => o.push(O::Odd(0, { let l = *pick(r, &[0usize, 1, 5, 25, 35, 67]); let mut b = bytes(r, l); if let Some(x) = b.first_mut() { *x = 0x51; } b })),
            6 if n > 0 => {
                let i = r.gen_range(0..n);
                o.remove(i);
            }
            7 if n > 0 => {
                let i = r.gen_range(0..n);
                match &mut o[i] {
                    O::Pay(v, _) | O::Ret(v, _) | O::Odd(v, _) => *v = v.saturating_add(if r.gen() { 1 } else { -1 }).max(0),
                }
            }
            8 if n > 0 => {
                let i = r.gen_range(0..n);
                if let O::Pay(_, a) = &mut o[i] {
                    *a = twin(a);
                }
            }
            9 if n > 0 => {
                let i = r.gen_range(0..n);
                if let O::Ret(_, d) = &mut o[i] {
                    if !d.is_empty() {
                        let j = r.gen_range(0..d.len());
                        d[j] ^= 1 << r.gen_range(0..8);
                    }
                }
            }
            10 if n > 0 => {
                let i = r.gen_range(0..n);
                if let O::Ret(_, d) = &mut o[i] {
                    if r.gen() || d.len() > 70 { d.truncate(31) } else { d.push(0) }
                }
            }
            11 if n > 0 => {
                let i = r.gen_range(0..n);
                let x = o[i].clone();
                o.push(x);
            }
            12 => o.push(O::Pay(0, *to)),
            _ => o.push(O::Pay(amt, twin(to))),
        }
    }
    use mon::rand::seq::SliceRandom;
    o.shuffle(r);
    o.truncate(8);
    o
}

fn case_(case: &mut Case, r: &mut R) {
    let cfg = Cfg { btc_confirmations: 1, para_confirmations: 0, accounts: 0, ..Default::default() };
    with_world(&cfg, || {
        btc::init(7, r);
        for _ in 0..6 {
            let specs: Vec<_> = (0..r.gen_range(1..12))
                .map(|_| {
                    let to = btc::any_address(r);
                    let id = H256::from_slice(&bytes(r, 32));
                    let amt = amount(r);
                    let o = outputs(r, &to, amt, &id);
                    let t = btc::tx(o.iter().map(out).collect(), r);
                    (to, id, amt, o, t)
                })
                .collect();
            let b = btc::mine(specs.iter().map(|s| s.4.clone()).collect(), r);
            for (i, (to, id, amt, o, _)) in specs.iter().enumerate() {
                let want = valid_op_return(o, to, *amt, id);
                let p = btc::proof(&b, i + 1);
                let ctx = || format!("to {to:?} amount {amt} id {id:?}\noutputs {o:?}");
                let Some(got) = case.total("payment check", ctx, || BTCRelay::verify_and_validate_op_return_transaction(p.clone(), *to, *amt, *id)) else { return };
                case.event(if want { "op-return payment accepted" } else { "op-return payment refused" });
                case.eq(got.is_ok(), want, if want { "valid OP_RETURN payment refused" } else { "invalid OP_RETURN payment accepted" }, || format!("{got:?}\n{}", ctx()));
                // as an unsigned amount, as the pallets call it
                let Some(g2) = case.total("payment check", ctx, || BTCRelay::verify_and_validate_op_return_transaction(p.clone(), *to, *amt as u128, *id)) else { return };
                case.eq(g2.is_ok(), want, "payment check depends on the amount's type", ctx);
                let over = *amt as u128 + (1u128 << 64);
                let Some(g3) = case.total("payment check", ctx, || BTCRelay::verify_and_validate_op_return_transaction(p.clone(), *to, over, *id)) else { return };
                case.check(g3.is_err(), "amount beyond 64 bits wrapped around", ctx);
                let w = issue_amount(o, to);
                let Some(g) = case.total("issue payment", ctx, || BTCRelay::get_and_verify_issue_payment::<u128>(p.clone(), *to)) else { return };
                case.event(if w.is_some() { "issue payment found" } else { "issue payment absent" });
                case.eq(g.ok(), w.map(|v| v as u128), "amount paid to the deposit address", ctx);
                case.state_dbg(&(o.iter().map(|x| match x { O::Pay(v, a) => if a == to { (0u8, *v == *amt) } else { (1, false) }, O::Ret(v, d) => (2 + (*v == 0) as u8, d[..] == id[..]), O::Odd(..) => (4, false) }).collect::<Vec<_>>()));
                case.eval(4);
                if case.failed() {
                    return;
                }
            }
        }
    });
}
pub fn run(m: &Mon) {
    m.rule("A case mines blocks of transactions whose outputs are a valid payment with random edits (duplicates, other amounts, address twins, wrong, missing or repeated OP_RETURN, foreign scripts, order); a state is the shape of the output list relative to the expected payment.");
    m.stream("payments", 1500, 12, |c, r| case_(c, r));
    for (e, n) in [("op-return payment accepted", 500), ("op-return payment refused", 2000), ("issue payment found", 2000), ("issue payment absent", 200)] {
        m.require(e, n);
    }
}
