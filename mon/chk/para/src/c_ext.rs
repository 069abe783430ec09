//! C02: what a contract is told of Bitcoin, and the native token as contracts see it.
use crate::contracts::{BtcRelayExtension, NativeCurrencyWithEd as Ed};
use codec::{Decode, Encode};
use frame_support::traits::{
    fungible::Inspect,
    tokens::{Fortitude, Preservation, Provenance},
    BalanceStatus, Currency, ExistenceRequirement as Er, ReservableCurrency, WithdrawReasons,
};
use mon::{rand::Rng, *};
use pallet_contracts::chain_extension::*;
use rt::{btc, runtime::*, world::*};
use sp_core::H256;

struct Vm;
impl Ext for Vm {
    type T = Runtime;
}
type Proof = btc_relay::FullTransactionProof;

fn ask(id: u32, input: &[u8], space: usize) -> (std::result::Result<RetVal, sp_runtime::DispatchError>, Vec<u8>) {
    let mut out = vec![];
    let r = BtcRelayExtension::default().call::<Vm>(Environment::new(id, input, &mut out, space));
    (r, out)
}
fn bridge(case: &mut Case, r: &mut R) {
    let conf = r.gen_range(1..5);
    let cfg = Cfg { accounts: 2, btc_confirmations: conf, para_confirmations: 0, ..Default::default() };
    with_world(&cfg, || {
        btc::init(100 + r.gen_range(0..50), r);
        btc::mine_n(r.gen_range(0..3), r);
        // (block, how many blocks were mined after it, transactions with what they pay to whom)
        let mut blocks = vec![];
        let mut height = 0u32;
        for _ in 0..r.gen_range(2..6) {
            let mut txs = vec![];
            let mut pays = vec![];
            for _ in 0..r.gen_range(1..4) {
                let n = r.gen_range(1..4);
                let mut outs = vec![];
                let mut p: Vec<(bitcoin::Address, i64)> = vec![];
                for _ in 0..n {
                    if r.gen_ratio(1, 6) {
                        outs.push(btc::op_ret(0, &bytes(r, 32)));
                        continue;
                    }
                    let a = if !p.is_empty() && r.gen_ratio(1, 4) { p[0].0 } else { btc::any_address(r) };
                    let v = match r.gen_range(0..6) {
                        0 => 0,
                        1 => i64::MAX,
                        2 => -(r.gen_range(1..1_000_000i64)),
                        3 => 2_100_000_000_000_000,
                        _ => r.gen_range(1..1u64 << 40) as i64,
                    };
                    p.push((a, v));
                    outs.push(btc::pay(v, &a));
                }
                txs.push(btc::tx(outs, r));
                pays.push(p);
            }
            let b = btc::mine(txs, r);
            height += 1;
            blocks.push((b, height, pays));
            let n = r.gen_range(0..3);
            btc::mine_n(n, r);
            height += n;
        }
        for _ in 0..30 {
            let (b, at, pays) = pick(r, &blocks);
            let i = r.gen_range(0..pays.len());
            let mut proof: Proof = btc::proof(b, i + 1);
            let deep = height - at + 1 >= conf;
            let mut broken = false;
            match r.gen_range(0..8) {
                0 => {
                    proof.user_tx_proof.transaction.lock_at = bitcoin::types::LockTime::BlockHeight(r.gen_range(600..9000));
                    broken = true;
                }
                1 => {
                    if let Some(o) = proof.user_tx_proof.transaction.outputs.first_mut() {
                        o.value = o.value.wrapping_add(1);
                        broken = true;
                    }
                }
                2 => {
                    // the coinbase of another block
                    let o = pick(r, &blocks);
                    if o.1 != *at {
                        proof.coinbase_proof = btc::proof(&o.0, 1).coinbase_proof;
                        broken = true;
                    }
                }
                _ => {}
            }
            let to = match r.gen_range(0..5) {
                0 => btc::any_address(r),
                _ => pays[i].first().map(|p| p.0).unwrap_or_else(|| btc::any_address(r)),
            };
            let to = if r.gen_ratio(1, 4) && !pays[i].is_empty() { pick(r, &pays[i]).0 } else { to };
            let paid = pays[i].iter().find(|p| p.0 == to).map(|p| p.1);
            let want: Option<u64> = if broken || !deep { None } else { paid.and_then(|v| u64::try_from(v).ok()) };
            let input = (proof.clone(), to.encode()).encode();
            let before = sp_io::storage::root(sp_core::storage::StateVersion::V1);
            let id = 1101 | (r.gen::<u32>() << 16);
            let ctx = || format!("{paid:?} paid to {to:?}, {} confirmations of {conf}, broken {broken}", height - at + 1);
            let Some((res, out)) = case.total("asking for a payment panics", ctx, || ask(id, &input, 64)) else { return };
            case.eq(res, Ok(RetVal::Converging(0)), "a well-formed question is answered", ctx);
            case.eq(Option::<u64>::decode(&mut &out[..]).ok(), Some(want), "a contract is told of other than the payment in Bitcoin's chain", ctx);
            case.eq(out.len(), want.encode().len(), "the answer is one optional amount", ctx);
            case.event(match want {
                Some(_) => "told of a payment",
                None if broken => "refused a broken proof",
                None if !deep => "refused a fresh block",
                None => "told that nothing was paid",
            });
            // space for the answer
            let space = r.gen_range(0..12);
            let (res, out) = ask(id, &input, space);
            case.eq(res.is_ok(), space >= want.encode().len(), "an answer without room is an error", ctx);
            case.check(res.is_ok() || out.is_empty(), "part of an answer", ctx);
            // another question
            let other = loop {
                let x: u32 = *pick(r, &[0u32, 1100, 1102, 1, 77, 65535, 1101 ^ 0x8000]);
                if x & 0xffff != 1101 {
                    break x;
                }
            };
            let (res, out) = ask(other, &input, 64);
            case.check(res.is_err() && out.is_empty(), "a question there is no answer to", || format!("{other}"));
            case.event("unknown question refused");
            // questions that say nothing
            let addr = match r.gen_range(0..6) {
                0 => vec![],
                1 => {
                    let mut a = to.encode();
                    a.truncate(r.gen_range(0..a.len()));
                    a
                }
                2 => {
                    let mut a = to.encode();
                    a[0] = r.gen_range(5..=255);
                    a
                }
                3 => bytes(r, 40),
                4 => to.encode(),
                _ => [to.encode(), vec![1; 3]].concat(),
            };
            let decodes = bitcoin::Address::decode(&mut &addr[..]);
            let mut input = (proof.clone(), addr.clone()).encode();
            let mut garbled = false;
            match r.gen_range(0..6) {
                0 => {
                    input.truncate(r.gen_range(0..input.len()));
                    garbled = true;
                }
                1 => {
                    let i = r.gen_range(0..input.len());
                    input[i] ^= 1 << r.gen_range(0..8);
                    garbled = true;
                }
                2 => {
                    input = bytes(r, 200);
                    garbled = true;
                }
                _ => {}
            }
            let ctx = || format!("input {} bytes, garbled {garbled}, address {}", input.len(), hex(&addr));
            let Some((res, out)) = case.total("a contract's question panics the runtime", ctx, || ask(id, &input, 64)) else { return };
            if !garbled {
                case.eq(res.is_ok(), decodes.is_ok(), "a question about no address is an error", ctx);
                case.event(if decodes.is_ok() { "address read" } else { "no address refused" });
            } else {
                case.check(res.is_ok() || out.is_empty(), "part of an answer", ctx);
                case.event("garbled question survived");
            }
            case.eq(sp_io::storage::root(sp_core::storage::StateVersion::V1), before, "asking changes nothing", ctx);
            case.eval(6);
            case.state(&(id, to, want, addr).encode());
        }
    })
}
/// One operation, done through the contracts' view of the token or the token itself.
fn op<C>(r: &mut R) -> String
where
    C: Currency<AccountId, Balance = u128> + ReservableCurrency<AccountId> + Inspect<AccountId, Balance = u128>,
{
    use frame_support::traits::{Imbalance, SignedImbalance};
    let (a, b) = (acc(r.gen_range(0..3)), acc(r.gen_range(0..3)));
    let f = <C as Currency<AccountId>>::free_balance(&a);
    let x = match r.gen_range(0..8) {
        0 => 0,
        1 => f,
        2 => f.saturating_add(1),
        3 => r.gen(),
        _ => r.gen_range(0..=f),
    };
    let why = *pick(r, &[WithdrawReasons::all(), WithdrawReasons::TRANSFER, WithdrawReasons::FEE]);
    let er = *pick(r, &[Er::KeepAlive, Er::AllowDeath]);
    let pr = *pick(r, &[Preservation::Expendable, Preservation::Protect, Preservation::Preserve]);
    let st = *pick(r, &[BalanceStatus::Free, BalanceStatus::Reserved]);
    let k = r.gen_range(0..29);
    let end: bool = r.gen();
    macro_rules! imb {
        ($e:expr) => {{
            let i = $e;
            let s = format!("imbalance {}", i.peek());
            drop(i);
            s
        }};
    }
    let out = match k {
        0 => format!("{:?}", <C as Currency<_>>::total_balance(&a)),
        1 => format!("{:?}", C::can_slash(&a, x)),
        2 => format!("{:?}", <C as Currency<_>>::total_issuance()),
        3 => format!("{:?}", <C as Currency<_>>::active_issuance()),
        4 => imb!(C::burn(x)),
        5 => imb!(C::issue(x)),
        6 => format!("{:?}", C::free_balance(&a)),
        7 => format!("{:?}", C::ensure_can_withdraw(&a, x, why, f.saturating_sub(x))),
        8 => format!("{:?}", <C as Currency<_>>::transfer(&a, &b, x, er)),
        9 => {
            let (i, rest) = C::slash(&a, x);
            format!("{} {rest}", imb!(i))
        }
        10 => C::deposit_into_existing(&a, x).map(|i| imb!(i)).unwrap_or_else(|e| format!("{e:?}")),
        11 => match C::resolve_into_existing(&a, C::issue(x)) {
            Ok(()) => "resolved".into(),
            Err(i) => imb!(i),
        },
        12 => imb!(C::deposit_creating(&a, x)),
        13 => {
            C::resolve_creating(&a, C::issue(x));
            "resolved".into()
        }
        14 => C::withdraw(&a, x, why, er).map(|i| imb!(i)).unwrap_or_else(|e| format!("{e:?}")),
        15 => match C::settle(&a, C::burn(x), why, er) {
            Ok(()) => "settled".into(),
            Err(i) => imb!(i),
        },
        16 => match C::make_free_balance_be(&a, x) {
            SignedImbalance::Positive(i) => format!("+{}", imb!(i)),
            SignedImbalance::Negative(i) => format!("-{}", imb!(i)),
        },
        17 => format!("{:?}", C::can_reserve(&a, x)),
        18 => {
            let (i, rest) = C::slash_reserved(&a, x);
            format!("{} {rest}", imb!(i))
        }
        19 => format!("{:?}", C::reserved_balance(&a)),
        20 | 27 => format!("{:?}", C::reserve(&a, x)),
        21 | 28 => format!("{:?}", C::unreserve(&a, x)),
        22 => format!("{:?}", C::repatriate_reserved(&a, &b, x, st)),
        23 => format!("{:?}", <C as Inspect<_>>::balance(&a)),
        24 => format!("{:?} {:?}", C::reducible_balance(&a, pr, if end { Fortitude::Polite } else { Fortitude::Force }), <C as Inspect<_>>::total_balance(&a)),
        25 => format!("{:?} {:?}", <C as Inspect<_>>::total_issuance(), <C as Inspect<_>>::active_issuance()),
        _ => format!("{:?} {:?}", C::can_deposit(&a, x, if end { Provenance::Minted } else { Provenance::Extant }), C::can_withdraw(&a, x)),
    };
    if let 9 | 16 = k {
        // (kinds of use)
    }
    format!("{k} {x}: {out}")
}
fn token(case: &mut Case, r: &mut R) {
    let cfg = Cfg { accounts: 3, endowment: r.gen_range(1..1u128 << 70), ..Default::default() };
    with_world(&cfg, || {
        case.eq(<Ed as Currency<AccountId>>::minimum_balance(), 1, "contracts need a least balance", String::new);
        case.eq(<Ed as Inspect<AccountId>>::minimum_balance(), 1, "contracts need a least balance", String::new);
        if r.gen() {
            let _ = by(&acc(0), escrow::Call::<Runtime>::create_lock { amount: free(NATIVE, &acc(0)) / 2, unlock_height: WEEKS * 50 });
        }
        for _ in 0..40 {
            let seed: u64 = r.gen();
            let go = |ed: bool| {
                let mut q = <R as mon::rand::SeedableRng>::seed_from_u64(seed);
                dry(|| {
                    let s = if ed { op::<Ed>(&mut q) } else { op::<NativeCurrency>(&mut q) };
                    (s, ledger(), issuance(NATIVE), sp_io::storage::root(sp_core::storage::StateVersion::V1))
                })
            };
            let want = go(false);
            let Some(got) = case.total("the contracts' token panics", || want.0.clone(), || go(true)) else { return };
            case.eq(got.0, want.0.clone(), "the contracts' token answers otherwise than the token", String::new);
            case.check(got.1 == want.1 && got.2 == want.2 && got.3 == want.3, "the contracts' token does something else than the token", || want.0.clone());
            case.event(if want.1 == ledger() { "same answer" } else { "same deed" });
            // and go on from there
            let mut q = <R as mon::rand::SeedableRng>::seed_from_u64(seed);
            op::<NativeCurrency>(&mut q);
            if r.gen_ratio(1, 6) {
                let (to, x) = (acc(r.gen_range(0..3)), r.gen_range(1..1u128 << 60));
                if issuance(NATIVE).checked_add(x).is_some() {
                    mint(&to, NATIVE, x);
                }
            }
            case.eval(2);
            case.state(want.0.as_bytes());
        }
    })
}
pub fn run(m: &Mon) {
    m.rule("questions of contracts: payments in blocks of a growing Bitcoin chain, at every depth around what is required, with and without broken proofs, to the paid, an unpaid and an undecodable address, and garbled bytes; room for the answer of 0..12 bytes; other questions. The native token as contracts see it: each of its 29 operations done on a rolled-back copy and compared with the token itself. A state is a distinct question or operation with its answer.");
    m.stream("questions", 5000, 10, bridge);
    m.stream("token", 1500, 20, token);
    for (e, n) in [
        ("told of a payment", 3000),
        ("refused a broken proof", 2000),
        ("refused a fresh block", 1000),
        ("told that nothing was paid", 2000),
        ("unknown question refused", 10_000),
        ("no address refused", 5000),
        ("address read", 5000),
        ("garbled question survived", 5000),
        ("same deed", 5000),
        ("same answer", 5000),
    ] {
        m.require(e, n);
    }
    let _ = H256::zero();
}
