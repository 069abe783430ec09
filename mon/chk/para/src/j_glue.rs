//! J02: which messages from other chains run, which addresses the virtual machine's own code has, who gets the fees.
use frame_support::traits::{Currency, Get, OnRuntimeUpgrade, OnTimestampSet, OnUnbalanced, ProcessMessageError};
use frame_support::weights::Weight;
use mon::{rand::Rng, *};
use pallet_ethereum::*;
use pallet_evm::{IsPrecompileResult, PrecompileHandle, PrecompileSet};
use rt::{runtime::*, world::*};
use runtime_common::{
    evm::{precompiles::InterBtcPrecompiles, GetTransactionAction, SetEvmChainId},
    AndBarrier, ConsensusOnTimestampSet, ToTreasury, Transactless,
};
use sp_core::{H160, U256};
use std::cell::RefCell;
use xcm::latest::{DoubleEncoded, Instruction, MultiLocation, OriginKind, Xcm};
use xcm_executor::traits::{Properties, ShouldExecute};

type Seen = (u8, MultiLocation, Vec<Instruction<u8>>, Weight, Properties);
thread_local! {
    /// what each wrapped barrier answers, and what it was asked
    static ANSWER: RefCell<[Option<ProcessMessageError>; 3]> = Default::default();
    static ASKED: RefCell<Vec<(u8, Vec<u8>)>> = Default::default();
    static MANUAL: RefCell<bool> = Default::default();
}
struct B<const N: usize>;
impl<const N: usize> ShouldExecute for B<N> {
    fn should_execute<C>(o: &MultiLocation, i: &mut [Instruction<C>], w: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
        let mut d = format!("{o:?} {} {w:?}", i.len()).into_bytes();
        d.extend(format!("{p:?}").bytes());
        ASKED.with(|a| a.borrow_mut().push((N as u8, d)));
        // barriers may take of the credit
        p.weight_credit = p.weight_credit.saturating_sub(Weight::from_parts(N as u64 + 1, 0));
        ANSWER.with(|a| a.borrow()[N].map_or(Ok(()), Err))
    }
}
fn err(r: &mut R) -> Option<ProcessMessageError> {
    use ProcessMessageError::*;
    match r.gen_range(0..8) {
        0 => Some(BadFormat),
        1 => Some(Corrupt),
        2 => Some(Unsupported),
        3 => Some(Overweight(Weight::from_parts(r.gen(), 7))),
        4 => Some(Yield),
        _ => None,
    }
}
fn loc(r: &mut R) -> MultiLocation {
    MultiLocation { parents: r.gen_range(0..3), interior: (0..r.gen_range(0..3)).map(|_| r.gen_range(0..3000)).collect() }
}
fn msg<C>(r: &mut R, depth: u32) -> Vec<Instruction<C>> {
    use Instruction::*;
    let n = r.gen_range(0..6);
    (0..n)
        .map(|_| match r.gen_range(0..if depth > 0 { 18 } else { 8 }) {
            0 => WithdrawAsset(vec![(loc(r), r.gen())]),
            1 => ReserveAssetDeposited(vec![(loc(r), r.gen())]),
            2 => BuyExecution { fees: r.gen(), weight_limit: None },
            3 => DepositAsset { assets: vec![r.gen()], beneficiary: loc(r) },
            4 => DescendOrigin(loc(r)),
            5 => ClearOrigin,
            6 => RefundSurplus,
            7 => Trap(r.gen()),
            8 | 9 => Transact { origin_kind: *pick(r, &[OriginKind::Native, OriginKind::SovereignAccount, OriginKind::Superuser, OriginKind::Xcm]), require_weight_at_most: Weight::from_parts(r.gen(), 0), call: DoubleEncoded(bytes(r, 20), Default::default()) },
            10 => DepositReserveAsset { assets: vec![], dest: loc(r), xcm: Xcm(msg(r, depth - 1)) },
            11 => TransferReserveAsset { assets: vec![1], dest: loc(r), xcm: Xcm(msg(r, depth - 1)) },
            12 => InitiateReserveWithdraw { assets: vec![], reserve: loc(r), xcm: Xcm(msg(r, depth - 1)) },
            13 => ExportMessage { network: 1, destination: loc(r), xcm: Xcm(msg(r, depth - 1)) },
            14 => SetErrorHandler(Xcm(msg(r, depth - 1))),
            15 => SetAppendix(Xcm(msg(r, depth - 1))),
            16 => ClearOrigin,
            _ => RefundSurplus,
        })
        .collect()
}
fn barrier(case: &mut Case, r: &mut R) {
    let a = [err(r), err(r), err(r)];
    ANSWER.with(|x| *x.borrow_mut() = a);
    ASKED.with(|x| x.borrow_mut().clear());
    let (o, w) = (loc(r), Weight::from_parts(r.gen(), r.gen()));
    let mut p = Properties { weight_credit: Weight::from_parts(1000, 0), message_id: r.gen() };
    let p0 = p.clone();
    let mut i: Vec<Instruction<u8>> = msg(r, 2);
    let i0 = i.clone();
    let outer = i.iter().any(|x| matches!(x, Instruction::Transact { .. }));
    let text = format!("{i:?}");
    let inner = !outer && text.contains("Transact {");
    let kind = r.gen_range(0..4);
    let first = |l: &[usize]| l.iter().find_map(|n| a[*n]);
    let un = Some(ProcessMessageError::Unsupported);
    let (got, want) = match kind {
        0 => (AndBarrier::<B<0>, B<1>>::should_execute(&o, &mut i, w, &mut p), first(&[0, 1])),
        1 => (Transactless::<B<0>>::should_execute(&o, &mut i, w, &mut p), if outer { un } else { first(&[0]) }),
        2 => (Transactless::<AndBarrier<B<0>, B<1>>>::should_execute(&o, &mut i, w, &mut p), if outer { un } else { first(&[0, 1]) }),
        _ => (
            AndBarrier::<B<2>, Transactless<AndBarrier<B<0>, B<1>>>>::should_execute(&o, &mut i, w, &mut p),
            match a[2] {
                Some(e) => Some(e),
                None if outer => un,
                None => first(&[0, 1]),
            },
        ),
    };
    let ctx = || format!("arrangement {kind}, barriers answer {a:?}, message {text}");
    case.eq(got.is_ok(), want.is_none(), "a message from another chain passes exactly when every barrier lets it and it calls nothing here", ctx);
    if got.is_ok() {
        // every barrier saw the message as it came
        let want: Vec<u8> = match kind {
            0 | 2 => vec![0, 1],
            1 => vec![0],
            _ => vec![2, 0, 1],
        };
        let seen = ASKED.with(|x| x.borrow().clone());
        let ids: std::collections::BTreeSet<u8> = seen.iter().map(|x| x.0).collect();
        case.eq(ids, want.iter().copied().collect(), "every barrier is asked", ctx);
        let head = format!("{o:?} {} {w:?}", i0.len()).into_bytes();
        case.check(seen.iter().all(|x| x.1.starts_with(&head)), "a barrier was asked about another message", ctx);
        case.check(i == i0, "the message was changed on its way", ctx);
        let credit: u64 = want.iter().map(|n| *n as u64 + 1).sum();
        if seen.len() == want.len() {
            case.eq(p.weight_credit.ref_time(), p0.weight_credit.ref_time() - credit, "what barriers note is kept", ctx);
        }
        case.event(if inner { "let through, with a call for another chain" } else { "let through" });
    } else {
        case.event(if outer { "refused for its call" } else { "refused by a barrier" });
    }
    case.eval(1);
    case.state(format!("{kind}{a:?}{}", i0.iter().map(|x| format!("{x:?}").split([' ', '(']).next().unwrap().to_string()).collect::<String>()).as_bytes());
}
struct H(H160, Vec<u8>);
impl PrecompileHandle for H {
    fn code_address(&self) -> H160 {
        self.0
    }
    fn input(&self) -> &[u8] {
        &self.1
    }
}
fn address(r: &mut R) -> H160 {
    let mut b = [0u8; 20];
    match r.gen_range(0..6) {
        0 => b[19] = r.gen_range(0..12),
        1 => b[r.gen_range(0..20)] = r.gen_range(0..12),
        2 => {
            b[19] = r.gen_range(0..8);
            b[r.gen_range(0..19)] = r.gen();
        }
        3 => b[18] = r.gen_range(0..6),
        4 => b[19] = r.gen(),
        _ => r.fill(&mut b[..]),
    }
    H160(b)
}
fn precompile(case: &mut Case, r: &mut R) {
    let a = address(r);
    let input = bytes(r, 64);
    let set = InterBtcPrecompiles::<Runtime>::new();
    let n = U256::from_big_endian(a.as_bytes());
    let want = (n <= U256::from(5)).then(|| ["", "ECRecover", "Sha256", "Ripemd160", "Identity", "Modexp"][n.as_usize()]).filter(|x| !x.is_empty());
    let got = case.total("running code at an address panics", || format!("{a:?}"), || set.execute(&mut H(a, input.clone())));
    let Some(got) = got else { return };
    let got = got.map(|x| x.map(|y| (y.by, y.output)));
    case.eq(got.clone(), want.map(|w| Ok((w, input.clone()))), "the address does not have the code Ethereum gives it", || format!("{a:?}"));
    let is = set.is_precompile(a, r.gen());
    case.eq(is, IsPrecompileResult::Answer { is_precompile: want.is_some(), extra_cost: 0 }, "whether an address has its own code", || format!("{a:?}"));
    let used = InterBtcPrecompiles::<Runtime>::used_addresses();
    case.eq(used.contains(&a), want.is_some(), "addresses with their own code", || format!("{a:?}"));
    case.event(if want.is_some() { "address with its own code" } else { "ordinary address" });
    case.eval(1);
    case.state(a.as_bytes());
}
fn action(case: &mut Case, r: &mut R) {
    let action = if r.gen() { TransactionAction::Create } else { TransactionAction::Call(address(r)) };
    macro_rules! t {
        ($n:ident) => {
            $n { nonce: r.gen::<u64>().into(), gas_limit: r.gen::<u64>().into(), action, value: r.gen::<u64>().into(), input: bytes(r, 10) }
        };
    }
    let x = match r.gen_range(0..3) {
        0 => Transaction::Legacy(t!(LegacyTransaction)),
        1 => Transaction::EIP2930(t!(EIP2930Transaction)),
        _ => Transaction::EIP1559(t!(EIP1559Transaction)),
    };
    case.eq(x.action(), action, "an Ethereum transaction does something else than it says", || format!("{x:?}"));
    case.event("action read");
    case.eval(1);
    case.state_dbg(&x);
}
struct Manual;
impl Get<bool> for Manual {
    fn get() -> bool {
        MANUAL.with(|m| *m.borrow())
    }
}
fn chain(case: &mut Case, r: &mut R) {
    let cfg = Cfg { accounts: 3, endowment: r.gen_range(1..1u128 << 60), ..Default::default() };
    with_world(&cfg, || {
        for _ in 0..12 {
            // fees
            let who = acc(r.gen_range(0..3));
            let had = free(NATIVE, &who);
            let x = match r.gen_range(0..4) {
                0 => 0,
                1 => had,
                _ => r.gen_range(0..=had),
            };
            let t = TreasuryAccount::get();
            let before = ledger();
            let (all, pot) = (issuance(NATIVE), free(NATIVE, &t));
            let fee = NativeCurrency::withdraw(&who, x, frame_support::traits::WithdrawReasons::FEE, frame_support::traits::ExistenceRequirement::AllowDeath).expect("fee");
            let twice = r.gen::<bool>() && x > 1;
            if twice {
                let (a, b) = frame_support::traits::Imbalance::split(fee, x / 3);
                <ToTreasury<Runtime, TreasuryAccount, NativeCurrency> as OnUnbalanced<_>>::on_unbalanceds(vec![a, b].into_iter());
            } else {
                <ToTreasury<Runtime, TreasuryAccount, NativeCurrency> as OnUnbalanced<_>>::on_unbalanced(fee);
            }
            case.eq(free(NATIVE, &t), pot + x, "the treasury gets what is taken from accounts", || format!("{x} of {had}"));
            case.eq(issuance(NATIVE), all, "what goes to the treasury is neither made nor lost", || format!("{x}"));
            let after = ledger();
            for (k, v) in &before {
                if k.1 != who && k.1 != t {
                    case.eq(after.get(k), Some(v), "another account's balance", || format!("{k:?}"));
                }
            }
            case.event(if x == 0 { "nothing to the treasury" } else { "paid to the treasury" });
            // the chain's number
            let id = *pick(r, &[0u32, 1, 2032, 2092, u32::MAX]) ^ if r.gen() { r.gen() } else { 0 };
            parachain_info::Pallet::<Runtime>::set(id);
            pallet_evm_chain_id::ChainId::<Runtime>::put(r.gen());
            let _ = SetEvmChainId::<Runtime>::on_runtime_upgrade();
            case.eq(pallet_evm_chain_id::ChainId::<Runtime>::get(), id as u64, "Ethereum's chain id is the parachain's", || format!("{id}"));
            let _ = SetEvmChainId::<Runtime>::on_runtime_upgrade();
            case.eq(pallet_evm_chain_id::ChainId::<Runtime>::get(), id as u64, "Ethereum's chain id is the parachain's", || format!("{id}, twice"));
            // the time
            let manual = r.gen();
            MANUAL.with(|m| *m.borrow_mut() = manual);
            pallet_aura::HEARD.with(|h| h.borrow_mut().clear());
            let now: u64 = r.gen();
            <ConsensusOnTimestampSet<Runtime, Manual> as OnTimestampSet<u64>>::on_timestamp_set(now);
            let heard = pallet_aura::HEARD.with(|h| h.borrow().clone());
            case.eq(heard, if manual { vec![] } else { vec![now] }, "consensus is told the time unless blocks are made by hand", || format!("{manual} {now}"));
            case.event(if manual { "time of a block by hand" } else { "time told" });
            case.eval(5);
            case.state(&(x, id, now, manual).using());
        }
    })
}
trait Using {
    fn using(&self) -> Vec<u8>;
}
impl<T: std::fmt::Debug> Using for T {
    fn using(&self) -> Vec<u8> {
        format!("{self:?}").into_bytes()
    }
}
pub fn run(m: &Mon) {
    m.rule("messages: up to six instructions of fifteen kinds with messages for other chains within them, before four arrangements of the runtime's barriers around recording ones with drawn answers; addresses near and far from those of Ethereum's own code; transactions of every kind; withdrawn native tokens, chain numbers and times in a live chain. A state is a distinct message shape, address, transaction or fee.");
    m.stream("barriers", 60_000, 400, barrier);
    m.stream("addresses", 40_000, 400, precompile);
    m.stream("transactions", 10_000, 400, action);
    m.stream("chain", 800, 20, chain);
    for (e, n) in [
        ("let through", 5000),
        ("let through, with a call for another chain", 300),
        ("refused for its call", 5000),
        ("refused by a barrier", 5000),
        ("address with its own code", 2000),
        ("ordinary address", 10_000),
        ("action read", 5000),
        ("paid to the treasury", 3000),
        ("time told", 2000),
        ("time of a block by hand", 2000),
    ] {
        m.require(e, n);
    }
}
