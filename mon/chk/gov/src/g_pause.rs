//! T01: pausing of transactions.
use codec::Encode;
use frame_support::traits::{Contains, GetCallMetadata};
use mon::{rand::Rng, *};
use rt::{preimg, runtime::*, world::*};
use sp_runtime::DispatchError;
use std::collections::BTreeSet;

type Name = (Vec<u8>, Option<Vec<u8>>);

/// Calls of many pallets, most of which fail quickly: only whether they are let through counts.
fn calls(r: &mut R) -> Vec<RuntimeCall> {
    let a = acc(1);
    vec![
        frame_system::Call::remark { remark: vec![1] }.into(),
        preimg::Call::note_preimage { bytes: bytes(r, 20) }.into(),
        orml_tokens::Call::transfer { dest: a.clone(), currency_id: RELAY, amount: 1 }.into(),
        orml_tokens::Call::transfer_all { dest: a.clone(), currency_id: RELAY, keep_alive: false }.into(),
        escrow::Call::create_lock { amount: 1000, unlock_height: WEEKS * 5 }.into(),
        escrow::Call::withdraw {}.into(),
        democracy::Call::second { proposal: 0 }.into(),
        democracy::Call::remove_vote { index: 0 }.into(),
        oracle::Call::feed_values { values: vec![] }.into(),
        collator_selection::Call::register_as_candidate {}.into(),
        collator_selection::Call::leave_intent {}.into(),
        loans::Call::mint { asset_id: RELAY, mint_amount: 5 }.into(),
        loans::Call::redeem_all { asset_id: RELAY }.into(),
        loans::Call::claim_reward {}.into(),
        dex_general::Call::remove_liquidity { asset_0: RELAY, asset_1: NATIVE, liquidity: 1, amount_0_min: 0, amount_1_min: 0, recipient: a.clone(), deadline: 9 }.into(),
        clients_info::Call::set_current_client_release { client_name: Default::default(), release: clients_info::ClientRelease { uri: Default::default(), checksum: Default::default() } }.into(),
        tx_pause::Call::pause { full_name: (b"Tokens".to_vec().try_into().unwrap(), None) }.into(),
        tx_pause::Call::unpause { full_name: (b"Tokens".to_vec().try_into().unwrap(), None) }.into(),
    ]
}
fn full(n: &Name) -> tx_pause::FullNameOf<Runtime> {
    (n.0.clone().try_into().unwrap(), n.1.clone().map(|c| c.try_into().unwrap()))
}
fn always(p: &str) -> bool {
    ["System", "Timestamp", "Democracy", "Escrow"].contains(&p)
}
struct Model {
    paused: BTreeSet<Name>,
    white: Vec<Name>,
    long: bool,
}
impl Model {
    fn is_paused(&self, p: &[u8], c: &[u8]) -> bool {
        if p.len() > 128 || c.len() > 128 {
            return self.long;
        }
        let n = (p.to_vec(), Some(c.to_vec()));
        !self.white.contains(&n) && (self.paused.contains(&(p.to_vec(), None)) || self.paused.contains(&n))
    }
}
fn history(case: &mut Case, r: &mut R) {
    with_world(&Cfg { accounts: 3, ..Default::default() }, || {
        let cs = calls(r);
        let metas: Vec<(Vec<u8>, Vec<u8>)> = cs.iter().map(|c| c.get_call_metadata()).map(|m| (m.pallet_name.as_bytes().to_vec(), m.function_name.as_bytes().to_vec())).collect();
        let names: Vec<Name> = metas.iter().flat_map(|(p, c)| [(p.clone(), None), (p.clone(), Some(c.clone()))]).collect();
        let mut m = Model { paused: Default::default(), white: vec![], long: r.gen() };
        if m.long {
            sp_io::storage::set(LONG_NAMES, &[1]);
        }
        for _ in 0..*pick(r, &[0, 0, 1, 3]) {
            m.white.push(pick(r, &names).clone());
        }
        sp_io::storage::set(WHITELIST, &m.white.encode());
        for _ in 0..r.gen_range(5..50) {
            let odd = |r: &mut R| -> Name {
                match r.gen_range(0..6) {
                    0 => (bytes(r, 128), None),
                    1 => (vec![], Some(vec![])),
                    2 => (b"TxPause".to_vec(), Some(b"unpause".to_vec())),
                    3 => (b"TxPause".to_vec(), None),
                    4 => (vec![b'x'; 128], Some(vec![b'y'; 128])),
                    _ => { let (p, _) = pick(r, &metas).clone(); (p, Some(b"nothing".to_vec())) }
                }
            };
            let n = if !m.paused.is_empty() && r.gen_ratio(1, 3) {
                let l: Vec<_> = m.paused.iter().cloned().collect();
                let (p, c) = pick(r, &l).clone();
                // also the whole pallet of a paused call, and a call of a paused pallet
                match r.gen_range(0..3) {
                    0 => (p, None),
                    1 => metas.iter().find(|x| x.0 == p).map(|x| (p.clone(), Some(x.1.clone()))).unwrap_or((p, c)),
                    _ => (p, c),
                }
            } else if r.gen_ratio(1, 6) {
                odd(r)
            } else {
                pick(r, &names).clone()
            };
            let o = if r.gen_ratio(1, 8) { signed(&acc(r.gen_range(0..3))) } else { Origin::root() };
            let root = frame_system::ensure_root(o.clone()).is_ok();
            let shut = m.paused.contains(&(n.0.clone(), None)) || m.paused.contains(&n);
            let white = m.white.contains(&n);
            let (p, good) = if r.gen_ratio(3, 5) {
                (true, root && n.0 != b"TxPause" && !shut && !white)
            } else {
                // what was listed can be unlisted, nothing else
                (false, root && m.paused.contains(&n) && !white)
            };
            let full_name = full(&n);
            let c: RuntimeCall = if p { tx_pause::Call::pause { full_name }.into() } else { tx_pause::Call::unpause { full_name }.into() };
            let Some(res) = act(case, "pause", o, c) else { return };
            let sig = match (p, good) {
                (true, true) => "governance could not pause what may be paused",
                (true, false) => "something was paused by others, twice, or though it must never be",
                (false, true) => "governance could not unpause what was paused",
                (false, false) => "something was reported unpaused that was not paused by itself, or by others than governance",
            };
            if !case.check(res.is_ok() == good, sig, || format!("{} {:?}: {}; paused {:?}", String::from_utf8_lossy(&n.0), n.1.as_ref().map(|c| String::from_utf8_lossy(c).into_owned()), err_name(&res), m.paused.len())) {
                return;
            }
            case.event(&format!("{} {}", if p { "pause" } else { "unpause" }, if good { "ok" } else { "refused" }));
            if good {
                if p {
                    m.paused.insert(n.clone());
                } else {
                    m.paused.remove(&n);
                }
            }
            // every call is let through exactly when neither it nor its pallet is paused
            for (i, (pn, cn)) in metas.iter().enumerate() {
                let shut = m.is_paused(pn, cn);
                let free = always(std::str::from_utf8(pn).unwrap());
                let shown = || format!("{}.{} after {} {:?}", String::from_utf8_lossy(pn), String::from_utf8_lossy(cn), String::from_utf8_lossy(&n.0), n.1.as_ref().map(|c| String::from_utf8_lossy(c).into_owned()));
                case.eval(2);
                if !case.eq(TxPause::contains(&cs[i]), !shut, "a call is not let through exactly when neither it nor its pallet is paused", shown) {
                    return;
                }
                if r.gen_ratio(1, 3) {
                    let deep = r.gen_range(0..3);
                    let mut c = cs[i].clone();
                    for _ in 0..deep {
                        c = multi_transaction_payment::Call::with_fee_swap_path { path: vec![], amount_in_max: 0, call: Box::new(c) }.into();
                    }
                    let as_root = r.gen_ratio(1, 8);
                    let o = if as_root { Origin::root() } else { signed(&acc(0)) };
                    let res = dry(|| call(o, c));
                    let filtered = is_filtered(&res);
                    let want = !as_root && shut && !free;
                    if !case.eq(filtered, want, "a paused call was dispatched or an open one filtered", || format!("{} nested {deep}, root {as_root}: {}", shown(), err_name(&res))) {
                        return;
                    }
                    case.event(if want { "filtered" } else { "dispatched" });
                    if want && deep > 0 {
                        case.event("filtered when nested");
                    }
                }
            }
            // any name at all
            for _ in 0..3 {
                let k: usize = r.gen_range(120..140);
                let (pn, cn) = match r.gen_range(0..5) {
                    0 => (vec![b'p'; k], b"c".to_vec()),
                    1 => (b"Tokens".to_vec(), vec![b'c'; k]),
                    2 => { let (p, c) = odd(r); (p, c.unwrap_or_default()) }
                    _ => { let (p, _) = pick(r, &metas).clone(); (p, pick(r, &metas).1.clone()) }
                };
                let want = m.is_paused(&pn, &cn);
                if !case.eq(TxPause::is_paused_unbound(pn.clone(), cn.clone()), want, "a name is not reported paused exactly when it or its pallet is paused", || format!("{:?}.{:?}", String::from_utf8_lossy(&pn), String::from_utf8_lossy(&cn))) {
                    return;
                }
                if pn.len() > 128 || cn.len() > 128 {
                    case.event("long name");
                }
            }
            case.state_dbg(&(&m.paused, &m.white));
        }
        case.sample(|| format!("{} paused at the end", m.paused.len()));
    })
}
fn is_filtered(r: &Result<(), DispatchError>) -> bool {
    matches!(r, Err(DispatchError::Module(m)) if m.message == Some("CallFiltered"))
}
pub fn run(m: &Mon) {
    m.rule("histories: 5..50 pauses and resumptions of pallets and single calls by root and by others (known, unknown, overlapping, empty and longest names; runtimes with and without a list of calls never to be paused); after each, 18 calls of 13 pallets are asked for and dispatched on a rolled-back copy, plain and wrapped, by users and by root, and odd names looked up; compared with a model. A state is a distinct set of paused names.");
    m.stream("histories", 1500, 20, history);
    for (e, n) in [("pause ok", 1000), ("pause refused", 1000), ("unpause ok", 500), ("unpause refused", 500), ("filtered", 2000), ("dispatched", 2000), ("filtered when nested", 500), ("long name", 1000)] {
        m.require(e, n);
    }
}
