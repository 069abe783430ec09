//! G03: a parameter that governance sets is in force as set, whoever else does whatever.
use mon::{rand::Rng, *};
use primitives::{CurrencyId::*, VaultCurrencyPair};
use rt::{runtime::*, world::*};
use sp_runtime::{traits::One, FixedU128};
use std::collections::BTreeMap;

type Pair = VaultCurrencyPair<CurrencyId>;
const ONE: u128 = 1_000_000_000_000_000_000;
fn pr(c: CurrencyId) -> Pair {
    Pair { collateral: c, wrapped: WRAPPED }
}
fn curs() -> [CurrencyId; 4] {
    [NATIVE, RELAY, Token(KSM), ForeignAsset(1)]
}
fn d(x: impl std::fmt::Debug) -> String {
    format!("{x:?}")
}
/// Every parameter, as the chain's own readers give it.
fn read() -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut put = |k: &str, v: String| {
        m.insert(k.to_string(), v);
    };
    put("issue fee", d(Fee::issue_fee()));
    put("issue griefing", d(Fee::issue_griefing_collateral()));
    put("redeem fee", d(Fee::redeem_fee()));
    put("premium fee", d(Fee::premium_redeem_fee()));
    put("punishment fee", d(Fee::punishment_fee()));
    put("replace griefing", d(Fee::replace_griefing_collateral()));
    put("issue period", d(Issue::issue_period()));
    put("redeem period", d(Redeem::redeem_period()));
    put("replace period", d(Replace::replace_period()));
    put("redeem dust", d(Redeem::redeem_btc_dust_value()));
    put("redeem size", d(Redeem::redeem_transaction_size()));
    put("replace dust", d(Replace::replace_btc_dust_value()));
    put("punishment delay", d(VaultRegistry::punishment_delay()));
    put("nomination", d(Nomination::is_nomination_enabled()));
    put("escrow reward per wrapped", d(EscrowAnnuity::reward_per_wrapped()));
    put("vault reward per wrapped", d(VaultAnnuity::reward_per_wrapped()));
    put("supply start", d(Supply::start_height()));
    put("inflation", d(Supply::inflation()));
    let (to, point) = DexGeneral::fee_meta();
    put("dex fee receiver", d(to));
    put("dex fee point", d(point));
    for c in curs() {
        put(&format!("minimum collateral {c:?}"), d(VaultRegistry::minimum_collateral_vault(c)));
        put(&format!("secure threshold {c:?}"), d(VaultRegistry::secure_collateral_threshold(pr(c))));
        put(&format!("premium threshold {c:?}"), d(VaultRegistry::premium_redeem_threshold(pr(c))));
        put(&format!("liquidation threshold {c:?}"), d(VaultRegistry::liquidation_collateral_threshold(pr(c))));
    }
    m
}
/// The parts of the storage a call may not touch by setting one parameter.
fn keys() -> BTreeMap<Vec<u8>, Vec<u8>> {
    let sys = sp_io::hashing::twox_128(b"System");
    frame_support::keys_of(&[]).into_iter().filter(|k| !k.starts_with(&sys)).map(|k| (k.clone(), sp_io::storage::get(&k).unwrap().to_vec())).collect()
}
fn history(case: &mut Case, r: &mut R) {
    let c = Cfg { accounts: 4, collaterals: curs().to_vec(), ..Default::default() };
    with_world(&c, || {
        let mut want = read();
        let mut ceil: BTreeMap<usize, u128> = (0..4).map(|i| (i, c.ceiling)).collect();
        let _ = by(&acc(1), vault_registry::Call::<Runtime>::register_public_key { public_key: bitcoin::PublicKey([2u8; 33]) });
        for _ in 0..r.gen_range(10..60) {
            let ix = r.gen_range(0..4usize);
            let k = curs()[ix];
            let fx = match r.gen_range(0..6) {
                0 => 0,
                1 => ONE,
                2 => ONE + 1,
                3 => ONE - 1,
                4 => weird_u128(r),
                _ => r.gen_range(0..ONE),
            };
            let f = FixedU128::from_inner(fx);
            let n = weird_u32(r);
            let w = weird_u128(r);
            let b: bool = r.gen();
            let frac = fx <= ONE;
            let (call, ok, set): (RuntimeCall, bool, Vec<(String, String)>) = match r.gen_range(0..23) {
                0 => (fee::Call::set_issue_fee { fee: f }.into(), frac, vec![("issue fee".into(), d(f))]),
                1 => (fee::Call::set_issue_griefing_collateral { griefing_collateral: f }.into(), frac, vec![("issue griefing".into(), d(f))]),
                2 => (fee::Call::set_redeem_fee { fee: f }.into(), frac, vec![("redeem fee".into(), d(f))]),
                3 => (fee::Call::set_premium_redeem_fee { fee: f }.into(), frac, vec![("premium fee".into(), d(f))]),
                4 => (fee::Call::set_punishment_fee { fee: f }.into(), frac, vec![("punishment fee".into(), d(f))]),
                5 => (fee::Call::set_replace_griefing_collateral { griefing_collateral: f }.into(), frac, vec![("replace griefing".into(), d(f))]),
                6 => (issue::Call::set_issue_period { period: n }.into(), true, vec![("issue period".into(), d(n))]),
                7 => (redeem::Call::set_redeem_period { period: n }.into(), true, vec![("redeem period".into(), d(n))]),
                8 => (replace::Call::set_replace_period { period: n }.into(), true, vec![("replace period".into(), d(n))]),
                9 => (nomination::Call::set_nomination_enabled { enabled: b }.into(), true, vec![("nomination".into(), d(b))]),
                10 => (annuity::Call::<Runtime, annuity::Instance1>::set_reward_per_wrapped { reward_per_wrapped: w }.into(), true, vec![("escrow reward per wrapped".into(), d(Some(w)))]),
                11 => (annuity::Call::<Runtime, annuity::Instance2>::set_reward_per_wrapped { reward_per_wrapped: w }.into(), true, vec![("vault reward per wrapped".into(), d(Some(w)))]),
                12 => {
                    // far enough that no block of this history gets there
                    let n = n.max(100_000);
                    (supply::Call::set_start_height_and_inflation { start_height: n, inflation: f }.into(), true, vec![("supply start".into(), d(Some(n))), ("inflation".into(), d(f))])
                }
                13 => {
                    let to = b.then(|| acc(r.gen_range(0..4)));
                    (dex_general::Call::set_fee_receiver { send_to: to.clone() }.into(), true, vec![("dex fee receiver".into(), d(to))])
                }
                14 => (dex_general::Call::set_fee_point { fee_point: n as u8 }.into(), true, vec![("dex fee point".into(), d(n as u8))]),
                15 | 16 => (vault_registry::Call::set_minimum_collateral { currency_id: k, minimum: w }.into(), true, vec![(format!("minimum collateral {k:?}"), d(w))]),
                17 => (vault_registry::Call::set_secure_collateral_threshold { currency_pair: pr(k), threshold: f }.into(), true, vec![(format!("secure threshold {k:?}"), d(Some(f)))]),
                18 => (vault_registry::Call::set_premium_redeem_threshold { currency_pair: pr(k), threshold: f }.into(), true, vec![(format!("premium threshold {k:?}"), d(Some(f)))]),
                19 => (vault_registry::Call::set_liquidation_collateral_threshold { currency_pair: pr(k), threshold: f }.into(), true, vec![(format!("liquidation threshold {k:?}"), d(Some(f)))]),
                20 => {
                    (vault_registry::Call::set_system_collateral_ceiling { currency_pair: pr(k), ceiling: w }.into(), true, vec![])
                }
                21 => {
                    // a block, or two
                    blocks(r.gen_range(1..3));
                    let got = read();
                    if !case.eq(&got, &want, "a parameter changed without being set", || "a block passed".into()) {
                        return;
                    }
                    case.event("block");
                    continue;
                }
                _ => {
                    // the ceiling in force: a vault cannot lock more than it
                    let min: u128 = VaultRegistry::minimum_collateral_vault(k);
                    let free = free(k, &acc(1));
                    let (most, now) = (ceil[&ix], locked(k));
                    let x = if r.gen() { most.saturating_sub(now) } else { most.saturating_sub(now).saturating_add(1) };
                    if x < min || x > free || x == 0 || x > 100 * ONE || VaultRegistry::get_bitcoin_public_key(&acc(1)).is_err() || VaultRegistry::get_vault_from_id(&VaultId::new(acc(1), k, WRAPPED)).is_ok() {
                        case.event("ceiling not testable now");
                        continue;
                    }
                    set_rate(k, FixedU128::one());
                    let Some(res) = act(case, "panic in register_vault", signed(&acc(1)), vault_registry::Call::<Runtime>::register_vault { currency_pair: pr(k), collateral: x }) else { return };
                    let fits = now.checked_add(x).map_or(false, |t| t <= most);
                    let priced = VaultRegistry::secure_collateral_threshold(pr(k)).is_some();
                    case.event(if fits { "at the ceiling" } else { "above the ceiling" });
                    case.eval(1);
                    // at the ceiling an absurd threshold or rate can still leave numbers out of range
                    let by_ceiling = err_name(&res) == "CurrencyCeilingExceeded";
                    if fits && res.is_err() {
                        case.event("out of range");
                    }
                    let good = if fits { !by_ceiling } else { res.is_err() };
                    if priced && !case.check(good, "the ceiling in force is not the one set", || format!("{k:?}: {x} on top of {now}, ceiling {most}: {res:?}")) {
                        return;
                    }
                    continue;
                }
            };
            let before = keys();
            let shown = d(&call);
            let as_root = r.gen_ratio(9, 10);
            let origin = if as_root { Origin::root() } else { signed(&acc(r.gen_range(0..4))) };
            let Some(res) = act(case, "panic while setting a parameter", origin, call) else { return };
            let changed: Vec<_> = {
                let after = keys();
                let mut v: Vec<Vec<u8>> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k)).cloned().collect();
                v.sort();
                v.dedup();
                v
            };
            let good = ok && as_root;
            case.event(if good { "set" } else if as_root { "out of bounds" } else { "not governance" });
            if !case.eq(res.is_ok(), good, "a parameter was refused within its bounds, or accepted outside of them or from somebody", || format!("{shown} by {}: {res:?}", if as_root { "governance" } else { "an account" })) {
                return;
            }
            if good {
                if shown.contains("set_system_collateral_ceiling") {
                    ceil.insert(ix, w);
                }
                for (k, v) in &set {
                    want.insert(k.clone(), v.clone());
                }
            }
            let most = if !good { 0 } else { set.len().max(1) };
            if !case.check(changed.len() <= most, "setting a parameter changed something else", || format!("{shown}: {} entries changed: {}", changed.len(), changed.iter().map(|k| hex(k)).collect::<Vec<_>>().join(" "))) {
                return;
            }
            let got = read();
            case.eval(1);
            if got != want {
                let diff: Vec<String> = want.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, v)| format!("{k}: {:?}, expected {v}", got.get(k))).collect();
                case.violate("a parameter is not in force as it was set", format!("after {shown}\n{}", diff.join("\n")));
                return;
            }
            case.state_dbg(&want);
        }
        case.sample(|| format!("{want:?}"));
    });
}
/// What is locked in vaults of collateral `k` (only account 1 has vaults here).
fn locked(k: CurrencyId) -> u128 {
    reserved(k, &acc(1))
}
pub fn run(m: &Mon) {
    m.rule("random histories of governance setting fees, periods, thresholds, minimums, ceilings, rates and switches to typical, extreme and out-of-bounds values, with refused attempts by accounts and passing blocks; after each step every parameter is read back and compared with what was set last, and the storage is compared for anything else that changed. A state is the set of parameters.");
    m.stream("histories", 1000, 20, history);
    for (e, n) in [("set", 1000), ("out of bounds", 300), ("not governance", 300), ("block", 300), ("at the ceiling", 15), ("above the ceiling", 15)] {
        m.require(e, n);
    }
}
