//! D02: bootstrapping of pairs: contributions, refunds, claims and rewards, against an exact model.
use crate::d_pair::{asset, big, muldiv, root as sqrt, small};
use dex_general::{PairStatus, Pallet as Dex};
use mon::{rand::Rng, *};
use rt::{runtime::*, world::*};
use sp_runtime::traits::AccountIdConversion;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq)]
struct Boot {
    target: (u128, u128),
    cap: (u128, u128),
    acc: (u128, u128),
    end: u32,
}
impl Boot {
    fn failed(&self, n: u32) -> bool {
        n > self.end && (self.acc.0 < self.target.0 || self.acc.1 < self.target.1)
    }
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Off,
    Boot(Boot),
    /// trading, and the bootstrap it came from
    On(Option<Boot>),
}
#[derive(Clone, Debug)]
struct P {
    st: St,
    put: BTreeMap<u32, (u128, u128)>,
    rewards: BTreeMap<usize, u128>,
    limits: BTreeMap<usize, u128>,
    claimed: u128,
    touched: bool,
}
type Key = (usize, usize);
fn key(a: usize, b: usize) -> Key {
    if asset(a) < asset(b) { (a, b) } else { (b, a) }
}
fn lp(k: Key) -> CurrencyId {
    CurrencyId::join_lp_token(asset(k.0), asset(k.1)).unwrap()
}
fn boot_account() -> AccountId {
    DexGeneralPalletId::get().into_sub_account_truncating("boot")
}
use sp_core::Get;

fn history(case: &mut Case, r: &mut R) {
    let na = r.gen_range(2..5usize);
    let nu = r.gen_range(1..5u32);
    let bits = *pick(r, &[6u32, 20, 50, 90]);
    let steps = r.gen_range(20..120);
    with_world(&Cfg { accounts: 0, ..Default::default() }, || {
        let mut ps: BTreeMap<Key, P> = BTreeMap::new();
        let mut hold: BTreeMap<usize, u128> = BTreeMap::new();
        for u in 0..nu {
            for a in 0..na {
                set_balance(&acc(u), asset(a), log_uniform_u128(r, bits) + (1 << (bits - 1)));
            }
        }
        for _ in 0..steps {
            let a = r.gen_range(0..na);
            let b = (a + r.gen_range(1..na)) % na;
            let k = key(a, b);
            let flip = k.0 != a;
            let u = r.gen_range(0..nu);
            let who = acc(u);
            let n = now();
            let late = r.gen_bool(0.04);
            let dl = if late { n } else { n + r.gen_range(1..20) };
            let p = ps.entry(k).or_insert(P { st: St::Off, put: Default::default(), rewards: Default::default(), limits: Default::default(), claimed: 0, touched: false });
            let as_root = r.gen_bool(0.92);
            let origin = if as_root { Origin::root() } else { signed(&who) };
            let sw = |x: (u128, u128)| if flip { (x.1, x.0) } else { x };
            let ba = boot_account();
            let pair = Dex::<Runtime>::pair_account_id(asset(a), asset(b));
            let l0 = ledger();
            // balances that should have changed: (currency, account) -> delta
            let mut delta: BTreeMap<(CurrencyId, AccountId), i128> = BTreeMap::new();
            let mut mv = |c: CurrencyId, f: Option<&AccountId>, t: Option<&AccountId>, x: u128| {
                if let Some(f) = f { *delta.entry((c, f.clone())).or_default() -= x as i128 }
                if let Some(t) = t { *delta.entry((c, t.clone())).or_default() += x as i128 }
            };
            let mut slack_lp = 0i128;
            let what;
            match r.gen_range(0..40) {
                0..=5 => {
                    let t = (1 + log_uniform_u128(r, bits), 1 + log_uniform_u128(r, bits));
                    let c = match r.gen_range(0..4) { 0 => t, 1 => (t.0 / 2, t.1), _ => (t.0 + log_uniform_u128(r, bits), t.1 + log_uniform_u128(r, bits)) };
                    let end = n + r.gen_range(0..8);
                    let rw: Vec<usize> = (0..na).filter(|_| r.gen_bool(0.3)).collect();
                    let lm: Vec<(usize, u128)> = (0..na).filter_map(|i| if r.gen_bool(0.2) { Some((i, log_uniform_u128(r, bits))) } else { None }).collect();
                    let update = matches!(p.st, St::Boot(_)) && r.gen_bool(0.5) || r.gen_bool(0.1);
                    what = format!("{} {a} {b} target {t:?} cap {c:?} end {end} rewards {rw:?} limits {lm:?} root {as_root}", if update { "bootstrap_update" } else { "bootstrap_create" });
                    let (rewards, limits) = (rw.iter().map(|i| asset(*i)).collect(), lm.iter().map(|(i, x)| (asset(*i), *x)).collect());
                    let Some(res) = (if update {
                        act(case, "bootstrap_update", origin, dex_general::Call::bootstrap_update { asset_0: asset(a), asset_1: asset(b), target_supply_0: t.0, target_supply_1: t.1, capacity_supply_0: c.0, capacity_supply_1: c.1, end, rewards, limits })
                    } else {
                        act(case, "bootstrap_create", origin, dex_general::Call::bootstrap_create { asset_0: asset(a), asset_1: asset(b), target_supply_0: t.0, target_supply_1: t.1, capacity_supply_0: c.0, capacity_supply_1: c.1, end, rewards, limits })
                    }) else { return };
                    let open = p.rewards.values().any(|x| *x > 0);
                    let legal = as_root && match &p.st {
                        St::Off => !update,
                        St::Boot(o) => !open && (update || o.failed(n)),
                        St::On(_) => false,
                    };
                    if !case.eq(res.is_ok(), legal, "a bootstrap is set up or refused against the rules", || format!("{what}: {res:?}, {p:?}")) { return }
                    if legal {
                        let acc = if let St::Boot(o) = &p.st { o.acc } else { (0, 0) };
                        if acc != (0, 0) { case.event("bootstrap taken up again") }
                        p.st = St::Boot(Boot { target: sw(t), cap: sw(c), acc, end });
                        p.rewards = rw.into_iter().map(|i| (i, 0)).collect();
                        p.limits = lm.into_iter().collect();
                        case.event("bootstrap");
                    }
                }
                6..=16 => {
                    let x = (match r.gen_range(0..4) { 0 => 0, _ => log_uniform_u128(r, bits) }, match r.gen_range(0..4) { 0 => 0, _ => log_uniform_u128(r, bits) });
                    what = format!("contribute {a} {b} {x:?} by {u} late {late}");
                    let rich = p.limits.iter().all(|(i, l)| free(asset(*i), &who) >= *l);
                    let have = (free(asset(k.0), &who), free(asset(k.1), &who));
                    let Some(res) = act(case, "bootstrap_contribute", signed(&who), dex_general::Call::bootstrap_contribute { asset_0: asset(a), asset_1: asset(b), amount_0_contribute: x.0, amount_1_contribute: x.1, deadline: dl }) else { return };
                    let mut take = None;
                    if let St::Boot(o) = &p.st {
                        if !late && rich && n < o.end && o.acc.0 <= o.cap.0.max(o.acc.0) {
                            let y = sw(x);
                            let fit = |y: u128, acc: u128, cap: u128| if y + acc > cap { cap.checked_sub(acc) } else { Some(y) };
                            if let (Some(p0), Some(p1)) = (fit(y.0, o.acc.0, o.cap.0), fit(y.1, o.acc.1, o.cap.1)) {
                                if (p0 > 0 || p1 > 0) && p0 <= have.0 && p1 <= have.1 {
                                    if (p0, p1) != y { case.event("contribution up to the capacity") }
                                    take = Some((p0, p1));
                                }
                            }
                        }
                    }
                    if !case.eq(res.is_ok(), take.is_some(), "a contribution is taken or refused against the rules", || format!("{what}: {res:?}, {p:?}, rich {rich}, have {have:?}")) { return }
                    if let Some(t) = take {
                        mv(asset(k.0), Some(&who), Some(&ba), t.0);
                        mv(asset(k.1), Some(&who), Some(&ba), t.1);
                        *hold.entry(k.0).or_default() += t.0;
                        *hold.entry(k.1).or_default() += t.1;
                        let e = p.put.entry(u).or_default();
                        *e = (e.0 + t.0, e.1 + t.1);
                        if let St::Boot(o) = &mut p.st { o.acc = (o.acc.0 + t.0, o.acc.1 + t.1) }
                        case.event("contribution");
                    } else {
                        case.event("contribution refused");
                    }
                }
                17..=20 => {
                    what = format!("bootstrap_end {a} {b}");
                    let Some(res) = act(case, "bootstrap_end", signed(&who), dex_general::Call::bootstrap_end { asset_0: asset(a), asset_1: asset(b) }) else { return };
                    let mut legal = false;
                    if let St::Boot(o) = p.st.clone() {
                        legal = n >= o.end && o.acc.0 >= o.target.0 && o.acc.1 >= o.target.1;
                        if legal {
                            mv(asset(k.0), Some(&ba), Some(&pair), o.acc.0);
                            mv(asset(k.1), Some(&ba), Some(&pair), o.acc.1);
                            *hold.entry(k.0).or_default() -= o.acc.0;
                            *hold.entry(k.1).or_default() -= o.acc.1;
                            mv(lp(k), None, Some(&pair), small(sqrt(big(o.acc.0) * o.acc.1)).unwrap());
                            p.st = St::On(Some(o));
                            case.event("bootstrap ended");
                        }
                    }
                    if !case.eq(res.is_ok(), legal, "a bootstrap ends or not against the rules", || format!("{what}: {res:?}, {p:?}")) { return }
                }
                21..=27 => {
                    let to = acc(r.gen_range(0..nu));
                    what = format!("claim {a} {b} by {u} late {late}");
                    let had = free(lp(k), &to);
                    let Some(res) = act(case, "bootstrap_claim", signed(&who), dex_general::Call::bootstrap_claim { recipient: to.clone().into(), asset_0: asset(a), asset_1: asset(b), deadline: dl }) else { return };
                    let mut legal = false;
                    if let (St::On(Some(o)), Some(c)) = (p.st.clone(), p.put.get(&u).copied()) {
                        // (a bootstrap that failed is refunded, not claimed)
                        legal = !late && !(o.acc.0 < o.target.0 || o.acc.1 < o.target.1);
                        if legal {
                            let got = free(lp(k), &to) - had;
                            let (s0, s1) = (big(o.acc.0), big(o.acc.1));
                            let num = big(c.0) * &s1 + big(c.1) * &s0;
                            // the share is num / (2 s0 s1) of sqrt(s0 s1): got^2 * 4 s0 s1 <= num^2
                            case.check(big(got) * got * 4u32 * &s0 * &s1 <= &num * &num, "a contributor claims more than its share", || format!("{what}: {c:?} of {o:?}: {got}"));
                            let e0 = &num / (&s1 * 2u32);
                            let e1 = &num / (&s0 * 2u32);
                            case.check(big(got + 1) * (got + 1) > &e0 * &e1, "a contributor claims less than its share", || format!("{what}: {c:?} of {o:?}: {got}"));
                            let total = small(sqrt(s0 * s1)).unwrap();
                            mv(lp(k), Some(&pair), Some(&to), got);
                            p.claimed += got;
                            case.check(p.claimed <= total, "contributors claim more than there is", || format!("{what}: {} of {total}", p.claimed));
                            for (i, x) in &p.rewards {
                                let y = muldiv(got, *x, total).unwrap();
                                mv(asset(*i), Some(&ba), Some(&who), y);
                                *hold.entry(*i).or_default() -= y;
                                if y > 0 { case.event("bootstrap reward") }
                            }
                            p.put.remove(&u);
                            p.touched = true;
                            case.event("claim");
                        }
                    }
                    if !case.eq(res.is_ok(), legal, "a claim is paid or refused against the rules", || format!("{what}: {res:?}, {p:?}")) { return }
                    let _ = &mut slack_lp;
                }
                28..=32 => {
                    what = format!("refund {a} {b} by {u}");
                    let Some(res) = act(case, "bootstrap_refund", signed(&who), dex_general::Call::bootstrap_refund { asset_0: asset(a), asset_1: asset(b) }) else { return };
                    let failed = match &p.st { St::Boot(o) | St::On(Some(o)) => o.failed(n), _ => false };
                    let legal = failed && p.put.contains_key(&u);
                    if !case.eq(res.is_ok(), legal, "a refund is paid or refused against the rules", || format!("{what}: {res:?}, {p:?}")) { return }
                    if legal {
                        let c = p.put.remove(&u).unwrap();
                        mv(asset(k.0), Some(&ba), Some(&who), c.0);
                        mv(asset(k.1), Some(&ba), Some(&who), c.1);
                        *hold.entry(k.0).or_default() -= c.0;
                        *hold.entry(k.1).or_default() -= c.1;
                        if let St::Boot(o) = &mut p.st { o.acc = (o.acc.0 - c.0, o.acc.1 - c.1) }
                        case.event("refund");
                    }
                }
                33..=35 => {
                    let mut pay: Vec<(usize, u128)> = p.rewards.keys().map(|i| (*i, log_uniform_u128(r, bits))).collect();
                    if r.gen_bool(0.15) { pay.pop(); }
                    if r.gen_bool(0.1) { if let Some(x) = pay.first_mut() { x.0 = (x.0 + 1) % na } }
                    what = format!("charge rewards {a} {b} {pay:?} by {u}");
                    let Some(res) = act(case, "bootstrap_charge_reward", signed(&who), dex_general::Call::bootstrap_charge_reward { asset_0: asset(a), asset_1: asset(b), charge_rewards: pay.iter().map(|(i, x)| (asset(*i), *x)).collect() }) else { return };
                    let mut need: BTreeMap<usize, u128> = BTreeMap::new();
                    for (i, x) in &pay { *need.entry(*i).or_default() += x }
                    let had = |i: usize| l0.get(&(asset(i), who.clone())).map(|x| x.0).unwrap_or(0);
                    let legal = pay.len() == p.rewards.len() && need.iter().all(|(i, x)| p.rewards.contains_key(i) && *x <= had(*i));
                    if !case.eq(res.is_ok(), legal, "a reward is taken or refused against the rules", || format!("{what}: {res:?}, {p:?}")) { return }
                    if legal {
                        for (i, x) in need {
                            mv(asset(i), Some(&who), Some(&ba), x);
                            *hold.entry(i).or_default() += x;
                            *p.rewards.get_mut(&i).unwrap() += x;
                            if x > 0 { case.event("reward charged") }
                        }
                    }
                }
                36 => {
                    // once somebody claimed, this is the subject of its own stream
                    if p.touched { continue }
                    what = format!("withdraw rewards {a} {b} root {as_root}");
                    let to = acc(r.gen_range(0..nu));
                    let Some(res) = act(case, "bootstrap_withdraw_reward", origin, dex_general::Call::bootstrap_withdraw_reward { asset_0: asset(a), asset_1: asset(b), recipient: to.clone().into() }) else { return };
                    if !case.eq(res.is_ok(), as_root, "rewards can be withdrawn by anyone, or not by governance", || format!("{what}: {res:?}, {p:?}")) { return }
                    if as_root {
                        for (i, x) in &mut p.rewards {
                            mv(asset(*i), Some(&ba), Some(&to), *x);
                            *hold.entry(*i).or_default() -= *x;
                            *x = 0;
                        }
                        case.event("rewards withdrawn");
                    }
                }
                37 => {
                    what = format!("create_pair {a} {b} root {as_root}");
                    let Some(res) = act(case, "create_pair", origin, dex_general::Call::create_pair { asset_0: asset(a), asset_1: asset(b), fee_rate: 30 }) else { return };
                    let legal = as_root && match &p.st { St::Off => true, St::Boot(o) => o.failed(n), _ => false };
                    if !case.eq(res.is_ok(), legal, "a pair is created or refused against the rules", || format!("{what}: {res:?}, {p:?}")) { return }
                    if legal {
                        p.st = match p.st.clone() { St::Boot(o) => { case.event("pair after a failed bootstrap"); St::On(Some(o)) } _ => St::On(None) };
                    }
                }
                _ => {
                    for _ in 0..r.gen_range(1..6) { next_block() }
                    what = "blocks".into();
                }
            }
            // everything that moved, and nothing else
            let l1 = ledger();
            let keys: std::collections::BTreeSet<_> = l0.keys().chain(l1.keys()).chain(delta.keys()).cloned().collect();
            for kk in keys {
                let (x, y) = (l0.get(&kk).copied().unwrap_or_default(), l1.get(&kk).copied().unwrap_or_default());
                case.eq(y.0 as i128 - x.0 as i128, delta.get(&kk).copied().unwrap_or(0), "a bootstrap operation moved other amounts than it should", || format!("{:?} of {} after {what}", kk.0, acc_name(&kk.1)));
            }
            for i in 0..na {
                case.eq(free(asset(i), &boot_account()), hold.get(&i).copied().unwrap_or(0), "the bootstrap account does not hold the open contributions and rewards", || format!("{:?} after {what}", asset(i)));
            }
            for (k, p) in &ps {
                case.eval(1);
                let s = Dex::<Runtime>::pair_status((asset(k.0), asset(k.1)));
                let same = match (&s, &p.st) {
                    (PairStatus::Disable, St::Off) | (PairStatus::Trading(_), St::On(_)) => true,
                    (PairStatus::Bootstrap(g), St::Boot(o)) => (g.target_supply, g.capacity_supply, g.accumulated_supply, g.end_block_number) == (o.target, o.cap, o.acc, o.end),
                    _ => false,
                };
                case.check(same, "the state of a bootstrap is wrong", || format!("{k:?} after {what}: {s:?} instead of {:?}", p.st));
                for u in 0..nu {
                    case.eq(Dex::<Runtime>::bootstrap_personal_supply(((asset(k.0), asset(k.1)), acc(u))), p.put.get(&u).copied().unwrap_or((0, 0)), "a contribution is not recorded as made", || format!("{k:?} {u} after {what}"));
                }
            }
            case.state_dbg(&ps);
            if case.failed() { return }
        }
        check_issuance(case);
        case.sample(|| format!("{na} assets, {nu} users, {ps:?}"));
    });
}

/// Rewards withdrawn by governance after a claim: only what is left may be taken.
fn late_withdrawal(case: &mut Case, r: &mut R) {
    with_world(&Cfg { accounts: 0, ..Default::default() }, || {
        let (a, b, rw) = (asset(0), asset(1), asset(2));
        for u in 0..3 { for i in 0..3 { set_balance(&acc(u), asset(i), 1_000_000) } }
        let mk = |x, y| root(dex_general::Call::bootstrap_create { asset_0: x, asset_1: y, target_supply_0: 100, target_supply_1: 100, capacity_supply_0: 10_000, capacity_supply_1: 10_000, end: 5, rewards: vec![rw], limits: vec![] }).unwrap();
        mk(a, b);
        mk(a, rw);
        by(&acc(2), dex_general::Call::bootstrap_charge_reward { asset_0: a, asset_1: b, charge_rewards: vec![(rw, r.gen_range(100..1000))] }).unwrap();
        by(&acc(0), dex_general::Call::bootstrap_contribute { asset_0: a, asset_1: b, amount_0_contribute: 1000, amount_1_contribute: 1000, deadline: 100 }).unwrap();
        // somebody else's contribution to another pair, in the currency of the reward
        by(&acc(1), dex_general::Call::bootstrap_contribute { asset_0: a, asset_1: rw, amount_0_contribute: 5000, amount_1_contribute: 5000, deadline: 100 }).unwrap();
        blocks(6);
        by(&acc(0), dex_general::Call::bootstrap_end { asset_0: a, asset_1: b }).unwrap();
        by(&acc(0), dex_general::Call::bootstrap_claim { recipient: acc(0).into(), asset_0: a, asset_1: b, deadline: 100 }).unwrap();
        let _ = root(dex_general::Call::bootstrap_withdraw_reward { asset_0: a, asset_1: b, recipient: acc(2).into() });
        case.eval(1);
        case.event("late withdrawal of rewards");
        case.check(free(rw, &boot_account()) >= 5000, "withdrawing bootstrap rewards after a claim takes the contributions of others", || format!("{} of 5000 contributed are left", free(rw, &boot_account())));
    });
}

pub fn run(m: &Mon) {
    m.rule("histories: random bootstraps over pairs that share currencies, contributions, ends, claims, refunds and rewards; after every step every balance in existence moved by exactly what the operation should move, and the shared account holds exactly the open contributions and rewards. late withdrawal: the known finding. A state is the set of pairs with all contributions.");
    m.stream("histories", 4000, 20, history);
    m.stream("late withdrawal", 10, 2, late_withdrawal);
    for (e, n) in [("bootstrap", 1000), ("bootstrap taken up again", 100), ("contribution", 1000), ("contribution up to the capacity", 300), ("contribution refused", 1000), ("bootstrap ended", 300), ("claim", 300), ("refund", 300), ("bootstrap reward", 50), ("reward charged", 300), ("rewards withdrawn", 100), ("pair after a failed bootstrap", 50)] {
        m.require(e, n);
    }
}
