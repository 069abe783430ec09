//! Q01: collator candidates, their bonds and the collators of each session.
use frame_support::traits::{Currency, ReservableCurrency};
use codec::Encode;
use mon::{rand::Rng, *};
use pallet_authorship::EventHandler;
use pallet_session::SessionManager;
use rt::{runtime::*, world::*};
use sp_core::Get;
use std::collections::{BTreeMap, BTreeSet};

const KICK: u32 = 6 * HOURS;
const MIN: usize = 5;
const MAX: usize = 20;
const NU: u32 = 26;

#[derive(Clone, Debug, Default)]
struct Model {
    inv: Vec<u32>,
    cands: Vec<(u32, u128)>,
    last: BTreeMap<u32, u32>,
    bond: u128,
    desired: u32,
    other: BTreeMap<u32, u128>,
    nokeys: BTreeSet<u32>,
}
fn pot() -> AccountId {
    <CollatorSelectionAccount as Get<AccountId>>::get()
}
fn power(a: u32) -> u128 {
    Escrow::balance_at(&acc(a), None)
}
impl Model {
    fn held(&self, a: u32) -> u128 {
        self.other.get(&a).copied().unwrap_or(0) + self.cands.iter().filter(|c| c.0 == a).map(|c| c.1).sum::<u128>()
    }
    fn is_cand(&self, a: u32) -> bool {
        self.cands.iter().any(|c| c.0 == a)
    }
}
fn check(case: &mut Case, m: &Model, ctx: &str) -> bool {
    let mut ok = true;
    let got: BTreeMap<AccountId, u128> = CollatorSelection::candidates().into_iter().map(|c| (c.who, c.deposit)).collect();
    let n = CollatorSelection::candidates().len();
    let want: BTreeMap<AccountId, u128> = m.cands.iter().map(|c| (acc(c.0), c.1)).collect();
    ok &= case.check(got == want && n == want.len(), "the candidates are not those that registered and did not leave, with the bonds they put up", || format!("at {} after {ctx}: {n} {got:?} want {want:?}", now()));
    for a in 0..NU {
        ok &= case.eq(<Escrow as ReservableCurrency<AccountId>>::reserved_balance(&acc(a)), m.held(a), "the voting power held is not the candidates' bonds", || format!("{a} at {} after {ctx}", now()));
    }
    let inv: BTreeSet<AccountId> = CollatorSelection::invulnerables().into_iter().collect();
    let w: BTreeSet<AccountId> = m.inv.iter().map(|i| acc(*i)).collect();
    ok &= case.check(inv == w, "the fixed collators are not those governance set", || ctx.into());
    ok &= case.eq((CollatorSelection::candidacy_bond(), CollatorSelection::desired_candidates()), (m.bond, m.desired), "the terms for candidates are not those governance set", || ctx.into());
    case.eval(4);
    ok
}
fn history(case: &mut Case, r: &mut R) {
    let c = Cfg { accounts: NU, endowment: 1_000_000 * UNITS, candidacy_bond: *pick(r, &[0u128, 10, 1000 * UNITS]), desired_candidates: r.gen_range(0..21), ..Default::default() };
    with_world(&c, || {
        let mut m = Model { inv: vec![2000], bond: c.candidacy_bond, desired: c.desired_candidates, ..Default::default() };
        for a in 0..NU {
            let amt = *pick(r, &[1u128, 5_000, 20_000, 100_000, 900_000]) * UNITS;
            let w = *pick(r, &[2u32, 5, 30, 100, 192]);
            if r.gen_ratio(9, 10) {
                by(&acc(a), escrow::Call::create_lock { amount: amt, unlock_height: w * WEEKS }).expect("lock");
            }
            if r.gen_ratio(1, 12) {
                m.nokeys.insert(a);
            }
        }
        let nk: Vec<AccountId> = m.nokeys.iter().map(|a| acc(*a)).collect();
        sp_io::storage::set(NO_KEYS, &nk.encode());
        let steps = r.gen_range(20..120);
        let rush = r.gen_bool(0.5);
        if r.gen() {
            mint(&pot(), NATIVE, log_uniform_u128(r, 60));
        }
        let mut done = 0;
        for _ in 0..steps {
            let n = now();
            let to = match r.gen_range(0..8) {
                0 => n + 1,
                1 => n + r.gen_range(1..HOURS),
                2 => n + r.gen_range(1..2 * KICK),
                3 => n + KICK - r.gen_range(0..2),
                4 if r.gen_ratio(1, 6) => n + r.gen_range(1..6 * WEEKS),
                _ => n,
            };
            if to > n && !(rush && done < 20) {
                block_at(to, (to - n) as u64 * MILLISECS_PER_BLOCK);
            }
            done += 1;
            let n = now();
            let a = r.gen_range(0..NU);
            let who = acc(a);
            let root_or = |r: &mut R| if r.gen_ratio(1, 8) { signed(&acc(r.gen_range(0..NU))) } else { Origin::root() };
            let is_root = |o: &Origin| frame_system::ensure_root(o.clone()).is_ok();
            let mut after = m.clone();
            let dice = if rush && done < 20 { r.gen_range(0..50) } else { r.gen_range(0..100) };
            let (name, good, res) = match dice {
                0..=29 => {
                    let good = (m.cands.len() as u32) < m.desired
                        && !m.inv.contains(&a)
                        && !m.nokeys.contains(&a)
                        && !m.is_cand(a)
                        && power(a).saturating_sub(m.held(a)) >= m.bond
                        && m.cands.len() < MAX;
                    if good {
                        after.cands.push((a, m.bond));
                        after.last.insert(a, n + KICK);
                    }
                    ("register_as_candidate", good, act(case, "register", signed(&who), collator_selection::Call::register_as_candidate {}))
                }
                30..=37 => {
                    let good = m.cands.len() > MIN && m.is_cand(a);
                    if good {
                        after.cands.retain(|c| c.0 != a);
                        after.last.remove(&a);
                    }
                    ("leave_intent", good, act(case, "leave", signed(&who), collator_selection::Call::leave_intent {}))
                }
                38..=42 => {
                    let o = root_or(r);
                    let max = *pick(r, &[0u32, 3, 6, 10, 20, 20, 25]);
                    let good = is_root(&o);
                    if good {
                        after.desired = max;
                    }
                    ("set_desired_candidates", good, act(case, "set_desired", o, collator_selection::Call::set_desired_candidates { max }))
                }
                43..=46 => {
                    let o = root_or(r);
                    let bond = *pick(r, &[0u128, 1, 50 * UNITS, 1000 * UNITS, 20_000 * UNITS]) + r.gen_range(0..3);
                    let good = is_root(&o);
                    if good {
                        after.bond = bond;
                    }
                    ("set_candidacy_bond", good, act(case, "set_bond", o, collator_selection::Call::set_candidacy_bond { bond }))
                }
                47..=51 => {
                    let o = root_or(r);
                    let k = r.gen_range(0..6);
                    let mut l: Vec<u32> = (0..k).map(|_| if r.gen() && !m.cands.is_empty() { pick(r, &m.cands).0 } else { r.gen_range(0..NU) }).collect();
                    let s: BTreeSet<u32> = l.iter().copied().collect();
                    l = s.into_iter().collect();
                    if r.gen_ratio(1, 10) {
                        l = (3000..3000 + 100 + r.gen_range(0..2)).collect();
                    }
                    let good = is_root(&o) && l.len() <= 100 && l.iter().all(|a| !m.nokeys.contains(a));
                    if good {
                        after.inv = l.clone();
                    }
                    ("set_invulnerables", good, act(case, "set_invulnerables", o, collator_selection::Call::set_invulnerables { new: l.iter().map(|a| acc(*a)).collect() }))
                }
                52..=57 => {
                    // the same voting power serves other purposes too
                    let x = r.gen_range(0..=power(a) / 2 + 1);
                    let good = power(a).saturating_sub(m.held(a)) >= x;
                    if good {
                        *after.other.entry(a).or_default() += x;
                    }
                    ("reserve", good, Some(<Escrow as ReservableCurrency<AccountId>>::reserve(&who, x)))
                }
                58..=82 => {
                    // a block's author
                    let a = if r.gen_ratio(1, 8) || m.cands.is_empty() { r.gen_range(0..NU) } else { pick(r, &m.cands).0 };
                    let (p, x) = (free(NATIVE, &pot()), free(NATIVE, &acc(a)));
                    let all = ledger();
                    if case.total("note_author", || format!("{a}"), || <CollatorSelection as EventHandler<AccountId, BlockNumber>>::note_author(acc(a))).is_none() {
                        return;
                    }
                    case.log(|| format!("[{n}] author {a}"));
                    let mut want = all;
                    if p / 2 > 0 {
                        want.get_mut(&(NATIVE, pot())).unwrap().0 = p - p / 2;
                        want.entry((NATIVE, acc(a))).or_default().0 = x + p / 2;
                        case.event("author paid");
                    }
                    if !case.check(ledger() == want, "a block's author is not paid half of the collators' pot and nothing else", || format!("{a} at {n}: pot {p} to {}", free(NATIVE, &pot()))) {
                        return;
                    }
                    m.last.insert(a, n);
                    if r.gen_ratio(1, 3) {
                        mint(&pot(), NATIVE, log_uniform_u128(r, 50));
                    }
                    case.event("author");
                    continue;
                }
                _ => {
                    // a session ends
                    let Some(got) = case.total("new_session", || format!("{n}"), || <CollatorSelection as SessionManager<AccountId>>::new_session(n)) else { return };
                    let got = got.unwrap_or_default();
                    case.log(|| format!("[{n}] session: {:?}", got.iter().map(acc_name).collect::<Vec<_>>()));
                    let bad: BTreeSet<u32> = m.cands.iter().filter(|c| n.saturating_sub(m.last.get(&c.0).copied().unwrap_or(0)) >= KICK || power(c.0) < m.bond).map(|c| c.0).collect();
                    let stay: BTreeSet<AccountId> = CollatorSelection::candidates().into_iter().map(|c| c.who).collect();
                    let gone: BTreeSet<u32> = m.cands.iter().map(|c| c.0).filter(|a| !stay.contains(&acc(*a))).collect();
                    let most = m.cands.len().saturating_sub(MIN).min(bad.len());
                    if !case.check(gone.is_subset(&bad), "a candidate in good standing was removed", || format!("at {n}: {gone:?} of {bad:?}; {m:?}")) {
                        return;
                    }
                    if !case.eq(gone.len(), most, "stale or undercollateralized candidates were not removed down to the minimum number", || format!("at {n}: {gone:?} of {bad:?}; {} candidates, bond {}", m.cands.len(), m.bond)) {
                        return;
                    }
                    if !gone.is_empty() {
                        case.event("kicked");
                        if gone.len() < bad.len() {
                            case.event("kept for the minimum");
                        }
                    }
                    m.cands.retain(|c| !gone.contains(&c.0));
                    for g in &gone {
                        m.last.remove(g);
                    }
                    let want: BTreeSet<AccountId> = m.inv.iter().copied().chain(m.cands.iter().map(|c| c.0)).map(acc).collect();
                    let set: BTreeSet<AccountId> = got.iter().cloned().collect();
                    if !case.check(set == want, "the collators of a session are not the fixed ones and the candidates that stay", || format!("at {n}: {set:?} want {want:?}")) {
                        return;
                    }
                    if m.inv.iter().any(|i| m.is_cand(*i)) {
                        case.event("fixed and candidate");
                    }
                    if !case.eq(got.len(), set.len(), "a collator is listed twice for a session", || format!("at {n}: {:?} of fixed {:?} and candidates {:?}", got.iter().map(acc_name).collect::<Vec<_>>(), m.inv, m.cands)) {
                        return;
                    }
                    case.event("session ok");
                    case.state_dbg(&(m.inv.clone(), m.cands.clone()));
                    if !check(case, &m, "session") {
                        return;
                    }
                    continue;
                }
            };
            let Some(res) = res else { return };
            if !case.check(res.is_ok() == good, if good { "a collator call allowed by the rules was refused" } else { "a collator call against the rules was accepted" }, || format!("{name} by {a} at {n}: {}; {m:?}", err_name(&res))) {
                return;
            }
            case.event(&format!("{name} {}", if good { "ok" } else { "refused" }));
            if good {
                m = after;
            }
            if !check(case, &m, name) {
                return;
            }
        }
        let sum: u128 = (0..NU).map(|a| power(a)).sum();
        let _ = <Escrow as Currency<AccountId>>::total_issuance() == sum;
        case.sample(|| format!("{steps} steps, {} candidates, {} fixed", m.cands.len(), m.inv.len()));
    });
}
pub fn run(m: &Mon) {
    m.rule("histories: 20..120 registrations, departures, changes of terms, blocks authored and sessions with 26 holders of decaying voting power, some without session keys, some holding back power for other purposes, the times between around the kick threshold; every call, every session's collators, every bond held and every payment to an author compared with a model. A state is a distinct pair of fixed collators and candidates at a session.");
    m.stream("histories", 4000, 20, history);
    for (e, n) in [("register_as_candidate ok", 1000), ("register_as_candidate refused", 500), ("leave_intent ok", 200), ("leave_intent refused", 200), ("kicked", 300), ("kept for the minimum", 100), ("session ok", 2000), ("author paid", 500), ("fixed and candidate", 50), ("set_invulnerables ok", 300), ("set_invulnerables refused", 100), ("set_candidacy_bond ok", 300), ("set_desired_candidates refused", 50)] {
        m.require(e, n);
    }
}
