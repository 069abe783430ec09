//! G01 (proposals, deposits, referenda and votes) and G02 (decisions and enactment): histories of
//! the democracy pallet against a direct model.
use codec::{Decode, Encode};
use democracy::{ReferendumInfo, Vote};
use frame_support::traits::{Bounded, Currency, ReservableCurrency};
use mon::{rand::Rng, *};
use num_bigint::BigUint;
use rt::{preimg, runtime::*, sched, world::*};
use sp_core::{Get, H256};
use std::collections::{BTreeMap, BTreeSet};

const PERIOD: u64 = 7 * 24 * 3600;
const MIN_DEPOSIT: u128 = 250 * UNITS;
const VOTING: u32 = 7 * DAYS;
const FAST: u32 = 3 * HOURS;
const ENACT: u32 = DAYS;
const MAX: usize = 10;
const NU: u32 = 8;
type B = Bounded<RuntimeCall>;

#[derive(Clone, Debug)]
struct Prop {
    what: usize,
    proposer: u32,
    deposit: u128,
    depositors: Vec<u32>,
}
#[derive(Clone, Debug, PartialEq)]
enum State {
    Voting { end: u32, delay: u32 },
    /// approved, decided at
    Done(bool, u32),
    Cancelled,
}
#[derive(Clone, Debug)]
struct Ref {
    what: usize,
    st: State,
    votes: BTreeMap<u32, (bool, u128)>,
    runs_at: Option<u32>,
}
/// A call up for decision; its effect tells when it ran.
#[derive(Clone, Debug)]
struct What {
    call: B,
    hash: Option<H256>,
    to: u32,
    value: u128,
    noted: bool,
}
#[derive(Clone, Debug, Default)]
struct Model {
    whats: Vec<What>,
    props: BTreeMap<u32, Prop>,
    next_prop: u32,
    refs: BTreeMap<u32, Ref>,
    next_ref: u32,
    /// votes on record per account: referendum -> vote
    voted: BTreeMap<u32, BTreeMap<u32, (bool, u128)>>,
    next_launch: u64,
    paid: BTreeMap<u32, u128>,
    spent: u128,
}
impl Model {
    fn reserved(&self, a: u32) -> u128 {
        self.props.values().map(|p| p.deposit * p.depositors.iter().filter(|d| **d == a).count() as u128).sum()
    }
    fn backing(&self, p: u32) -> u128 {
        let p = &self.props[&p];
        p.deposit * p.depositors.len() as u128
    }
    fn start(&mut self, prop: u32, end: u32, delay: u32) -> u32 {
        let p = self.props.remove(&prop).unwrap();
        let i = self.next_ref;
        self.next_ref += 1;
        self.refs.insert(i, Ref { what: p.what, st: State::Voting { end, delay }, votes: Default::default(), runs_at: None });
        i
    }
    fn held(&self, what: usize) -> u32 {
        let p = self.props.values().filter(|p| p.what == what).count();
        let q = self.refs.values().filter(|q| q.what == what && (matches!(q.st, State::Voting { .. }) || q.runs_at.is_some())).count();
        (p + q) as u32
    }
}
fn power(a: u32) -> u128 {
    Escrow::balance_at(&acc(a), None)
}
fn spare(a: u32, m: &Model) -> u128 {
    power(a).saturating_sub(m.reserved(a))
}
fn votes_of(a: u32) -> BTreeMap<u32, (bool, u128)> {
    let v = democracy::VotingOf::<Runtime>::get(acc(a)).encode();
    let v: Vec<(u32, Vote<u128>)> = Decode::decode(&mut &v[..]).unwrap();
    v.into_iter().map(|(i, v)| (i, (v.aye, v.balance))).collect()
}
fn isqrt(n: u128) -> u128 {
    BigUint::from(n).sqrt().to_u64_digits().iter().rev().fold(0, |a, d| (a << 64) | *d as u128)
}

thread_local! {
    static PROP: std::cell::RefCell<String> = Default::default();
}
/// Reports only the property under check; what belongs to the other merely ends the history.
fn ck(case: &mut Case, p: &str, ok: bool, sig: &str, d: impl FnOnce() -> String) -> bool {
    if PROP.with(|x| *x.borrow() == p) { case.check(ok, sig, d) } else { ok }
}
fn ckeq<T: PartialEq + std::fmt::Debug>(case: &mut Case, p: &str, got: T, want: T, sig: &str, d: impl FnOnce() -> String) -> bool {
    let ok = got == want;
    ck(case, p, ok, sig, || format!("got {got:?} expected {want:?}: {}", d()))
}

fn check(case: &mut Case, m: &Model, ctx: &str) -> bool {
    let mut ok = true;
    let n = now();
    // proposals and their deposits
    let got: BTreeMap<u32, (AccountId, B)> = Democracy::public_props().into_iter().map(|(i, b, a)| (i, (a, b))).collect();
    let want: BTreeMap<u32, (AccountId, B)> = m.props.iter().map(|(i, p)| (*i, (acc(p.proposer), m.whats[p.what].call.clone()))).collect();
    ok &= ck(case, "G01", got == want, "the public proposals are not those made and not yet tabled or cancelled", || format!("at {n} after {ctx}: {:?} want {:?}", got.keys(), want.keys()));
    let got: BTreeMap<u32, (Vec<AccountId>, u128)> = democracy::DepositOf::<Runtime>::iter().map(|(i, (v, x))| (i, (v.into_inner(), x))).collect();
    let want: BTreeMap<u32, (Vec<AccountId>, u128)> = m.props.iter().map(|(i, p)| (*i, (p.depositors.iter().map(|d| acc(*d)).collect(), p.deposit))).collect();
    ok &= ck(case, "G01", got == want, "the deposits recorded are not those of the waiting proposals' backers", || format!("at {n} after {ctx}: {got:?} want {want:?}"));
    for a in 0..NU {
        let r = <Escrow as ReservableCurrency<AccountId>>::reserved_balance(&acc(a));
        ok &= ckeq(case, "G01", r, m.reserved(a), "an account's voting power held is not its deposits on waiting proposals", || format!("{a} at {n} after {ctx}"));
        let v = votes_of(a);
        let w = m.voted.get(&a).cloned().unwrap_or_default();
        ok &= ck(case, "G01", v == w, "an account's votes on record are not those it cast and did not withdraw", || format!("{a} at {n} after {ctx}: {v:?} want {w:?}"));
    }
    ok &= ckeq(case, "G01", Democracy::public_prop_count(), m.next_prop, "the count of proposals made is off", || ctx.to_string());
    ok &= ckeq(case, "G02", Democracy::referendum_count(), m.next_ref, "the count of referenda started is off", || ctx.to_string());
    // referenda
    for (i, q) in &m.refs {
        let got = Democracy::referendum_info(i);
        let good = match (&got, &q.st) {
            (None, State::Cancelled) => true,
            (Some(ReferendumInfo::Finished { approved, end }), State::Done(a, e)) => approved == a && end == e,
            (Some(ReferendumInfo::Ongoing(s)), State::Voting { end, delay }) => {
                let ay: u128 = q.votes.values().filter(|v| v.0).map(|v| v.1).sum();
                let no: u128 = q.votes.values().filter(|v| !v.0).map(|v| v.1).sum();
                case.eval(3);
                if !ck(case, "G01", s.tally.ayes == ay && s.tally.nays == no && s.tally.turnout == ay + no, "a referendum's tally is not the sum of the votes cast", || format!("{i} at {n} after {ctx}: {:?} want {ay} {no}: {:?}", s.tally, q.votes)) {
                    return false;
                }
                s.end == *end && s.delay == *delay && s.proposal == m.whats[q.what].call
            }
            _ => false,
        };
        ok &= ck(case, "G02", good, "a referendum is not in the state its history gives it", || format!("{i} at {n} after {ctx}: {got:?} want {:?}", q));
    }
    let extra = democracy::ReferendumInfoOf::<Runtime>::iter().find(|(i, _)| !m.refs.contains_key(i));
    ok &= ck(case, "G02", extra.is_none(), "a referendum exists that nothing started", || format!("{extra:?} after {ctx}"));
    // preimages held while needed
    for (i, w) in m.whats.iter().enumerate() {
        if let Some(h) = w.hash {
            let got = preimg::Requests::<Runtime>::get(h);
            ok &= ckeq(case, "G01", got, m.held(i), "a proposal's call data is not held exactly while the proposal, its vote or its enactment is pending", || format!("call {i} at {n} after {ctx}"));
        }
    }
    // enactments pending
    let tasks: BTreeMap<Vec<u8>, u32> = sched::Tasks::<Runtime>::iter().map(|(k, (w, _))| (k.to_vec(), w)).collect();
    let want: BTreeMap<Vec<u8>, u32> = m
        .refs
        .iter()
        .filter_map(|(i, q)| {
            let mut k = (*b"democrac", *i).encode();
            k.resize(32, 0);
            q.runs_at.map(|w| (k, w))
        })
        .collect();
    let (a, b): (Vec<_>, Vec<_>) = (tasks.values().collect(), want.values().collect());
    let (mut a, mut b) = (a, b);
    a.sort();
    b.sort();
    ok &= ck(case, "G02", a == b, "the enactments scheduled are not those of the approved referenda", || format!("at {n} after {ctx}: {a:?} want {b:?}"));
    // effects
    for (to, x) in &m.paid {
        ok &= ckeq(case, "G02", total(NATIVE, &acc(500 + to)), *x, "what was enacted is not what was approved, once", || format!("payee {to} at {n} after {ctx}"));
    }
    let t = <TreasuryAccount as Get<AccountId>>::get();
    ok &= ckeq(case, "G02", free(NATIVE, &t), TREASURY - m.spent, "the treasury did not pay exactly what was enacted", || ctx.to_string());
    case.eval(10);
    ok
}
const TREASURY: u128 = 1_000_000_000_000_000_000;

/// Runs the blocks to `to`, none at which something is due left out; false when something failed.
type DE = democracy::Event<Runtime>;
/// What was announced from the given event on, in any order.
fn heard(from: usize) -> Vec<String> {
    let mut l: Vec<String> = events().into_iter().skip(from).filter_map(|e| match e { RuntimeEvent::Democracy(e) => Some(format!("{e:?}")), _ => None }).collect();
    l.sort();
    l
}
fn said(case: &mut Case, from: usize, want: Vec<DE>, d: impl FnOnce() -> String) -> bool {
    let mut l: Vec<String> = want.iter().map(|e| format!("{e:?}")).collect();
    l.sort();
    if !l.is_empty() {
        case.event("governance announced");
    }
    ckeq(case, "Z03", heard(from), l, "a step of governance was not announced as it happened", d)
}
fn pass(case: &mut Case, m: &mut Model, to: u32, skew: u64) -> bool {
    while now() < to {
        let n = now();
        let mut at = to;
        for q in m.refs.values() {
            if let State::Voting { end, .. } = q.st {
                if end > n {
                    at = at.min(end)
                }
            }
            if let Some(w) = q.runs_at {
                at = at.min(w)
            }
        }
        let before: Vec<u32> = m.props.keys().copied().collect();
        let (dep, prev): (BTreeMap<u32, Prop>, u64) = (m.props.clone(), time_ms());
        let dt = (at - n) as u64 * MILLISECS_PER_BLOCK * skew / 100;
        if case.total("block", || format!("{at}"), || block_at(at, dt)).is_none() {
            return false;
        }
        let _ = (before, prev);
        case.log(|| format!("-- block {at}, time {}", time_ms() / 1000));
        let mut tell: Vec<DE> = vec![];
        // enactments due
        let due: Vec<u32> = m.refs.iter().filter(|(_, q)| q.runs_at.map_or(false, |w| w <= at)).map(|(i, _)| *i).collect();
        for i in due {
            let what = m.refs[&i].what;
            m.refs.get_mut(&i).unwrap().runs_at = None;
            let w = m.whats[what].clone();
            if m.spent + w.value <= TREASURY {
                m.spent += w.value;
                *m.paid.entry(w.to).or_default() += w.value;
            }
            case.event("enacted");
        }
        // weekly launch
        let t = time_ms() / 1000;
        if t >= m.next_launch {
            m.next_launch += ((t - m.next_launch) / PERIOD + 1) * PERIOD;
            let had = m.props.len();
            for k in 0..2 {
                if m.props.is_empty() {
                    break;
                }
                // ties may go either way
                let top = m.props.keys().map(|p| m.backing(*p)).max().unwrap();
                let i = m.next_ref;
                let got = match Democracy::referendum_info(i) {
                    Some(ReferendumInfo::Ongoing(s)) => s,
                    g => {
                        ck(case, "G02", false, "a waiting proposal was not put to the vote at the weekly launch", || format!("{k} of {had} at {at}: {g:?}"));
                        return false;
                    }
                };
                let public: Vec<u32> = Democracy::public_props().into_iter().map(|p| p.0).collect();
                let cand: Vec<u32> = m.props.iter().filter(|(p, q)| m.backing(**p) == top && m.whats[q.what].call == got.proposal).map(|(p, _)| *p).collect();
                let Some(p) = cand.iter().copied().find(|p| !public.contains(p)) else {
                    ck(case, "G02", false, "the proposal put to the vote is not the one with the highest backing", || format!("{i} at {at}: {:?} of {:?}", got, dep));
                    return false;
                };
                if cand.len() > 1 || m.props.keys().filter(|p| m.backing(**p) == top).count() > 1 {
                    case.event("launch tie");
                }
                tell.push(DE::Tabled { proposal_index: p, deposit: m.props[&p].deposit });
                tell.push(DE::Started { ref_index: i, threshold: democracy::VoteThreshold::SuperMajorityApprove });
                m.start(p, at + VOTING, ENACT);
                case.event("launched");
            }
            if had == 0 {
                case.event("nothing to launch");
            }
        }
        // decisions
        let mut ends: Vec<u32> = m.refs.iter().filter(|(_, q)| matches!(q.st, State::Voting { end, .. } if end == at)).map(|(i, _)| *i).collect();
        ends.sort();
        let electorate = <Escrow as Currency<AccountId>>::total_issuance();
        for i in ends {
            let q = m.refs.get_mut(&i).unwrap();
            let ay: u128 = q.votes.values().filter(|v| v.0).map(|v| v.1).sum();
            let no: u128 = q.votes.values().filter(|v| !v.0).map(|v| v.1).sum();
            let State::Voting { delay, .. } = q.st else { unreachable!() };
            let turnout = ay + no;
            let e = electorate.max(turnout);
            let (sv, se) = (isqrt(turnout), isqrt(e));
            let big = BigUint::from;
            let verdict = if turnout == 0 {
                Some(false)
            } else if big(no) * big(se + 1) < big(ay) * big(sv) {
                Some(true)
            } else if big(no) * big(se) >= big(ay) * big(sv + 1) {
                Some(false)
            } else {
                None
            };
            let got = match Democracy::referendum_info(i) {
                Some(ReferendumInfo::Finished { approved, end }) if end == at => approved,
                g => {
                    ck(case, "G02", false, "a referendum was not decided at its end", || format!("{i} at {at}: {g:?}"));
                    return false;
                }
            };
            case.event(match verdict {
                Some(true) => "approved",
                Some(false) => "rejected",
                None => "too close to judge",
            });
            if turnout > electorate {
                case.event("turnout above the electorate");
            }
            if verdict == Some(true) && ay < no * 2 || verdict == Some(false) && ay > no {
                case.event("decided by the turnout bias");
            }
            if !ck(case, "G02", verdict.map_or(true, |v| v == got), "a referendum was not decided by the turnout-biased majority of its votes", || format!("{i} at {at}: ayes {ay} nays {no} electorate {electorate}: got {got}")) {
                return false;
            }
            tell.push(if got { DE::Passed { ref_index: i } } else { DE::NotPassed { ref_index: i } });
            q.st = State::Done(got, at);
            if got {
                q.runs_at = Some(at.saturating_add(delay.max(1)));
            }
        }
        if !said(case, 0, tell, || format!("block {at}")) {
            return false;
        }
        if !check(case, m, "blocks passed") {
            return false;
        }
        case.event("block ok");
    }
    true
}

fn history(prop: &str, case: &mut Case, r: &mut R) {
    PROP.with(|x| *x.borrow_mut() = prop.into());
    let steps = r.gen_range(20..110);
    let c = Cfg { accounts: NU, endowment: 1_000_000 * UNITS, ..Default::default() };
    with_world(&c, || {
        mint(&<TreasuryAccount as Get<AccountId>>::get(), NATIVE, TREASURY);
        let mut m = Model { next_launch: 0, ..Default::default() };
        let t = time_ms() / 1000;
        m.next_launch = (t / PERIOD + 1) * PERIOD;
        for a in 0..NU {
            let amt = match a {
                0 | 1 => (900_000 + a as u128) * UNITS,
                _ => *pick(r, &[1_000u128, 20_000, 300_000, 1_000_000]) * UNITS - r.gen_range(0..1000),
            };
            let w = *pick(r, &[30u32, 100, 192, 192]);
            if r.gen_range(0..10) > 0 || a < 2 {
                by(&acc(a), escrow::Call::create_lock { amount: amt, unlock_height: w * WEEKS }).expect("lock");
            }
        }
        let skew = *pick(r, &[100u64, 100, 100, 60, 180, 400]);
        let far = r.gen_bool(0.5);
        // crowded histories reach the limits on proposals, seconds and votes
        let mode = if r.gen_ratio(1, 3) { r.gen_range(1..4) } else { 0 };
        let mut nw = 0u128;
        let steps = if mode == 3 { steps * 2 } else { steps };
        let mut seen = BTreeSet::new();
        // a burst: every account votes on one referendum in turn
        let mut burst: Option<(u32, u32)> = None;
        for step in 0..steps {
            if let Some((i, k)) = burst {
                burst = (k + 1 < NU && matches!(m.refs[&i].st, State::Voting { .. })).then_some((i, k + 1));
            }
            // pass time
            let n = now();
            let ends: Vec<u32> = m.refs.values().filter_map(|q| if let State::Voting { end, .. } = q.st { Some(end) } else { q.runs_at }).collect();
            let to = match r.gen_range(0..10) {
                _ if burst.is_some() || mode > 0 && r.gen_ratio(9, 10) => n,
                0..=3 => n,
                4 => n + 1,
                5 => n + r.gen_range(1..HOURS),
                6 => n + r.gen_range(1..DAYS),
                7 if !ends.is_empty() => (*pick(r, &ends)).min(n + 20 * DAYS) - r.gen_range(0..2u32),
                8 => n + r.gen_range(1..8 * DAYS),
                9 if far && step > steps / 2 => n + r.gen_range(1..40 * DAYS),
                _ => n,
            };
            if to > n && !pass(case, &mut m, to, skew) {
                return;
            }
            let n = now();
            let mut a = r.gen_range(0..NU);
            if let Some((_, k)) = burst {
                a = k;
            }
            let mut rich = false;
            let live: Vec<u32> = m.refs.iter().filter(|(_, q)| matches!(q.st, State::Voting { .. })).map(|(i, _)| *i).collect();
            let any_prop = |r: &mut R| -> u32 {
                let l: Vec<u32> = m.props.keys().copied().collect();
                let k = m.next_prop + 2;
                if l.is_empty() || r.gen_ratio(1, 8) { r.gen_range(0..k) } else { *pick(r, &l) }
            };
            let any_ref = |r: &mut R| -> u32 {
                let k = m.next_ref + 2;
                if live.is_empty() || r.gen_ratio(1, 6) { r.gen_range(0..k) } else { *pick(r, &live) }
            };
            let root_or = |r: &mut R| if r.gen_ratio(1, 6) { signed(&acc(r.gen_range(0..NU))) } else { Origin::root() };
            let is_root = |o: &Origin| frame_system::ensure_root(o.clone()).is_ok();
            let mut after = m.clone();
            if burst.is_none() && !live.is_empty() && r.gen_ratio(1, 10) {
                burst = Some((*pick(r, &live), 0));
                continue;
            }
            let from = events().len();
            let mut tell: Vec<DE> = vec![];
            let started = DE::Started { ref_index: m.next_ref, threshold: democracy::VoteThreshold::SuperMajorityApprove };
            let dice = match mode {
                1 if r.gen() => r.gen_range(0..16),
                2 if r.gen() => r.gen_range(16..32),
                3 if r.gen_ratio(3, 4) => *pick(r, &[0, 0, 0, 40, 40, 40, 70, 70, 70]),
                _ => r.gen_range(0..100),
            };
            if mode > 0 && r.gen() {
                rich = true;
                a = r.gen_range(0..2);
            }
            let who = acc(a);
            if live.is_empty() && (32..=59).contains(&dice) && r.gen_ratio(3, 4) {
                continue;
            }
            let (name, good, res) = match if burst.is_some() { 40 } else { dice } {
                0..=15 => {
                    // a new or known call
                    let what = if !m.whats.is_empty() && r.gen_ratio(1, 5) {
                        r.gen_range(0..m.whats.len())
                    } else {
                        nw += 1;
                        let (to, value) = (nw as u32, if r.gen_ratio(1, 12) { TREASURY * 2 } else { nw * 1000 + 1 });
                        let call: RuntimeCall = democracy::Call::spend_from_treasury { value, beneficiary: acc(500 + to) }.into();
                        let enc = call.encode();
                        let h = H256::from(sp_io::hashing::blake2_256(&enc));
                        let (call, hash, noted) = match r.gen_range(0..6) {
                            0 => (Bounded::Inline(enc.clone().try_into().unwrap()), None, true),
                            1 => (Bounded::Lookup { hash: h, len: enc.len() as u32 }, Some(h), false),
                            2 => (B::from_legacy_hash(h), Some(h), true),
                            _ => (Bounded::Lookup { hash: h, len: enc.len() as u32 }, Some(h), true),
                        };
                        if noted && hash.is_some() {
                            by(&who, preimg::Call::note_preimage { bytes: enc }).unwrap();
                        }
                        m.whats.push(What { call, hash, to, value, noted });
                        m.paid.insert(to, 0);
                        m.whats.len() - 1
                    };
                    after = m.clone();
                    let sp = spare(a, &m);
                    let value = match r.gen_range(if rich { 7 } else { 0 }..10) {
                        0 => MIN_DEPOSIT - 1,
                        1 => sp,
                        2 => sp + 1,
                        3 => r.gen_range(0..MIN_DEPOSIT * 2),
                        4 if sp > MIN_DEPOSIT => r.gen_range(MIN_DEPOSIT..=sp),
                        5 => MIN_DEPOSIT * r.gen_range(1..4),
                        6 => u128::MAX,
                        _ => MIN_DEPOSIT,
                    };
                    let w = &m.whats[what];
                    let good = value >= MIN_DEPOSIT && m.props.len() < MAX && w.noted && value <= sp;
                    if good {
                        after.props.insert(m.next_prop, Prop { what, proposer: a, deposit: value, depositors: vec![a] });
                        after.next_prop += 1;
                        tell.push(DE::Proposed { proposal_index: m.next_prop, deposit: value });
                    } else if m.props.len() >= MAX {
                        case.event("too many proposals");
                    }
                    ("propose", good, act(case, "propose", signed(&who), democracy::Call::propose { proposal: w.call.clone(), value }))
                }
                16..=31 => {
                    let mut p = any_prop(r);
                    if mode == 2 && rich {
                        p = m.props.keys().next().copied().unwrap_or(p);
                    }
                    let good = m.props.get(&p).map_or(false, |q| q.depositors.len() < MAX && spare(a, &m) >= q.deposit);
                    if good {
                        after.props.get_mut(&p).unwrap().depositors.push(a);
                    } else if m.props.get(&p).map_or(false, |q| q.depositors.len() >= MAX) {
                        case.event("too many seconds");
                    }
                    ("second", good, act(case, "second", signed(&who), democracy::Call::second { proposal: p }))
                }
                32..=59 => {
                    let mut i = burst.map_or_else(|| any_ref(r), |b| b.0);
                    if mode == 3 && rich {
                        let mine = m.voted.get(&a).cloned().unwrap_or_default();
                        i = live.iter().copied().find(|l| !mine.contains_key(l)).unwrap_or(i);
                    }
                    let sp = spare(a, &m);
                    let balance = match r.gen_range(if rich || burst.is_some() { 6..10 } else { 0..9 }) {
                        0 => 0,
                        1 => sp,
                        2 => sp + 1,
                        3 => r.gen_range(0..50),
                        4 => weird_u128(r),
                        5 => log_uniform_u128(r, 70),
                        _ => if sp > 0 { r.gen_range(0..=sp) } else { 0 },
                    };
                    let aye = r.gen_bool(if burst.is_some() { 0.5 } else { 0.6 });
                    let on = m.voted.get(&a).cloned().unwrap_or_default();
                    let ongoing = live.contains(&i);
                    let good = ongoing && balance <= sp && (on.contains_key(&i) || on.len() < MAX);
                    if good {
                        after.voted.entry(a).or_default().insert(i, (aye, balance));
                        if after.refs.get_mut(&i).unwrap().votes.insert(a, (aye, balance)).is_some() {
                            case.event("vote changed");
                        }
                    } else if ongoing && balance <= sp {
                        case.event("too many votes");
                    }
                    ("vote", good, act(case, "vote", signed(&who), democracy::Call::vote { ref_index: i, vote: Vote { aye, balance } }))
                }
                60..=67 => {
                    let on: Vec<u32> = m.voted.get(&a).map(|v| v.keys().copied().collect()).unwrap_or_default();
                    let i = if on.is_empty() || r.gen_ratio(1, 6) { any_ref(r) } else { *pick(r, &on) };
                    let good = on.contains(&i);
                    if good {
                        after.voted.get_mut(&a).unwrap().remove(&i);
                        let q = after.refs.get_mut(&i).unwrap();
                        if matches!(q.st, State::Voting { .. }) {
                            q.votes.remove(&a);
                        } else {
                            case.event("vote on a finished referendum removed");
                        }
                    }
                    ("remove_vote", good, act(case, "remove_vote", signed(&who), democracy::Call::remove_vote { index: i }))
                }
                68..=79 => {
                    let p = any_prop(r);
                    let o = root_or(r);
                    let delay = *pick(r, &[0u32, 1, 2, 1000, DAYS, 3 * DAYS, u32::MAX]);
                    let fast = r.gen();
                    let good = is_root(&o) && m.props.contains_key(&p);
                    if good {
                        after.start(p, n + if fast { FAST } else { VOTING }, delay);
                        tell.extend([started, DE::FastTrack { ref_index: m.next_ref }]);
                    }
                    let c: RuntimeCall = if fast { democracy::Call::fast_track { prop_index: p, delay }.into() } else { democracy::Call::table_proposal { prop_index: p, delay }.into() };
                    (if fast { "fast_track" } else { "table_proposal" }, good, act(case, "fast_track", o, c))
                }
                80..=85 => {
                    let i = any_ref(r);
                    let o = root_or(r);
                    let end = m.refs.get(&i).and_then(|q| if let State::Voting { end, .. } = q.st { Some(end) } else { None });
                    let good = is_root(&o) && end.map_or(false, |e| e > n + FAST);
                    if good {
                        if let State::Voting { end, .. } = &mut after.refs.get_mut(&i).unwrap().st {
                            *end = n + FAST
                        }
                        tell.push(DE::FastTrackReferendum { ref_index: i });
                    }
                    ("fast_track_referendum", good, act(case, "fast_track_referendum", o, democracy::Call::fast_track_referendum { ref_index: i }))
                }
                86..=88 => {
                    let i = any_ref(r);
                    let o = root_or(r);
                    let good = is_root(&o);
                    // cancelling what is not under vote is not judged
                    let live_one = live.contains(&i);
                    if !live_one {
                        continue;
                    }
                    if good {
                        after.refs.get_mut(&i).unwrap().st = State::Cancelled;
                        tell.push(DE::Cancelled { ref_index: i });
                    }
                    ("cancel_referendum", good, act(case, "cancel_referendum", o, democracy::Call::cancel_referendum { ref_index: i }))
                }
                89..=94 => {
                    let p = any_prop(r);
                    let o = match r.gen_range(0..3) {
                        0 => Origin::root(),
                        1 => signed(&m.props.get(&p).map(|q| acc(q.proposer)).unwrap_or(who.clone())),
                        _ => signed(&who),
                    };
                    let good = m.props.get(&p).map_or(false, |q| is_root(&o) || frame_system::ensure_signed(o.clone()).ok() == Some(acc(q.proposer)));
                    if good {
                        after.props.remove(&p);
                        tell.push(DE::CancelledProposal { prop_index: p });
                    }
                    ("cancel_proposal", good, act(case, "cancel_proposal", o, democracy::Call::cancel_proposal { prop_index: p }))
                }
                95 => {
                    let o = root_or(r);
                    let good = is_root(&o);
                    if good {
                        if !after.props.is_empty() {
                            case.event("proposals cleared");
                        }
                        after.props.clear();
                    }
                    ("clear_public_proposals", good, act(case, "clear_public_proposals", o, democracy::Call::clear_public_proposals {}))
                }
                _ => {
                    let o = root_or(r);
                    let to = 5000 + nw as u32;
                    let value = if r.gen() { r.gen_range(0..1000) } else { TREASURY - m.spent + r.gen_range(0..2) };
                    let good = is_root(&o) && value <= TREASURY - m.spent;
                    if value > 100_000 && good {
                        continue;
                    }
                    if good {
                        after.spent += value;
                        *after.paid.entry(to).or_default() += value;
                    }
                    ("spend_from_treasury", good, act(case, "spend_from_treasury", o, democracy::Call::spend_from_treasury { value, beneficiary: acc(500 + to) }))
                }
            };
            let Some(res) = res else { return };
            let whose = if ["propose", "second", "vote", "remove_vote", "cancel_proposal", "clear_public_proposals"].contains(&name) { "G01" } else { "G02" };
            if !ck(case, whose, res.is_ok() == good, if good { "a governance call allowed by the rules was refused" } else { "a governance call against the rules was accepted" }, || format!("{name} by {a} at {n}: {}", err_name(&res))) {
                return;
            }
            if !said(case, from, tell, || format!("{name} by {a} at {n}")) {
                return;
            }
            case.event(&format!("{name} {}", if good { "ok" } else { "refused" }));
            if good {
                m = after;
            }
            if !check(case, &m, name) {
                return;
            }
            if seen.insert((m.props.len(), m.next_ref, m.voted.values().map(|v| v.len()).sum::<usize>())) {
                case.state_dbg(&(n, m.props.len(), m.refs.values().map(|q| q.votes.clone()).collect::<Vec<_>>()));
            }
        }
        // to the end of everything pending
        let last = m.refs.values().filter_map(|q| if let State::Voting { end, .. } = q.st { Some(end) } else { None }).max().unwrap_or(0) + 3 * DAYS + 2;
        if last > now() && !pass(case, &mut m, last, skew) {
            return;
        }
        case.sample(|| format!("{steps} steps, {} proposals, {} referenda to block {}", m.next_prop, m.next_ref, now()));
    });
}

/// The announcements alone.
pub fn news(m: &Mon) {
    m.stream("governance announced", 600, 20, |c, r| history("Z03", c, r));
    m.require("governance announced", 5000);
}
pub fn run(m: &Mon) {
    m.rule("histories: 20..110 governance calls (propose, second, vote, withdraw a vote, fast track, table, cancel, clear, spend) by eight holders of very different and decaying voting power and by root, valid and at or past each limit, with time passing up to weeks and every block where something is due run; blocks may come faster or slower than their target time. After every call and every such block, all proposals, deposits, held voting power, votes, tallies, referenda, held call data, scheduled enactments and payments made are compared with a direct model. A state is a distinct set of votes and proposals.");
    let prop = m.prop.clone();
    m.stream("histories", 4000, 20, |c, r| history(&prop, c, r));
    for (e, n) in [("propose ok", 1000), ("propose refused", 300), ("second ok", 500), ("second refused", 300), ("vote ok", 1000), ("vote refused", 300), ("vote changed", 100), ("remove_vote ok", 200), ("fast_track ok", 200), ("table_proposal ok", 200), ("fast_track refused", 50), ("fast_track_referendum ok", 50), ("cancel_referendum ok", 50), ("cancel_proposal ok", 50), ("proposals cleared", 50), ("too many proposals", 50), ("too many seconds", 50), ("too many votes", 50), ("enacted", 300), ("approved", 300), ("rejected", 300), ("launched", 500), ("decided by the turnout bias", 50)] {
        m.require(e, n);
    }
}
