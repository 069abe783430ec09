//! R01: the relay's header tree, fork choice, confirmations and difficulty against an independent
//! model of the header tree.
use bitcoin::types::{BlockHeader, H256Le};
use mon::rand::Rng;
use mon::*;
use num_bigint::BigUint;
use rt::model::{get_compact, set_compact, Compact};
use rt::{btc, runtime::*, world::*};
use sp_core::U256;
use std::collections::{HashMap, HashSet};

pub struct Node {
    pub hash: H256Le,
    pub parent: Option<usize>,
    pub height: u32,
    pub para: u32,
    pub header: BlockHeader,
}
pub struct Model {
    pub n: Vec<Node>,
    pub main: usize,
    pub k: u32,
    pub p: u32,
    pub kids: HashMap<usize, u32>,
}
impl Model {
    pub fn new(k: u32, p: u32, h: BlockHeader, height: u32, para: u32) -> Model {


        Model { n: vec![Node { hash: h.hash, parent: None, height, para, header: h }], main: 0, k, p, kids: Default::default() }
    }
    /// Adds a child; returns true when the main chain switched branches.
    pub fn add(&mut self, parent: usize, h: BlockHeader, para: u32) -> bool {
        let i = self.n.len();
        let height = self.n[parent].height + 1;
        self.n.push(Node { hash: h.hash, parent: Some(parent), height, para, header: h });

        *self.kids.entry(parent).or_default() += 1;
        if parent == self.main {
            self.main = i;
            false
        } else if height >= self.n[self.main].height + self.k {
            self.main = i;
            true
        } else {
            false
        }
    }
    pub fn leaves(&self) -> Vec<usize> {
        (0..self.n.len()).filter(|i| !self.kids.contains_key(i)).collect()
    }
    pub fn main_set(&self) -> HashSet<usize> {
        let mut s = HashSet::new();
        let mut c = Some(self.main);
        while let Some(i) = c {
            s.insert(i);
            c = self.n[i].parent;
        }
        s
    }
    pub fn ongoing_fork(&self) -> bool {
        let best = self.n[self.main].height;
        self.leaves().iter().any(|l| *l != self.main && self.n[*l].height + self.k > best)
    }
    /// May a transaction in block `i` be accepted?
    pub fn included(&self, i: usize, main: &HashSet<usize>, confs: Option<u32>, active: u32) -> bool {
        let b = &self.n[i];
        let c = confs.unwrap_or(self.k);
        !self.ongoing_fork()
            && main.contains(&i)
            && self.n[self.main].height as u64 + 1 >= b.height as u64 + c as u64
            && b.para as u64 + self.p as u64 <= active as u64
    }
}

fn mark(e: &RuntimeEvent) -> Option<(&'static str, H256Le)> {
    match e {
        RuntimeEvent::BTCRelay(btc_relay::Event::StoreMainChainHeader { block_hash, .. }) => Some(("main", *block_hash)),
        RuntimeEvent::BTCRelay(btc_relay::Event::StoreForkHeader { block_hash, .. }) => Some(("fork", *block_hash)),
        RuntimeEvent::BTCRelay(btc_relay::Event::ChainReorg { new_chain_tip_hash, .. }) => Some(("reorg", *new_chain_tip_hash)),
        _ => None,
    }
}

fn compare(case: &mut Case, m: &Model, r: &mut R, active: u32, probes: usize) {
    let best = &m.n[m.main];
    case.eq(BTCRelay::get_best_block(), best.hash, "best block is not the fork-choice winner", || format!("height {}", best.height));
    case.eq(BTCRelay::get_best_block_height(), best.height, "best height is not the height of the best block", String::new);
    let start = m.n[0].height;
    case.eq(BTCRelay::is_fully_initialized().ok(), Some(best.height >= start + m.k), "relay readiness", || format!("start {start} best {} k {}", best.height, m.k));
    let main = m.main_set();
    let fork = m.ongoing_fork();
    if fork {
        case.event("ongoing-fork");
    }
    for _ in 0..probes {
        let i = if r.gen_bool(0.5) { r.gen_range(0..m.n.len()) } else { m.n.len() - 1 - r.gen_range(0..m.n.len().min(8)) };
        let confs = match r.gen_range(0..5) {
            0..=2 => None,
            3 => Some(r.gen_range(0..10)),
            _ => Some(weird_u32(r)),
        };
        let want = m.included(i, &main, confs, active);
        let hash = m.n[i].hash;
        case.event(if want { "confirmed" } else { "unconfirmed" });
        let Some(got) = case.total("confirmation query", || format!("{:?} {:?}", hash, confs), || BTCRelay::verify_block_header_inclusion(hash, confs)) else { return };
        let ctx = || {
            format!(
                "block {} at height {} (main {}, stored at {}, now {}), best {}, confirmations {:?} (k {}), parachain confirmations {}, ongoing fork {}, leaves {:?}",
                hex(&hash.to_bytes_be()[..4]), m.n[i].height, main.contains(&i), m.n[i].para, active, best.height, confs, m.k, m.p, fork,
                m.leaves().iter().map(|l| (m.n[*l].height, *l == m.main)).collect::<Vec<_>>()
            )
        };
        match got {
            Ok(h) => {
                case.check(want, "block counted as confirmed which is not", ctx);
                case.eq(h, m.n[i].header, "confirmed header is not the stored header", String::new);
            }
            Err(_) => {
                case.check(!want, "confirmed block not accepted", ctx);
            }
        }
    }
}

fn tree(case: &mut Case, r: &mut R, steps: usize) {
    let k = r.gen_range(1..=6);
    let p = *pick(r, &[0, 1, 2, 6]);
    let cfg = Cfg { btc_confirmations: k, para_confirmations: p, accounts: 0, ..Default::default() };
    with_world(&cfg, || {
        let start = if r.gen() { r.gen_range(0..5) } else { weird_u32(r) / 2 };
        // unknown parents before initialization
        let g = btc::init(start, r);
        let mut m = Model::new(k, p, g.header, start, active());
        case.check(
            by(&acc(RELAYER), btc_relay::Call::<Runtime>::initialize { block_header: btc::block(g.hash, 1, vec![], 7, r).header, block_height: 7 }).is_err(),
            "the relay was initialized twice", String::new);
        let style = r.gen_range(0..4);
        let mut ties = 0u64;
        for _ in 0..steps {
            for _ in 0..*pick(r, &[0, 0, 0, 1, 1, 3]) {
                next_block();
            }
            if r.gen_bool(0.02) {
                let on: bool = r.gen();
                root(security::Call::<Runtime>::activate_counter { is_active: on }).ok();
            }
            let leaves = m.leaves();
            let par = match (style, r.gen_range(0..10)) {
                (0, 0..=6) | (1, 0..=2) | (2, 0..=1) => m.main,
                (3, 0..=7) => {
                    // race of branches: mostly the lowest of the highest leaves
                    let mut l = leaves.clone();
                    l.sort_by_key(|i| std::cmp::Reverse(m.n[*i].height));
                    l.truncate(4);
                    *pick(r, &l)
                }
                (1, 3..=7) | (2, 2..=6) => *pick(r, &leaves),
                (_, 8) => m.n.len() - 1 - r.gen_range(0..m.n.len().min(6)),
                _ => {
                    if m.n.len() < 6 { m.main } else { m.n.len() - 1 - r.gen_range(0..m.n.len().min(20)) }
                }
            };
            System::reset_events();
            let b = btc::block(m.n[par].hash, m.n[par].height + 1, vec![], r.gen(), r);
            let a = active();
            let before = (BTCRelay::get_best_block(), BTCRelay::get_best_block_height());
            // hostile headers now and then
            match r.gen_range(0..12) {
                0 => {
                    let mut h = b.header;
                    h.hash_prev_block = H256Le::from_bytes_le(&bytes(r, 32));
                    case.check(btc::submit(&h).is_err(), "header with unknown parent stored", String::new);
                    case.event("rejected-unknown-parent");
                }
                1 => {
                    // proof of work too weak
                    let mut h = b.header;
                    loop {
                        h.nonce = r.gen();
                        let d = rt::model::dsha(&btc::header_bytes(&h, btc::EASY_BITS));
                        if U256::from_little_endian(&d) > h.target {
                            break;
                        }
                    }
                    // a lie about the hash must not help
                    h.hash = if r.gen() { b.hash } else { H256Le::from_bytes_le(&[0; 32]) };
                    case.check(btc::submit(&h).is_err(), "header without enough work stored", String::new);
                    case.event("rejected-work");
                }
                2 => {
                    let d = m.n[r.gen_range(0..m.n.len())].header;
                    case.check(btc::submit(&d).is_err(), "known header stored again", String::new);
                    case.event("rejected-duplicate");
                }
                _ => {}
            }
            case.eq((BTCRelay::get_best_block(), BTCRelay::get_best_block_height()), before, "a rejected header changed the best block", String::new);
            System::reset_events();
            let mut sub = b.header;
            if r.gen_bool(0.3) {
                sub.hash = H256Le::from_bytes_le(&bytes(r, 32)); // the submitter's hash field is not trusted
            }
            let Some(res) = case.total("store header", String::new, || btc::submit(&sub)) else { return };
            if !case.check(res.is_ok(), "valid header refused", || err_name(&res)) {
                return;
            }
            let extends = par == m.main;
            let switched = m.add(par, b.header, a);
            case.log(|| format!("block h={} on {} (main tip {}) -> main h={}{}", m.n[m.n.len() - 1].height, par, extends, m.n[m.main].height, if switched { " reorg" } else { "" }));
            if switched {
                case.event("reorg");
            } else if extends {
                case.event("extend-main");
            } else {
                case.event("fork-block");
            }
            let ev: Vec<_> = events().iter().filter_map(mark).collect();
            let want: Vec<_> = if switched {
                vec![("reorg", b.hash), ("main", b.hash)]
            } else if extends {
                vec![("main", b.hash)]
            } else {
                vec![("fork", b.hash)]
            };
            case.eq(ev, want, "events do not tell what happened to the header", String::new);
            case.check(BTCRelay::block_header_exists(b.hash), "stored header not found", String::new);
            let hs: Vec<u32> = m.leaves().iter().map(|l| m.n[*l].height).collect();
            ties += (hs.len() as u64 > 2) as u64;
            compare(case, &m, r, active(), 4);
            if case.failed() {
                return;
            }
            let mut shape: Vec<i64> = m.leaves().iter().map(|l| m.n[*l].height as i64 - m.n[m.main].height as i64).collect();
            shape.sort();
            case.state_dbg(&(k, shape));
        }
        case.events("states-with-several-forks", ties);
        // at the end, many probes at several times
        for _ in 0..3 {
            compare(case, &m, r, active(), 30);
            blocks(3);
        }
        // expiry of Bitcoin-time deadlines
        for _ in 0..20 {
            let open = if r.gen() { m.n[m.main].height.saturating_sub(r.gen_range(0..30)) } else { weird_u32(r) };
            let period = if r.gen() { r.gen_range(0..2000) } else { weird_u32(r) };
            let got = BTCRelay::bitcoin_block_expired(open, period);
            let ppb = BITCOIN_BLOCK_SPACING as u64;
            let need = (period as u64 + ppb - 1) / ppb + open as u64;
            if need <= u32::MAX as u64 && period as u64 + ppb - 1 <= u32::MAX as u64 {
                case.eq(got.ok(), Some(m.n[m.main].height as u64 > need), "Bitcoin-time expiry", || format!("open {open} period {period} best {}", m.n[m.main].height));
            } else {
                case.check(got.is_err(), "Bitcoin-time expiry beyond the height range answered", || format!("{open} {period}"));
            }
        }
        case.eval(steps as u64);
    });
    case.sample(|| format!("header tree, k={k}, p={p}, {steps} headers"));
}

fn big(u: U256) -> BigUint {
    let mut b = [0u8; 32];
    u.to_little_endian(&mut b);
    BigUint::from_bytes_le(&b)
}
fn u256(b: &BigUint) -> U256 {
    U256::from_little_endian(&b.to_bytes_le())
}
fn compact_target(bits: u32) -> U256 {
    match set_compact(bits) {
        Compact::Val(v) => u256(&v),
        _ => panic!(),
    }
}
/// Bitcoin's retarget rule.
fn retarget(prev: U256, first: u32, last: u32) -> U256 {
    let span = (last as i64 - first as i64).clamp(302_400, 4_838_400) as u64;
    let lim: BigUint = (BigUint::from(1u8) << 224) - 1u8;
    let v = (big(prev) * span / 1_209_600u64).min(lim);
    compact_target(get_compact(&v))
}

fn difficulty(case: &mut Case, r: &mut R, periods: u32) {
    let k = r.gen_range(2..=6);
    let cfg = Cfg { btc_confirmations: k, para_confirmations: 0, difficulty_check: true, accounts: 0, ..Default::default() };
    with_world(&cfg, || {
        let who = acc(RELAYER);
        let bits = *pick(r, &[0x1d00ffffu32, 0x1c7fff80, 0x1b0404cb, 0x1a05db8b, 0x1803a30c, 0x17034219]);
        let mut ctr = r.gen::<u64>() >> 20;
        let mut mk = |prev: H256Le, target: U256, time: u32, r: &mut R| -> BlockHeader {
            ctr += 1;
            BlockHeader {
                merkle_root: H256Le::from_bytes_le(&bytes(r, 32)),
                target,
                timestamp: time,
                version: 4,
                hash: H256Le::from_bytes_le(&U256::from(ctr).to_little()),
                hash_prev_block: prev,
                nonce: 0,
            }
        };
        let start = 2016 * r.gen_range(0..400u32);
        let t0: u32 = r.gen_range(1_300_000_000..1_800_000_000);
        let g = mk(H256Le::zero(), compact_target(bits), t0, r);
        case.check(BTCRelay::_initialize(who.clone(), g, start + 1 + r.gen_range(0..2015)).is_err(), "relay started in the middle of a difficulty period", String::new);
        BTCRelay::_initialize(who.clone(), g, start).expect("init");
        let mut m = Model::new(k, 0, g, start, active());
        // for each block: index of first block of its period
        let mut first: Vec<usize> = vec![0];
        let mut tips: Vec<usize> = vec![0];
        let pace = match r.gen_range(0..4) {
            0 => 600,
            1 => r.gen_range(1..3000),
            2 => 100,
            _ => 9000,
        };
        let total = 2016 * periods + 20;
        let target_height = start + total;
        let fork_at: Vec<u32> = (0..3).map(|_| {
            let boundary = start + 2016 * r.gen_range(1..=periods);
            boundary - 1 - if r.gen() { r.gen_range(0..5) } else { r.gen_range(0..60) }
        }).collect();
        let mut guard_ = 0;
        while m.n[m.main].height < target_height {
            guard_ += 1;
            if guard_ > total * 2 + 2000 {
                break;
            }
            // choose which tip to extend: main mostly; forks get extended around
            let par = if tips.len() > 1 && r.gen_bool(0.6) { *pick(r, &tips) } else { m.main };
            let h = m.n[par].height + 1;
            let boundary = h % 2016 == 0;
            let jitter = r.gen_range(0..=pace * 2);
            let time = (m.n[par].header.timestamp as i64 + jitter as i64 - if r.gen_bool(0.05) { 5000 } else { 0 }).clamp(0, u32::MAX as i64) as u32;
            let parent_target = m.n[par].header.target;
            let want = if boundary { retarget(parent_target, m.n[first[par]].header.timestamp, m.n[par].header.timestamp) } else { parent_target };
            if boundary || r.gen_bool(0.01) {
                // wrong targets
                let wrong = match r.gen_range(0..4) {
                    0 => parent_target,
                    1 => want << 1,
                    2 => want >> 1,
                    _ => want + U256::from(1) ,
                };
                if wrong != want && wrong > U256::from(1u64 << 50) {
                    let b = mk(m.n[par].hash, wrong, time, r);
                    case.check(BTCRelay::_store_block_header(&who, b).is_err(), "header with the wrong difficulty target stored", || format!("height {h} target {wrong:x} expected {want:x}"));
                    case.event("rejected-target");
                }
                let mut b = mk(m.n[par].hash, want, time, r);
                b.hash = H256Le::from_bytes_le(&(want + U256::from(r.gen_range(1..1000u32))).to_little());
                case.check(BTCRelay::_store_block_header(&who, b).is_err(), "header above its target stored", || format!("height {h}"));
                case.event("rejected-work");
            }
            let b = mk(m.n[par].hash, want, time, r);
            let Some(res) = case.total("store header", || format!("height {h}"), || BTCRelay::_store_block_header(&who, b)) else { return };
            let on_fork = par != m.main;
            if !case.check(res.is_ok(), if boundary && on_fork { "valid retarget header on a fork refused" } else { "valid header refused under difficulty checks" }, || {
                format!("height {h} boundary {boundary} fork {on_fork}: {}", err_name(&res.map_err(Into::into)))
            }) {
                return;
            }
            m.add(par, b, active());
            first.push(if boundary { m.n.len() - 1 } else { first[par] });
            if boundary {
                case.event(if on_fork { "retarget-on-fork" } else { "retarget" });
                case.state_dbg(&(want, h));
            }
            let ni = m.n.len() - 1;
            if let Some(t) = tips.iter_mut().find(|t| **t == par) {
                *t = ni;
            } else {
                tips.push(ni);
            }
            // open a fork below a boundary
            if fork_at.contains(&h) && tips.len() < 4 && tips[0] == ni {
                tips.push(par);
            }
            if tips.len() > 1 && r.gen_bool(0.02) && m.n[m.main].height % 2016 > 8 && m.n[m.main].height % 2016 < 1900 {
                tips = vec![m.main];
            }
            if m.n[m.main].height != BTCRelay::get_best_block_height() || BTCRelay::get_best_block() != m.n[m.main].hash {
                compare(case, &m, r, active(), 0);
                return;
            }
        }
        if m.n.len() < 4000 {
            compare(case, &m, r, active(), 10);
        }
        case.eval(m.n.len() as u64);
    });
    case.sample(|| format!("difficulty periods {periods}"));
}
trait Le {
    fn to_little(&self) -> [u8; 32];
}
impl Le for U256 {
    fn to_little(&self) -> [u8; 32] {
        let mut b = [0u8; 32];
        self.to_little_endian(&mut b);
        b
    }
}

pub fn run(m: &Mon) {
    m.rule("A case is one relay history: headers extending, forking and racing a header tree (ties, forks of forks, reorganizations, hostile headers), judged after every header by an independent tree model; a state is the multiset of leaf heights relative to the best block. Difficulty cases cross 2016-block boundaries on the main chain and on forks; their states are (target, height) at a retarget.");
    m.stream("tree", 2400, 12, |c, r| {
        let n = *pick(r, &[20, 40, 60, 120, 200]);
        tree(c, r, n)
    });
    m.stream("difficulty", 60, 10, |c, r| {
        let p = r.gen_range(1..=2);
        difficulty(c, r, p)
    });
    for (e, n) in [("reorg", 50), ("fork-block", 1000), ("extend-main", 1000), ("ongoing-fork", 500), ("confirmed", 1000), ("unconfirmed", 1000), ("retarget", 20), ("retarget-on-fork", 10), ("rejected-target", 50), ("rejected-work", 100), ("states-with-several-forks", 1000)] {
        m.require(e, n);
    }
}
