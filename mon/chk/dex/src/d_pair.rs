//! D01: constant product pairs, against an exact model of every balance.
use dex_general::{PairStatus, Pallet as Dex};
use mon::{rand::Rng, *};
use num_bigint::BigUint;
use rt::{runtime::*, world::*};
use std::collections::BTreeMap;

pub fn asset(i: usize) -> CurrencyId {
    match i {
        0 => NATIVE,
        1 => RELAY,
        2 => WRAPPED,
        3 => CurrencyId::ForeignAsset(7),
        _ => CurrencyId::StableLpToken(1),
    }
}
pub fn big(x: u128) -> BigUint {
    BigUint::from(x)
}
pub fn small(x: BigUint) -> Option<u128> {
    x.to_string().parse().ok()
}
pub fn muldiv(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 { None } else { small(big(a) * b / c) }
}
use num_integer::Roots;
pub fn root(x: BigUint) -> BigUint {
    x.sqrt()
}
#[derive(Clone, Debug, Default)]
struct Pair {
    supply: u128,
    fee: u128,
    klast: BigUint,
}
type Key = (usize, usize);
fn key(a: usize, b: usize) -> Key {
    // pairs are kept in the order of their currencies
    if asset(a) < asset(b) { (a, b) } else { (b, a) }
}
fn lp(k: Key) -> CurrencyId {
    CurrencyId::join_lp_token(asset(k.0), asset(k.1)).unwrap()
}
fn account(k: Key) -> AccountId {
    Dex::<Runtime>::pair_account_id(asset(k.0), asset(k.1))
}
struct World {
    na: usize,
    nu: u32,
    pairs: BTreeMap<Key, Pair>,
    bal: BTreeMap<(CurrencyId, AccountId), u128>,
    receiver: Option<u32>,
    point: u8,
}
const FEES: u32 = 90;
impl World {
    fn free(&self, c: CurrencyId, a: &AccountId) -> u128 {
        self.bal.get(&(c, a.clone())).copied().unwrap_or(0)
    }
    fn add(&mut self, c: CurrencyId, a: &AccountId, x: u128) {
        *self.bal.entry((c, a.clone())).or_default() += x;
    }
    fn sub(&mut self, c: CurrencyId, a: &AccountId, x: u128) -> bool {
        let b = self.bal.entry((c, a.clone())).or_default();
        if *b < x { return false }
        *b -= x;
        true
    }
    fn mv(&mut self, c: CurrencyId, a: &AccountId, b: &AccountId, x: u128) -> bool {
        if !self.sub(c, a, x) { return false }
        self.add(c, b, x);
        true
    }
    fn res(&self, a: usize, b: usize) -> (u128, u128) {
        let acc = account(key(a, b));
        (self.free(asset(a), &acc), self.free(asset(b), &acc))
    }
    fn k(&self, k: Key) -> BigUint {
        let (a, b) = self.res(k.0, k.1);
        big(a) * b
    }
    /// the protocol's share of the growth since the last liquidity operation
    fn fee(&mut self, k: Key) {
        if let Some(r) = self.receiver {
            let p = self.pairs[&k].clone();
            if p.klast != big(0) {
                let (rk, rl) = (root(self.k(k)), root(p.klast));
                if rk > rl {
                    let m = small((&rk - &rl) * p.supply / (&rk * (self.point as u32) + &rl)).unwrap_or(0);
                    self.add(lp(k), &acc(r), m);
                    self.pairs.get_mut(&k).unwrap().supply += m;
                }
            }
        } else {
            self.pairs.get_mut(&k).unwrap().klast = big(0);
        }
    }
    fn settle(&mut self, k: Key) {
        if self.receiver.is_some() {
            let v = self.k(k);
            self.pairs.get_mut(&k).unwrap().klast = v;
        }
    }
    fn users(&self) -> Vec<AccountId> {
        (0..self.nu).chain([FEES, FEES + 1]).map(acc).collect()
    }
    fn compare(&self, case: &mut Case, ctx: &str) -> bool {
        let mut ok = true;
        let mut who = self.users();
        for a in 0..self.na {
            for b in 0..a {
                who.push(account(key(a, b)));
            }
        }
        for w in &who {
            for a in 0..self.na {
                ok &= case.eq(free(asset(a), w), self.free(asset(a), w), "an exchange operation moved other amounts than it should", || format!("{:?} of {} after {ctx}", asset(a), acc_name(w)));
            }
            for k in self.pairs.keys() {
                ok &= case.eq(free(lp(*k), w), self.free(lp(*k), w), "an operation changed other pool shares than it should", || format!("{k:?} of {} after {ctx}", acc_name(w)));
            }
        }
        for (k, p) in &self.pairs {
            case.eval(1);
            ok &= case.eq(issuance(lp(*k)), p.supply, "the pool shares in existence are not what was minted less what was burned", || format!("{k:?} after {ctx}"));
            match Dex::<Runtime>::pair_status((asset(k.0), asset(k.1))) {
                PairStatus::Trading(m) => {
                    ok &= case.eq((m.total_supply, m.fee_rate), (p.supply, p.fee), "a pair's recorded shares or fee are wrong", || format!("{k:?} after {ctx}"));
                }
                s => {
                    ok &= case.check(false, "a trading pair is not trading", || format!("{k:?} {s:?} after {ctx}"));
                }
            }
        }
        ok
    }
    /// takes over what the chain did (after its effect was judged otherwise)
    fn resync(&mut self) {
        let mut who = self.users();
        for k in self.pairs.keys() { who.push(account(*k)) }
        for w in who {
            for a in 0..self.na { self.bal.insert((asset(a), w.clone()), free(asset(a), &w)); }
        }
    }
}
/// value per share: K / supply^2 as a pair to compare by cross multiplication
fn worth(w: &World, k: Key) -> (BigUint, BigUint) {
    (w.k(k), big(w.pairs[&k].supply) * w.pairs[&k].supply)
}

fn amount(r: &mut R, have: u128) -> u128 {
    match r.gen_range(0..10) {
        0 => 0,
        1 => 1,
        2 => have,
        3 => have.saturating_add(1),
        4 => have / 2,
        _ => {
            let bits = 128 - have.leading_zeros();
            log_uniform_u128(r, bits.max(1))
        }
    }
}
fn out(x: u128, i: u128, o: u128, fee: u128) -> Option<u128> {
    if i == 0 || o == 0 || x == 0 { return None }
    let y = big(x) * (10_000 - fee);
    small(&y * o / (big(i) * 10_000u32 + y)).filter(|z| *z > 0)
}
/// the least payment for `y`: the product of reserves, counting the input less fees, must not fall
fn inp(y: u128, i: u128, o: u128, fee: u128) -> Option<(u128, u128)> {
    if i == 0 || o == 0 || y == 0 || y >= o { return None }
    let n = big(i) * y * 10_000u32;
    let d = big(o - y) * (10_000 - fee);
    let f = small(&n / &d)?;
    let least = if big(f) * &d == n { f } else { f.checked_add(1)? };
    Some((least.max(1), f.checked_add(1)?))
}

fn root_create(w: &mut World, a: usize, b: usize, fee: u128) {
    rt::world::root(dex_general::Call::create_pair { asset_0: asset(a), asset_1: asset(b), fee_rate: fee }).unwrap();
    w.pairs.insert(key(a, b), Pair { fee, ..Default::default() });
}
fn history(case: &mut Case, r: &mut R) {
    let na = r.gen_range(2..6usize);
    let nu = r.gen_range(1..5u32);
    let bits = *pick(r, &[8u32, 20, 60, 100]);
    let steps = r.gen_range(20..90);
    with_world(&Cfg { accounts: 0, ..Default::default() }, || {
        let mut w = World { na, nu, pairs: BTreeMap::new(), bal: BTreeMap::new(), receiver: None, point: 0 };
        for u in 0..nu {
            for a in 0..na {
                let x = log_uniform_u128(r, bits) + (1 << (bits - 2));
                set_balance(&acc(u), asset(a), x);
                w.bal.insert((asset(a), acc(u)), x);
            }
        }
        if r.gen_bool(0.7) {
            // a running exchange: most pairs trade
            for a in 0..na {
                for b in 0..a {
                    if r.gen_bool(0.2) { continue }
                    let fee = *pick(r, &[30u128, 30, 0, 100]);
                    root_create(&mut w, a, b, fee);
                    let k = key(a, b);
                    let (x, y) = (1 + w.free(asset(a), &acc(0)) / r.gen_range(4..20), 1 + w.free(asset(b), &acc(0)) / r.gen_range(4..20));
                    if by(&acc(0), dex_general::Call::add_liquidity { asset_0: asset(a), asset_1: asset(b), amount_0_desired: x, amount_1_desired: y, amount_0_min: 0, amount_1_min: 0, deadline: 100 }).is_ok() {
                        let s = free(lp(k), &acc(0));
                        let mint = small(root(big(x) * y)).unwrap();
                        case.eq(s, mint, "the first liquidity is not worth the root of the product", || format!("{x} {y}"));
                        w.pairs.get_mut(&k).unwrap().supply = mint;
                        w.add(lp(k), &acc(0), mint);
                        w.mv(asset(a), &acc(0), &account(k), x);
                        w.mv(asset(b), &acc(0), &account(k), y);
                    }
                }
            }
            case.log(|| format!("set up: pairs {:?}, balances {:?}", w.pairs, w.bal.values()));
            if !w.compare(case, "set up") { return }
        }
        for _ in 0..steps {
            let (a, mut b) = (r.gen_range(0..na), r.gen_range(0..na));
            if a == b && r.gen_bool(0.9) { b = (a + 1) % na }
            let k = key(a, b);
            let u = r.gen_range(0..nu);
            let who = acc(u);
            let dl = if r.gen_bool(0.95) { now() + r.gen_range(1..10) } else { now() - r.gen_range(0..1) };
            let late = dl <= now();
            let what;
            let before: BTreeMap<Key, (BigUint, BigUint)> = w.pairs.keys().map(|k| (*k, worth(&w, *k))).collect();
            match r.gen_range(0..30) {
                0..=3 => {
                    let fee = *pick(r, &[30u128, 30, 0, 1, 100, 5000, 9999, 10_000, 20_000]);
                    let as_root = r.gen_bool(0.9);
                    let exists = w.pairs.contains_key(&k);
                    what = format!("create_pair {a} {b} fee {fee} root {as_root}");
                    let Some(res) = act(case, "create_pair", if as_root { Origin::root() } else { signed(&who) }, dex_general::Call::create_pair { asset_0: asset(a), asset_1: asset(b), fee_rate: fee }) else { return };
                    if !case.eq(res.is_ok(), as_root && a != b && !exists && fee < 10_000, "a pair is created or refused against the rules", || format!("{what}: {res:?}")) { return }
                    if res.is_ok() {
                        w.pairs.insert(k, Pair { fee, ..Default::default() });
                        case.event("pair");
                    }
                }
                4 => {
                    let fee = *pick(r, &[30u128, 0, 100, 9999, 10_000]);
                    let as_root = r.gen_bool(0.8);
                    what = format!("set_exchange_fee {a} {b} fee {fee} root {as_root}");
                    let Some(res) = act(case, "set_exchange_fee", if as_root { Origin::root() } else { signed(&who) }, dex_general::Call::set_exchange_fee { asset_0: asset(a), asset_1: asset(b), fee_rate: fee }) else { return };
                    if !case.eq(res.is_ok(), as_root && fee < 10_000 && w.pairs.contains_key(&k), "an exchange fee is set or refused against the rules", || format!("{what}: {res:?}")) { return }
                    if res.is_ok() { w.pairs.get_mut(&k).unwrap().fee = fee }
                }
                5 => {
                    let to = if r.gen_bool(0.3) { None } else { Some(FEES + r.gen_range(0..2)) };
                    let as_root = r.gen_bool(0.8);
                    what = format!("set_fee_receiver {to:?} root {as_root}");
                    let Some(res) = act(case, "set_fee_receiver", if as_root { Origin::root() } else { signed(&who) }, dex_general::Call::set_fee_receiver { send_to: to.map(|x| acc(x).into()) }) else { return };
                    if !case.eq(res.is_ok(), as_root, "the fee receiver can be set by anyone, or not by governance", || format!("{what}: {res:?}")) { return }
                    if as_root { w.receiver = to }
                }
                6 => {
                    let p = *pick(r, &[0u8, 1, 5, 255]);
                    let as_root = r.gen_bool(0.8);
                    what = format!("set_fee_point {p} root {as_root}");
                    let Some(res) = act(case, "set_fee_point", if as_root { Origin::root() } else { signed(&who) }, dex_general::Call::set_fee_point { fee_point: p }) else { return };
                    if !case.eq(res.is_ok(), as_root, "the fee point can be set by anyone, or not by governance", || format!("{what}: {res:?}")) { return }
                    if as_root { w.point = p }
                }
                7..=13 => {
                    let (x, y) = (amount(r, w.free(asset(a), &who)), amount(r, w.free(asset(b), &who)));
                    let (mx, my) = if r.gen_bool(0.7) { (0, 0) } else { (r.gen_range(0..=x), r.gen_range(0..=y)) };
                    what = format!("add_liquidity {a} {b} {x} {y} min {mx} {my} by {u} late {late}");
                    let Some(res) = act(case, "add_liquidity", signed(&who), dex_general::Call::add_liquidity { asset_0: asset(a), asset_1: asset(b), amount_0_desired: x, amount_1_desired: y, amount_0_min: mx, amount_1_min: my, deadline: dl }) else { return };
                    let want = (|| {
                        if late || !w.pairs.contains_key(&k) { return None }
                        let (r0, r1) = w.res(a, b);
                        let (p, q) = if r0 == 0 || r1 == 0 { (x, y) } else {
                            let o1 = muldiv(x, r1, r0).unwrap_or(0);
                            if o1 <= y {
                                if o1 < my { return None }
                                (x, o1)
                            } else {
                                let o0 = muldiv(y, r0, r1).unwrap_or(0);
                                if o0 < mx || o0 > x { return None }
                                (o0, y)
                            }
                        };
                        if p > w.free(asset(a), &who) || q > w.free(asset(b), &who) { return None }
                        Some((p, q, r0, r1))
                    })();
                    let mut done = false;
                    if let Some((p, q, r0, r1)) = want {
                        let save = (w.pairs.clone(), w.bal.clone());
                        w.fee(k);
                        let s = w.pairs[&k].supply;
                        let mint = if s == 0 { small(root(big(p) * q)).unwrap() } else { muldiv(p, s, r0).unwrap_or(0).min(muldiv(q, s, r1).unwrap_or(0)) };
                        if mint > 0 {
                            w.pairs.get_mut(&k).unwrap().supply += mint;
                            w.add(lp(k), &who, mint);
                            let c = account(k);
                            w.mv(asset(a), &who, &c, p);
                            w.mv(asset(b), &who, &c, q);
                            w.settle(k);
                            done = true;
                            case.event(if s == 0 { "first liquidity" } else { "liquidity added" });
                        } else {
                            w.pairs = save.0;
                            w.bal = save.1;
                        }
                    }
                    if !case.eq(res.is_ok(), done, "adding liquidity is accepted or refused against the rules", || format!("{what}: {res:?}, reserves {:?}, {:?}", w.res(a, b), w.pairs.get(&k))) { return }
                }
                14..=18 => {
                    let have = w.free(lp(k).min(lp(k)), &who);
                    let x = if a == b { 1 } else { amount(r, have) };
                    let (r0, r1) = w.res(a, b);
                    let to = acc(r.gen_range(0..nu));
                    let exists = w.pairs.contains_key(&k);
                    let save = (w.pairs.clone(), w.bal.clone());
                    if exists { w.fee(k) }
                    let s = w.pairs.get(&k).map(|p| p.supply).unwrap_or(0);
                    let (p, q) = (muldiv(x, r0, s).unwrap_or(0), muldiv(x, r1, s).unwrap_or(0));
                    let (mx, my) = if r.gen_bool(0.7) { (0, 0) } else { (p.saturating_add(r.gen_range(0..2)), q.saturating_add(r.gen_range(0..2))) };
                    what = format!("remove_liquidity {a} {b} {x} of {have} by {u} min {mx} {my} late {late}");
                    let Some(res) = act(case, "remove_liquidity", signed(&who), dex_general::Call::remove_liquidity { asset_0: asset(a), asset_1: asset(b), liquidity: x, amount_0_min: mx, amount_1_min: my, recipient: to.clone().into(), deadline: dl }) else { return };
                    let legal = exists && !late && x <= have && p >= mx && q >= my && p <= r0 && q <= r1;
                    if !case.eq(res.is_ok(), legal, "removing liquidity is accepted or refused against the rules", || format!("{what}: {res:?}, shares {p} {q} of {r0} {r1}, supply {s}")) { return }
                    if legal {
                        let c = account(k);
                        w.sub(lp(k), &who, x);
                        w.pairs.get_mut(&k).unwrap().supply -= x;
                        w.mv(asset(a), &c, &to, p);
                        w.mv(asset(b), &c, &to, q);
                        w.settle(k);
                        case.event(if w.pairs[&k].supply == 0 { "all liquidity removed" } else { "liquidity removed" });
                    } else {
                        w.pairs = save.0;
                        w.bal = save.1;
                    }
                }
                19..=26 => {
                    let n = if r.gen_bool(0.5) { 2 } else { r.gen_range(1..7) };
                    let mut path: Vec<usize> = vec![a];
                    while path.len() < n {
                        let x = r.gen_range(0..na);
                        if x != *path.last().unwrap() || r.gen_bool(0.02) { path.push(x) }
                    }
                    let ids: Vec<_> = path.iter().map(|i| asset(*i)).collect();
                    let to = acc(r.gen_range(0..nu));
                    let hops: Vec<Key> = path.windows(2).map(|p| key(p[0], p[1])).collect();
                    let twice = (0..hops.len()).any(|i| hops[..i].contains(&hops[i]));
                    let ks: BTreeMap<Key, BigUint> = hops.iter().filter(|k| w.pairs.contains_key(k)).map(|k| (*k, w.k(*k))).collect();
                    let exact_in = r.gen();
                    // amounts along the path
                    let mut am: Option<Vec<u128>> = None;
                    let mut am_hi: Vec<u128> = vec![];
                    let x;
                    if exact_in {
                        x = amount(r, w.free(ids[0], &who));
                        if path.len() > 1 {
                            let mut v = vec![x];
                            for p in path.windows(2) {
                                let (i, o) = w.res(p[0], p[1]);
                                match w.pairs.get(&key(p[0], p[1])).and_then(|q| out(*v.last().unwrap(), i, o, q.fee)) { Some(y) => v.push(y), None => break }
                            }
                            if v.len() == path.len() { am = Some(v) }
                        }
                    } else {
                        let l = path.len();
                        x = amount(r, if l > 1 { w.res(path[l - 1], path[l - 2]).0 } else { 10 });
                        if l > 1 {
                            // the code may round a payment up by one more than needed, at every hop
                            let (mut v, mut h) = (vec![x], vec![x]);
                            for p in path.windows(2).rev() {
                                let (i, o) = w.res(p[0], p[1]);
                                let f = w.pairs.get(&key(p[0], p[1])).map(|q| q.fee);
                                match f.and_then(|f| inp(*v.last().unwrap(), i, o, f)) { Some((least, _)) => v.push(least), None => break }
                                match f.and_then(|f| inp(*h.last().unwrap(), i, o, f)) { Some((_, one)) => h.push(one), None => h.push(u128::MAX) }
                            }
                            if v.len() == l {
                                v.reverse();
                                h.reverse();
                                am = Some(v);
                                am_hi = h;
                            }
                        }
                    }
                    let lim = match (&am, r.gen_range(0..4)) {
                        (Some(v), 0) => if exact_in { *v.last().unwrap() } else { am_hi[0] },
                        (Some(v), 1) => if exact_in { v.last().unwrap() + 1 } else { v[0].saturating_sub(1) },
                        _ => if exact_in { 0 } else { u128::MAX >> 1 },
                    };
                    what = format!("swap {path:?} {x} exact_in {exact_in} limit {lim} by {u} late {late}");
                    let (h0, t0) = (w.free(ids[0], &who), w.free(*ids.last().unwrap(), &to));
                    let Some(res) = (if exact_in {
                        act(case, "swap_exact_assets_for_assets", signed(&who), dex_general::Call::swap_exact_assets_for_assets { amount_in: x, amount_out_min: lim, path: ids.clone(), recipient: to.clone().into(), deadline: dl })
                    } else {
                        act(case, "swap_assets_for_exact_assets", signed(&who), dex_general::Call::swap_assets_for_exact_assets { amount_out: x, amount_in_max: lim, path: ids.clone(), recipient: to.clone().into(), deadline: dl })
                    }) else { return };
                    if twice {
                        // judged by what it did: limits, and no pair may lose
                        w.resync();
                        if res.is_ok() && who != to && ids[0] != *ids.last().unwrap() {
                            let paid = h0 - w.free(ids[0], &who);
                            let got = w.free(*ids.last().unwrap(), &to) - t0;
                            case.check(if exact_in { paid == x && got >= lim } else { got == x && paid <= lim }, "a swap is not within the user's limits", || format!("{what}: paid {paid}, got {got}"));
                        }
                        case.event(if res.is_ok() { "swap through a pair twice" } else { "swap through a pair twice refused" });
                    } else {
                        let fits = am.as_ref().map(|v| if exact_in { v[0] <= h0 && *v.last().unwrap() >= lim } else { v[0] <= h0 && v[0] <= lim }).unwrap_or(false) && !late;
                        let fits_hi = fits && (exact_in || (am_hi[0] <= h0 && am_hi[0] <= lim && !am_hi.contains(&u128::MAX)));
                        if !case.check(if res.is_ok() { fits } else { !fits_hi }, "a swap is accepted or refused against the rules", || format!("{what}: {res:?}, amounts {am:?} {am_hi:?} of {h0}")) { return }
                        if res.is_ok() {
                            let v = am.unwrap();
                            if exact_in || v == am_hi {
                                w.mv(ids[0], &who, &account(hops[0]), v[0]);
                                for i in 0..hops.len() {
                                    let dest = if i + 1 < hops.len() { account(hops[i + 1]) } else { to.clone() };
                                    if !w.mv(ids[i + 1], &account(hops[i]), &dest, v[i + 1]) { case.violate("a swap pays more than there is", format!("{what}")); return }
                                }
                            } else {
                                // a payment may be one more than needed at every hop
                                let paid = h0 + if who == to && ids[0] == *ids.last().unwrap() { x } else { 0 } - free(ids[0], &who);
                                case.check(paid >= v[0] && paid <= am_hi[0], "a swap for an exact amount does not cost what the rates say", || format!("{what}: paid {paid}, between {} and {}", v[0], am_hi[0]));
                                let others = w.bal.clone();
                                w.resync();
                                for ((c, a), b) in others {
                                    let touched = hops.iter().any(|k| account(*k) == a) || a == who || a == to;
                                    if !touched { case.eq(w.free(c, &a), b, "a swap changed the balance of others", || what.clone()); }
                                }
                                if who != to { case.eq(w.free(*ids.last().unwrap(), &to), t0 + x, "a swap for an exact amount does not pay it", || what.clone()); }
                            }
                            case.event(if exact_in { "swap of an exact amount" } else { "swap for an exact amount" });
                            if hops.len() > 1 { case.event("swap over several pairs") }
                        } else {
                            case.event("swap refused");
                        }
                    }
                    for (k, v) in &ks {
                        case.check(w.k(*k) >= *v, "a swap reduces the product of a pair's reserves", || format!("{what}: pair {k:?} {v} -> {}, reserves now {:?}", w.k(*k), w.res(k.0, k.1)));
                    }
                }
                27 => {
                    // a gift to a pair
                    let x = amount(r, w.free(asset(a), &who) / 10);
                    what = format!("gift {x} of {a} to {k:?}");
                    if x > w.free(asset(a), &who) { continue }
                    let Some(res) = act(case, "transfer", signed(&who), orml_tokens::Call::transfer { dest: account(k), currency_id: asset(a), amount: x }) else { return };
                    if res.is_ok() { w.mv(asset(a), &who, &account(k), x); }
                }
                _ => {
                    next_block();
                    what = "block".into();
                }
            }
            // nobody's shares lose value, except to the protocol's fee
            if w.receiver.is_none() {
                for (k, (k0, s0)) in &before {
                    let (k1, s1) = worth(&w, *k);
                    if *s0 != big(0) && s1 != big(0) {
                        case.check(&k1 * s0 >= k0 * &s1, "pool shares lose value without a protocol fee", || format!("{k:?} after {what}: K {k0} -> {k1}, supply^2 {s0} -> {s1}"));
                    }
                }
            }
            for (k, p) in &w.pairs {
                let (r0, r1) = w.res(k.0, k.1);
                case.check(p.supply == 0 || (r0 > 0 && r1 > 0), "pool shares exist without reserves", || format!("{k:?} after {what}: shares {}, reserves {r0} {r1}", p.supply));
            }
            case.state_dbg(&w.pairs);
            if !w.compare(case, &what) || case.failed() { return }
        }
        check_issuance(case);
        case.sample(|| format!("{na} assets, {nu} users, pairs {:?}", w.pairs));
    });
}
pub fn run(m: &Mon) {
    m.rule("histories: random pairs, fees, liquidity, swaps over paths (also visiting a pair twice), gifts and blocks; after every step every balance of every user, pair and fee receiver, all pool shares, products of reserves and values per share are compared with an exact model. A state is the set of pairs.");
    m.stream("histories", 4000, 20, history);
    for (e, n) in [("pair", 1000), ("first liquidity", 1000), ("liquidity added", 1000), ("liquidity removed", 1000), ("all liquidity removed", 100), ("swap of an exact amount", 1000), ("swap for an exact amount", 1000), ("swap over several pairs", 300), ("swap refused", 1000)] {
        m.require(e, n);
    }
}
