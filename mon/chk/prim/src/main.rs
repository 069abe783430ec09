//! P01: currency identifiers and shared request types.
use bitcoin::{Address, PublicKey};
use codec::{Decode, Encode, MaxEncodedLen};
use mon::rand::Rng;
use mon::serde_json;
use mon::*;
use num_bigint::BigInt;
use primitives::*;
use std::convert::TryFrom;

const SYMS: [(TokenSymbol, u8, &str, &str, u8); 6] = [
    (DOT, 0, "DOT", "Polkadot", 10),
    (IBTC, 1, "IBTC", "interBTC", 8),
    (INTR, 2, "INTR", "Interlay", 10),
    (KSM, 10, "KSM", "Kusama", 12),
    (KBTC, 11, "KBTC", "kBTC", 8),
    (KINT, 12, "KINT", "Kintsugi", 12),
];

fn lp(r: &mut R) -> LpToken {
    match r.gen_range(0..3) {
        0 => LpToken::Token(pick(r, &SYMS).0),
        1 => LpToken::ForeignAsset(if r.gen() { r.gen_range(0..4) } else { weird_u32(r) }),
        _ => LpToken::StableLpToken(if r.gen() { r.gen_range(0..4) } else { weird_u32(r) }),
    }
}
fn currency(r: &mut R) -> CurrencyId {
    match r.gen_range(0..6) {
        0 => CurrencyId::Token(pick(r, &SYMS).0),
        1 => CurrencyId::ForeignAsset(if r.gen() { r.gen_range(0..4) } else { weird_u32(r) }),
        2 => CurrencyId::LendToken(if r.gen() { r.gen_range(0..4) } else { weird_u32(r) }),
        3 => CurrencyId::StableLpToken(if r.gen() { r.gen_range(0..4) } else { weird_u32(r) }),
        _ => CurrencyId::LpToken(lp(r), lp(r)),
    }
}
/// Independent SCALE encoding.
fn enc_lp(l: &LpToken) -> Vec<u8> {
    let (t, n) = match l {
        LpToken::Token(s) => return vec![0, SYMS.iter().find(|x| x.0 == *s).unwrap().1],
        LpToken::ForeignAsset(n) => (1, n),
        LpToken::StableLpToken(n) => (2, n),
    };
    let mut v = vec![t];
    v.extend(n.to_le_bytes());
    v
}
fn enc(c: &CurrencyId) -> Vec<u8> {
    let mut v;
    match c {
        CurrencyId::Token(s) => v = vec![0, SYMS.iter().find(|x| x.0 == *s).unwrap().1],
        CurrencyId::ForeignAsset(n) => {
            v = vec![1];
            v.extend(n.to_le_bytes())
        }
        CurrencyId::LendToken(n) => {
            v = vec![2];
            v.extend(n.to_le_bytes())
        }
        CurrencyId::LpToken(a, b) => {
            v = vec![3];
            v.extend(enc_lp(a));
            v.extend(enc_lp(b))
        }
        CurrencyId::StableLpToken(n) => {
            v = vec![4];
            v.extend(n.to_le_bytes())
        }
    }
    v
}
fn poolable(c: &CurrencyId) -> bool {
    matches!(c, CurrencyId::Token(_) | CurrencyId::ForeignAsset(_) | CurrencyId::StableLpToken(_))
}

fn round_trip<T: Encode + Decode + PartialEq + Clone + MaxEncodedLen + serde::Serialize + serde::de::DeserializeOwned>(c: &mut Case, what: &str, v: &T) {
    let e = v.encode();
    let ctx = || hex(&e);
    c.check(e.len() <= T::max_encoded_len(), &format!("{what}: encoding longer than its declared maximum"), ctx);
    c.check(T::decode(&mut &e[..]).ok().as_ref() == Some(v), &format!("{what}: SCALE round trip changes the value"), ctx);
    let j = serde_json::to_string(v);
    c.check(j.is_ok(), &format!("{what}: not serializable to JSON"), ctx);
    if let Ok(j) = j {
        c.check(serde_json::from_str::<T>(&j).ok().as_ref() == Some(v), &format!("{what}: JSON round trip changes the value"), || j.clone());
    }
}

fn type_codec(c: &mut Case, v: CurrencyId) {
    use scale_decode::DecodeAsType;
    use scale_encode::EncodeAsType;
    let mut reg = scale_info::Registry::new();
    let id = reg.register_type(&scale_info::MetaType::new::<CurrencyId>()).id;
    let reg: scale_info::PortableRegistry = reg.into();
    let a = v.encode_as_type(id, &reg);
    c.check(a.as_ref().ok() == Some(&v.encode()), "type-guided encoding differs from the plain one", || format!("{v:?} {a:?}"));
    let d = CurrencyId::decode_as_type(&mut &v.encode()[..], id, &reg);
    c.check(d.as_ref().ok() == Some(&v), "type-guided decoding differs", || format!("{v:?} {d:?}"));
}

fn main() {
    let m = Mon::from_env();
    m.rule("stream currency: pairs of currency ids of every kind with small, boundary and random numbers, compared with an independent encoder and the pool-token rules; distinct pairs counted.");
    m.stream("currency", 1_000_000, 20, |c, r| {
        let a = currency(r);
        let b = if r.gen_ratio(1, 6) { a } else { currency(r) };
        c.state(&[a.encode(), b.encode()].concat());
        c.sample(|| format!("{a:?} {b:?}"));
        let ctx = || format!("{a:?} {b:?}");
        c.event(match a {
            CurrencyId::Token(_) => "token",
            CurrencyId::ForeignAsset(_) => "foreign asset",
            CurrencyId::LendToken(_) => "lend token",
            CurrencyId::LpToken(..) => "lp token",
            CurrencyId::StableLpToken(_) => "stable lp token",
        });
        c.eq(hex(&a.encode()), hex(&enc(&a)), "encoding of a currency id changed", ctx);
        round_trip(c, "currency", &a);
        if c.index % 16 == 0 {
            type_codec(c, a);
        }
        c.check((a == b) == (a.encode() == b.encode()), "equality disagrees with encoding", ctx);
        c.check((a.cmp(&b) == b.cmp(&a).reverse()) && ((a.cmp(&b) == std::cmp::Ordering::Equal) == (a == b)), "order is not antisymmetric", ctx);
        c.eq(a.is_lend_token(), matches!(a, CurrencyId::LendToken(_)), "is_lend_token", ctx);
        c.eq(a.is_lp_token(), poolable(&a), "is_lp_token", ctx);
        // pool tokens
        let j = CurrencyId::join_lp_token(a, b);
        c.eq(j.is_some(), poolable(&a) && poolable(&b), "a pool token exists exactly for two poolable currencies", ctx);
        if let Some(CurrencyId::LpToken(x, y)) = j {
            c.event("pool token");
            c.check(CurrencyId::from_lp(x) == a && CurrencyId::from_lp(y) == b, "pool token does not name its two currencies", || format!("{} {j:?}", ctx()));
            let (mut s, mut t) = (j.unwrap(), CurrencyId::join_lp_token(b, a).unwrap());
            s.sort();
            t.sort();
            c.eq(s, t, "pool token depends on the order of its currencies", ctx);
            let mut u = s;
            u.sort();
            c.eq(u, s, "sorting is not idempotent", ctx);
            c.check(matches!(s, CurrencyId::LpToken(p, q) if p <= q && ((p, q) == (x, y) || (p, q) == (y, x))), "sorting changes the pool", || format!("{} {s:?}", ctx()));
        } else if j.is_some() {
            c.violate("join gives something else than a pool token", format!("{} {j:?}", ctx()));
        }
        let mut s = a;
        s.sort();
        if !matches!(a, CurrencyId::LpToken(..)) {
            c.eq(s, a, "sorting changes a currency that is no pool token", ctx);
        } else if let (CurrencyId::LpToken(p, q), CurrencyId::LpToken(x, y)) = (s, a) {
            c.check(p <= q && ((p, q) == (x, y) || (p, q) == (y, x)), "sorting changes the pool", || format!("{} {s:?}", ctx()));
        } else {
            c.violate("sorting changes the kind of currency", ctx());
        }
        for v in [Vec::new(), bytes(r, 3), { let n = r.gen_range(1..12); let mut v = bytes(r, n); v[0] %= 6; v }] {
            if let Some(d) = c.total("decode", || hex(&v), || CurrencyId::decode(&mut &v[..])) {
                if let Ok(d) = d {
                    let e = enc(&d);
                    c.check(v.starts_with(&e), "decoding accepts bytes that encode another currency", || format!("{} {d:?}", hex(&v)));
                }
            }
        }
        let acc: u64 = r.gen();
        let v = VaultId::new(acc, a, b);
        c.check(v.collateral_currency() == a && v.wrapped_currency() == b && v.account_id == acc, "vault id mixes up its currencies", ctx);
        c.check(VaultId::from_pair(acc, v.currencies.clone()) == v && VaultId::from((acc, v.currencies.clone())) == v, "vault id constructors disagree", ctx);
        let mut e = acc.encode();
        e.extend(enc(&a));
        e.extend(enc(&b));
        c.eq(hex(&v.encode()), hex(&e), "encoding of a vault id changed", ctx);
        round_trip(c, "vault id", &v);
        round_trip(c, "oracle key", &if r.gen() { oracle::Key::ExchangeRate(a) } else { oracle::Key::FeeEstimation });
    });
    m.rule("stream symbol: every byte value and every known symbol, exhaustively.");
    m.stream("symbol", 256, 1, |c, r| {
        let b = c.index as u8;
        let known = SYMS.iter().find(|s| s.1 == b);
        c.state(&[b]);
        c.eq(TokenSymbol::try_from(b).ok(), known.map(|k| k.0), "number of a token changed", || b.to_string());
        c.eq(TokenSymbol::decode(&mut &[b][..]).ok(), known.map(|k| k.0), "decoding of a token changed", || b.to_string());
        if let Some((s, n, sym, name, dec)) = known {
            let back: u8 = (*s).into();
            c.eq(back, *n, "token number is not its inverse", || sym.to_string());
            c.check(s.symbol() == *sym && s.name() == *name && CurrencyInfo::decimals(s) == *dec, "token name, symbol or decimals changed", || sym.to_string());
            c.eq(s.one(), (0..*dec).fold(1u128, |a, _| a * 10), "one token is not ten to its decimals", || sym.to_string());
            c.eq(TokenSymbol::try_from(sym.as_bytes().to_vec()).ok(), Some(*s), "symbol lookup", || sym.to_string());
            c.check(TokenSymbol::get_info().contains(&(sym, *dec as u32)) && TokenSymbol::get_info().len() == SYMS.len(), "token list", || format!("{:?}", TokenSymbol::get_info()));
            for i in 0..sym.len() {
                let mut v = sym.as_bytes().to_vec();
                v[i] = v[i].wrapping_add(1 + r.gen_range(0..255));
                let want = SYMS.iter().find(|k| k.2.as_bytes() == &v[..]).map(|k| k.0);
                c.eq(TokenSymbol::try_from(v.clone()).ok(), want, "symbol lookup accepts something else", || hex(&v));
            }
        }
    });
    m.rule("stream number: balances and fixed-point numbers over the whole range, against big-integer arithmetic; requests with random fields through SCALE and JSON.");
    m.stream("number", 500_000, 20, |c, r| {
        let lim = (i128::MAX / 1_000_000_000_000_000_000) as u128;
        let b: Balance = match r.gen_range(0..4) {
            0 => (lim as i128 + r.gen_range(-3..4)) as u128,
            1 => (i128::MAX as u128).wrapping_add(r.gen_range(0..4)).wrapping_sub(1),
            _ => weird_u128(r),
        };
        c.state(&b.to_le_bytes());
        let f = c.total("to_fixed", || b.to_string(), || b.to_fixed());
        let want = (b <= lim).then(|| BigInt::from(b) * BigInt::from(10u64).pow(18));
        if let Some(f) = f {
            c.event(if want.is_some() { "fits" } else { "does not fit" });
            c.eq(f.map(|f: SignedFixedPoint| BigInt::from(f.into_inner())), want.clone(), "conversion to fixed point", || b.to_string());
            if let Some(f) = f {
                c.eq(f.truncate_to_inner(), Some(b as i128), "integers do not survive the fixed-point round trip", || b.to_string());
            }
        }
        let i = weird_u128(r) as i128;
        let s = SignedFixedPoint::from_inner(i);
        c.eq(s.truncate_to_inner().map(BigInt::from), Some(BigInt::from(i) / BigInt::from(10u64).pow(18)), "signed truncation", || i.to_string());
        let u = weird_u128(r);
        c.eq(UnsignedFixedPoint::from_inner(u).truncate_to_inner().map(BigInt::from), Some(BigInt::from(u) / BigInt::from(10u64).pow(18)), "unsigned truncation", || u.to_string());
        // JSON representation of balances
        let w = BalanceWrapper { amount: b };
        let j = serde_json::to_string(&w).unwrap();
        c.eq(j.clone(), format!("{{\"amount\":\"{b}\"}}"), "JSON form of a balance is not a decimal string", String::new);
        c.check(serde_json::from_str::<BalanceWrapper<u128>>(&j).ok() == Some(w), "balance changes in JSON", || j.clone());
        let bad = format!("{{\"amount\":\"{}\"}}", pick(r, &["", "-1", "1e3", "0x10", "340282366920938463463374607431768211456", "1.0", " 1", "abc"]));
        c.check(serde_json::from_str::<BalanceWrapper<u128>>(&bad).is_err(), "a string that is no balance is accepted", || bad.clone());
        // requests
        let mut bal = || -> u128 { weird_u128(r) };
        let (b1, b2, b3, b4) = (bal(), bal(), bal(), bal());
        let pk = { let mut k = [0u8; 33]; r.fill(&mut k[..]); PublicKey(k) };
        let addr = match r.gen_range(0..4) {
            0 => Address::P2PKH(H160(r)),
            1 => Address::P2SH(H160(r)),
            2 => Address::P2WPKHv0(H160(r)),
            _ => Address::P2WSHv0(bitcoin::types::H256(r.gen())),
        };
        let (ca, cb, cc) = (currency(r), currency(r), currency(r));
        let v1 = VaultId::new(r.gen::<u64>(), ca, cb);
        let v2 = VaultId::new(r.gen::<u64>(), cb, cc);
        let req = issue::IssueRequest {
            vault: v1.clone(),
            opentime: weird_u32(r),
            period: weird_u32(r),
            griefing_collateral: b1,
            griefing_currency: cc,
            amount: b2,
            fee: b3,
            requester: r.gen::<u64>(),
            btc_address: addr,
            btc_public_key: pk,
            btc_height: weird_u32(r),
            status: pick(r, &[issue::IssueRequestStatus::Pending, issue::IssueRequestStatus::Completed, issue::IssueRequestStatus::Cancelled]).clone(),
        };
        round_trip(c, "issue request", &req);
        let j = serde_json::to_value(&req).unwrap();
        c.check(j["amount"] == b2.to_string() && j["fee"] == b3.to_string() && j["griefing_collateral"] == b1.to_string(), "issue request JSON reports other amounts", || j.to_string());
        let req = redeem::RedeemRequest {
            vault: v2.clone(),
            opentime: weird_u32(r),
            period: weird_u32(r),
            fee: b1,
            transfer_fee_btc: b2,
            amount_btc: b3,
            premium: b4,
            redeemer: r.gen::<u64>(),
            btc_address: addr,
            btc_height: weird_u32(r),
            status: pick(r, &[redeem::RedeemRequestStatus::Pending, redeem::RedeemRequestStatus::Completed, redeem::RedeemRequestStatus::Reimbursed(true), redeem::RedeemRequestStatus::Reimbursed(false), redeem::RedeemRequestStatus::Retried]).clone(),
        };
        round_trip(c, "redeem request", &req);
        let j = serde_json::to_value(&req).unwrap();
        c.check(j["fee"] == b1.to_string() && j["transfer_fee_btc"] == b2.to_string() && j["amount_btc"] == b3.to_string() && j["premium"] == b4.to_string(), "redeem request JSON reports other amounts", || j.to_string());
        let req = replace::ReplaceRequest {
            old_vault: v1,
            new_vault: v2,
            amount: b1,
            griefing_collateral: b2,
            collateral: b3,
            accept_time: weird_u32(r),
            period: weird_u32(r),
            btc_address: addr,
            btc_height: weird_u32(r),
            status: pick(r, &[replace::ReplaceRequestStatus::Pending, replace::ReplaceRequestStatus::Completed, replace::ReplaceRequestStatus::Cancelled]).clone(),
        };
        round_trip(c, "replace request", &req);
        let j = serde_json::to_value(&req).unwrap();
        c.check(j["amount"] == b1.to_string() && j["griefing_collateral"] == b2.to_string() && j["collateral"] == b3.to_string(), "replace request JSON reports other amounts", || j.to_string());
    });
    for e in ["token", "foreign asset", "lend token", "lp token", "stable lp token", "pool token", "fits", "does not fit"] {
        m.require(e, 500);
    }
    m.finish()
}

#[allow(non_snake_case)]
fn H160(r: &mut R) -> bitcoin::types::H160 {
    let mut b = [0u8; 20];
    r.fill(&mut b[..]);
    bitcoin::types::H160(b)
}
trait FromLp {
    fn from_lp(l: LpToken) -> CurrencyId;
}
impl FromLp for CurrencyId {
    fn from_lp(l: LpToken) -> CurrencyId {
        l.into()
    }
}
