//! J03: what currencies are called between chains.
use crate::prelude::*;
use mon::{rand::Rng, *};
use rt::world::{acc, ledger, mint, with_world, Cfg};
use std::collections::BTreeMap;

fn key(c: CurrencyId) -> Junction {
    let e = c.encode();
    let mut data = [0; 32];
    data[..e.len()].copy_from_slice(&e);
    GeneralKey { length: e.len() as u8, data }
}
fn junction(r: &mut R, own: u32, cs: &[CurrencyId]) -> Junction {
    match r.gen_range(0..9) {
        0 | 1 => Parachain(*pick(r, &[own, own, 1000, 1001, own ^ 1, 0, u32::MAX])),
        2 | 3 | 4 => {
            let c = *pick(r, cs);
            let k = key(c);
            let GeneralKey { mut length, mut data } = k else { unreachable!() };
            match r.gen_range(0..8) {
                0 => length = *pick(r, &[0, 1, 2, 3, 31, 32, 33, 255]),
                1 => data[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8),
                2 => data[31] = 1,
                _ => (),
            }
            GeneralKey { length, data }
        }
        5 => AccountId32 { network: None, id: r.gen() },
        6 => PalletInstance(r.gen()),
        7 => GeneralIndex(r.gen_range(0..4)),
        _ => OnlyChild,
    }
}
fn location(r: &mut R, own: u32, cs: &[CurrencyId]) -> MultiLocation {
    let parents = *pick(r, &[0u8, 0, 1, 1, 1, 2, 255]);
    let mut j = |r: &mut R| junction(r, own, cs);
    let interior = match r.gen_range(0..8) {
        0 | 1 => Here,
        2 | 3 => X1(j(r)),
        4 | 5 => X2(Parachain(if r.gen_ratio(2, 3) { own } else { r.gen_range(0..3000) }), j(r)),
        6 => X2(j(r), j(r)),
        _ => X3(j(r), j(r), j(r)),
    };
    MultiLocation { parents, interior }
}
fn any_currency(r: &mut R) -> CurrencyId {
    match r.gen_range(0..8) {
        0 | 1 | 2 => Token(*pick(r, &[DOT, IBTC, INTR, KSM, KBTC, KINT])),
        3 | 4 => ForeignAsset(r.gen_range(0..6)),
        5 => LendToken(r.gen_range(0..3)),
        6 => CurrencyId::StableLpToken(r.gen_range(0..3)),
        _ => CurrencyId::LpToken(primitives::LpToken::Token(KINT), primitives::LpToken::Token(KBTC)),
    }
}

macro_rules! of_runtime {
    ($f:ident, $g:ident, $m:ident, $parent:expr, $wrapped:expr, $native:expr, $to_author:expr) => {
        fn $f(case: &mut Case, r: &mut R) {
            use crate::$m as m;
            let own: u32 = *pick(r, &[2032, 2092, 1000, 0, 7]);
            PARA.with(|p| *p.borrow_mut() = own);
            let cs = [$native, $native, $wrapped, $wrapped, $parent, Token(KSM), Token(DOT), Token(INTR), Token(KINT), Token(IBTC), Token(KBTC), ForeignAsset(1), LendToken(1)];
            // what a currency is called elsewhere, and here
            let name = |c: CurrencyId| MultiLocation { parents: 1, interior: X2(Parachain(own), key(c)) };
            let reserved = |l: &MultiLocation| -> Option<CurrencyId> {
                if *l == MultiLocation::parent() {
                    return Some($parent);
                }
                let k = match (l.parents, l.interior) {
                    (1, X2(Parachain(p), k)) if p == own => k,
                    (0, X1(k)) => k,
                    _ => return None,
                };
                let GeneralKey { length, data } = k else { return None };
                if length > 32 {
                    return None;
                }
                let bytes = &data[..length as usize];
                [$native, $wrapped].into_iter().find(|c| bytes.starts_with(&c.encode()))
            };
            // registered assets, with distinct ids and locations; some squat on the chain's own names
            let mut reg: Vec<(u32, Option<MultiLocation>, u128)> = vec![];
            for id in 0..r.gen_range(0..6u32) {
                let l = if r.gen_ratio(1, 6) { None } else { Some(location(r, own, &cs)) };
                if l.is_none() || reg.iter().all(|x| x.1 != l) {
                    let fee = log_uniform_u128(r, 120);
                    reg.push((id, l, fee));
                }
            }
            REGISTRY.with(|x| *x.borrow_mut() = reg.clone());
            let known = |l: &MultiLocation| reg.iter().find(|x| x.1.as_ref() == Some(l));
            let want_c = |l: &MultiLocation| reserved(l).or_else(|| known(l).map(|x| ForeignAsset(x.0)));
            let want_l = |c: CurrencyId| {
                if c == $parent {
                    return Some(MultiLocation::parent());
                }
                if c == $native || c == $wrapped {
                    return Some(name(c));
                }
                match c {
                    ForeignAsset(id) => reg.iter().find(|x| x.0 == id).and_then(|x| x.1),
                    _ => None,
                }
            };
            let to_l = |c: CurrencyId| <m::CurrencyIdConvert as Convert<CurrencyId, Option<MultiLocation>>>::convert(c);
            let to_c = |l: MultiLocation| <m::CurrencyIdConvert as Convert<MultiLocation, Option<CurrencyId>>>::convert(l);
            // every currency
            let mut named: BTreeMap<MultiLocation, CurrencyId> = BTreeMap::new();
            let mut all: Vec<CurrencyId> = vec![$native, $wrapped, $parent];
            all.extend((0..7).map(ForeignAsset));
            all.extend((0..5).map(|_| any_currency(r)));
            all.sort();
            all.dedup();
            for c in all {
                let got = case.total("naming a currency returns", || format!("{c:?}"), || to_l(c)).flatten();
                case.eq(got, want_l(c), "a currency's name", || format!("{c:?} own {own} {reg:?}"));
                if let Some(l) = got {
                    let back = case.total("reading a name returns", || format!("{l:?}"), || to_c(l)).flatten();
                    if reserved(&l).map_or(true, |x| x == c) {
                        case.eq(back, Some(c), "a currency's name leads back to it", || format!("{c:?} {l:?}"));
                        if let Some(d) = named.insert(l, c) {
                            case.violate("two currencies of one name", format!("{c:?} {d:?} {l:?}"));
                        }
                        case.event("there and back");
                    } else {
                        case.eq(back, reserved(&l), "the chain's own names cannot be taken", || format!("{c:?} {l:?}"));
                        case.event("squatter");
                    }
                } else {
                    case.event("nameless");
                }
                case.eval(2);
            }
            for c in [$native, $wrapped] {
                case.eq(m::canonical_currency_location(c), MultiLocation { parents: 0, interior: X1(key(c)) }, "a currency's name at home", || format!("{c:?}"));
                case.eq(to_c(m::canonical_currency_location(c)), Some(c), "a currency's name at home leads to it", || format!("{c:?}"));
                case.eq(m::non_canonical_currency_location(c), name(c), "a currency's name abroad", || format!("{c:?}"));
            }
            case.eq(m::SelfLocation::get(), MultiLocation { parents: 1, interior: X1(Parachain(own)) }, "the chain's own name", || format!("{own}"));
            // every location
            for _ in 0..12 {
                let l = match (r.gen_range(0..5), reg.is_empty()) {
                    (0, false) => {
                        let k = r.gen_range(0..reg.len());
                        reg[k].1.unwrap_or(MultiLocation::here())
                    }
                    _ => location(r, own, &cs),
                };
                let got = case.total("reading a name returns", || format!("{l:?}"), || to_c(l)).flatten();
                case.eq(got, want_c(&l), "the currency of a name", || format!("{l:?} own {own} {reg:?}"));
                case.event(match got {
                    None => "of no currency",
                    Some(ForeignAsset(_)) => "of a foreign asset",
                    Some(_) => "of a currency of this chain or its parent",
                });
                let fun = if r.gen() { Fungible(r.gen()) } else { NonFungible(r.gen()) };
                let conv = |a: MultiAsset| <m::CurrencyIdConvert as Convert<MultiAsset, Option<CurrencyId>>>::convert(a);
                case.eq(conv(MultiAsset { id: Concrete(l), fun }), want_c(&l), "the currency of an asset", || format!("{l:?}"));
                case.eq(conv(MultiAsset { id: Abstract(r.gen()), fun }), None, "an abstract asset is no currency", || String::new());
                case.eq(
                    <m::MyFixedConversionRateProvider as FixedConversionRateProvider>::get_fee_per_second(&l),
                    known(&l).map(|x| x.2),
                    "the fee in a registered asset",
                    || format!("{l:?} {reg:?}"),
                );
                let fee = (l.parents == 1 && l.interior.first() == Some(&Parachain(1000))).then_some(500_000_000u128);
                case.eq(m::ParachainMinFee::get(&l), fee, "the least fee of a transfer to another chain", || format!("{l:?}"));
                if fee.is_some() {
                    case.event("transfer to the asset hub");
                }
                let a: AccountId = AccountId::new(r.gen());
                case.eq(
                    <m::AccountIdToMultiLocation as Convert<AccountId, MultiLocation>>::convert(a.clone()),
                    MultiLocation { parents: 0, interior: X1(AccountId32 { network: None, id: a.clone().into() }) },
                    "an account's name",
                    || format!("{a:?}"),
                );
                case.eval(6);
                case.state(format!("{own} {l:?} {got:?}").as_bytes());
            }
        }
        fn $g(case: &mut Case, r: &mut R) {
            use crate::$m as m;
            let cfg = Cfg { accounts: 3, ..Default::default() };
            with_world(&cfg, || {
                let own: u32 = 2032;
                PARA.with(|p| *p.borrow_mut() = own);
                let cs = [$native, $wrapped, $parent, ForeignAsset(1), LendToken(1)];
                for _ in 0..12 {
                    let abroad = location(r, 3000, &cs);
                    REGISTRY.with(|x| *x.borrow_mut() = vec![(1, Some(abroad), 5)]);
                    let author = if r.gen() { Some(acc(r.gen_range(0..3))) } else { None };
                    AUTHOR.with(|a| *a.borrow_mut() = author.clone());
                    let l = match r.gen_range(0..6) {
                        0 => MultiLocation::parent(),
                        1 => m::non_canonical_currency_location($native),
                        2 => m::canonical_currency_location($wrapped),
                        3 => abroad,
                        _ => location(r, own, &cs),
                    };
                    let c = <m::CurrencyIdConvert as Convert<MultiLocation, Option<CurrencyId>>>::convert(l);
                    let amount = match r.gen_range(0..8) {
                        0 => 0,
                        1 => u128::MAX,
                        _ => log_uniform_u128(r, 100),
                    };
                    let (id, fun) = match r.gen_range(0..8) {
                        0 => (Abstract(r.gen()), Fungible(amount)),
                        1 => (Concrete(l), NonFungible(r.gen())),
                        _ => (Concrete(l), Fungible(amount)),
                    };
                    let mut want = ledger();
                    let to = match (&author, $to_author) {
                        (Some(a), true) => a.clone(),
                        _ => m::TreasuryAccount::get(),
                    };
                    let mut paid = false;
                    if let (Concrete(_), Fungible(x), Some(c)) = (id, fun, c) {
                        if rt::world::issuance(c).checked_add(x).is_some() && x > 0 {
                            want.entry((c, to.clone())).or_default().0 += x;
                            paid = true;
                        }
                    }
                    let ctx = || format!("{id:?} {fun:?} {c:?} {author:?}");
                    case.total("taking the fee of a message returns", ctx, || <m::Fees as TakeRevenue>::take_revenue(MultiAsset { id, fun }));
                    let mut got = ledger();
                    let empty = |l: &mut BTreeMap<(CurrencyId, AccountId), (Balance, Balance)>| l.retain(|_, v| *v != (0, 0));
                    empty(&mut got);
                    empty(&mut want);
                    case.eq(got, want, "the fee of a message", ctx);
                    case.event(match (paid, to == m::TreasuryAccount::get()) {
                        (true, true) => "fee to the treasury",
                        (true, false) => "fee to the author",
                        _ => "no fee",
                    });
                    case.eval(1);
                    case.state(ctx().as_bytes());
                }
            })
        }
    };
}
of_runtime!(kint, kint_fee, kintsugi, Token(KSM), Token(KBTC), Token(KINT), false);
of_runtime!(intr, intr_fee, interlay, Token(DOT), Token(IBTC), Token(INTR), true);

pub fn run(m: &Mon) {
    m.rule("both runtimes: chains of five numbers with up to five registered assets, some without a location and some on the chain's own names; currencies of every kind; locations near and far from the chain's own, with keys cut, prolonged and flipped; fees of messages in any asset, with and without a block author. A state is a distinct location with its currency, or a distinct fee.");
    m.stream("names on Kintsugi", 60_000, 400, kint);
    m.stream("names on Interlay", 60_000, 400, intr);
    m.stream("fees on Kintsugi", 1500, 20, kint_fee);
    m.stream("fees on Interlay", 1500, 20, intr_fee);
    for (e, n) in [
        ("there and back", 50_000),
        ("squatter", 500),
        ("nameless", 20_000),
        ("of no currency", 50_000),
        ("of a foreign asset", 5000),
        ("of a currency of this chain or its parent", 20_000),
        ("transfer to the asset hub", 500),
        ("fee to the treasury", 1000),
        ("fee to the author", 500),
        ("no fee", 1000),
    ] {
        m.require(e, n);
    }
}
