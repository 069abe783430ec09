//! J04: which calls the runtimes let through, and where their rewards and fees go.
use crate::prelude::*;
use annuity::BlockRewardProvider;
use frame_support::traits::WithdrawReasons;
use mon::{rand::Rng, *};
use rt::world::{acc, free, issuance, ledger, mint, with_world, Cfg};
use std::collections::{BTreeMap, BTreeSet};
use supply::OnInflation;

type Ledger = BTreeMap<(CurrencyId, AccountId), (Balance, Balance)>;
fn now() -> Ledger {
    let mut l = ledger();
    l.retain(|_, v| *v != (0, 0));
    l
}
fn give(l: &mut Ledger, c: CurrencyId, a: &AccountId, x: i128) {
    let e = l.entry((c, a.clone())).or_default();
    e.0 = (e.0 as i128 + x) as u128;
    if *e == (0, 0) {
        l.remove(&(c, a.clone()));
    }
}
fn commit(f: impl FnOnce() -> DispatchResult) -> DispatchResult {
    use sp_runtime::TransactionOutcome::*;
    frame_support::storage::with_transaction(|| match f() {
        Ok(()) => Commit(Ok(())),
        Err(e) => Rollback(Err(e)),
    })
}
fn amount(r: &mut R) -> u128 {
    match r.gen_range(0..6) {
        0 => 0,
        1 => r.gen_range(1..30),
        _ => log_uniform_u128(r, 90),
    }
}

macro_rules! of_runtime {
    ($f:ident, $g:ident, $m:ident, $wrapped:expr, $native:expr) => {
        fn $f(case: &mut Case, r: &mut R) {
            use crate::$m as m;
            let paused = r.gen();
            PAUSED.with(|p| *p.borrow_mut() = paused);
            for (n, c) in m::all_calls() {
                let want = match n {
                    "System" | "Session" | "Timestamp" | "ParachainSystem" | "Sudo" | "Democracy" | "Escrow" | "TechnicalCommittee" => true,
                    "PolkadotXcm send" => true,
                    "EVM" => false,
                    n if n.starts_with("PolkadotXcm") => false,
                    _ => !paused,
                };
                case.eq(<m::BaseCallFilter as Contains<m::RuntimeCall>>::contains(&c), want, "what accounts may call", || format!("{n}, paused {paused}"));
                let safe = !["Sudo", "Proxy", "Multisig", "Utility", "Issue", "Replace", "Redeem", "BTCRelay"].contains(&n);
                case.eq(<m::SafeCallFilter as Contains<m::RuntimeCall>>::contains(&c), safe, "what a message may call", || n.to_string());
                case.check(m::ProxyType::default().filter(&c), "a proxy for anything may call anything", || n.to_string());
                case.event(if want { "call let through" } else { "call refused" });
                case.event(if safe { "safe call" } else { "unsafe call" });
                case.eval(3);
                case.state(format!("{n} {paused} {}", stringify!($m)).as_bytes());
            }
            case.check(m::ProxyType::default().is_superset(&m::ProxyType::default()), "a proxy for anything covers itself", String::new);
            // distinct homes
            let ids = m::pallet_ids();
            let set: BTreeSet<[u8; 8]> = ids.iter().map(|x| x.1 .0).collect();
            case.eq(set.len(), ids.len(), "pallets have distinct accounts", || format!("{:?}", ids.iter().map(|x| x.0).collect::<Vec<_>>()));
            let ix = m::indices();
            let set: BTreeSet<u32> = ix.iter().map(|x| x.1).collect();
            case.eq(set.len(), ix.len(), "pallets have distinct numbers", || format!("{ix:?}"));
            let homes = m::get_all_module_accounts();
            let set: BTreeSet<AccountId> = homes.iter().cloned().collect();
            case.eq(set.len(), homes.len(), "the module accounts are distinct", || format!("{homes:?}"));
            for h in &homes {
                case.check(<m::DustRemovalWhitelist as Contains<AccountId>>::contains(h), "module accounts keep their dust", || format!("{h:?}"));
                let mut o: [u8; 32] = h.clone().into();
                o[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8);
                let o = AccountId::new(o);
                case.check(!<m::DustRemovalWhitelist as Contains<AccountId>>::contains(&o), "other accounts are no module's", || format!("{o:?}"));
                case.event("account near a module's");
            }
            // (the exchanges' pools have accounts of their own)
            for (n, id) in ids.iter().filter(|x| !x.0.starts_with("Dex")) {
                let need: AccountId = id.into_account_truncating();
                case.check(homes.contains(&need), "an account that holds funds is a module account", || format!("{n} {need:?}"));
            }
            // who may vest and who may register assets
            for a in m::KintsugiLabsAccounts::get() {
                let got = m::Labs::try_origin(RuntimeOrigin::from(RawOrigin::Signed(a.clone()))).ok();
                case.eq(got, Some(a.clone()), "a founder's account", || format!("{a:?}"));
                let mut o: [u8; 32] = a.into();
                o[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8);
                case.check(m::Labs::try_origin(RuntimeOrigin::from(RawOrigin::Signed(AccountId::new(o)))).is_err(), "not a founder's account", || format!("{o:?}"));
                case.event("account near a founder's");
            }
            for (o, root) in [(RawOrigin::Root, true), (RawOrigin::None, false), (RawOrigin::Signed(acc(1)), false)] {
                let id = if r.gen() { Some(r.gen()) } else { None };
                let got = <m::AssetAuthority as EnsureOriginWithArg<RuntimeOrigin, Option<u32>>>::try_origin(RuntimeOrigin::from(o.clone()), &id);
                case.eq(got.is_ok(), root, "only governance registers assets", || format!("{o:?}"));
                case.check(m::Labs::try_origin(RuntimeOrigin::from(o.clone())).is_err(), "only the founders vest", || format!("{o:?}"));
            }
            for c in [$native, $wrapped, ForeignAsset(r.gen()), LendToken(r.gen())] {
                case.eq(m::ExistentialDeposits::get(&c), 0, "the least balance", || format!("{c:?}"));
            }
            let b: BlockNumber = r.gen();
            case.eq(<m::BlockNumberToBalance as Convert<BlockNumber, Balance>>::convert(b), b as Balance, "a block number as an amount", || format!("{b}"));
            case.eq((m::InflationPeriod::get(), m::EmissionPeriod::get()), (2_628_000, 2_628_000), "rewards are set and paid out by the year", String::new);
            case.eval(20);
        }
        fn $g(case: &mut Case, r: &mut R) {
            use crate::$m as m;
            let cfg = Cfg { accounts: 3, ..Default::default() };
            with_world(&cfg, || {
                let (c, t) = ($native, m::TreasuryAccount::get());
                let (va, ea, fa, sa) = (m::VaultAnnuityAccount::get(), m::EscrowAnnuityAccount::get(), m::FeeAccount::get(), m::SupplyAccount::get());
                for _ in 0..10 {
                    match r.gen_range(0..4) {
                        // the year's inflation
                        0 => {
                            let x = amount(r);
                            mint(&sa, c, x);
                            let extra = if r.gen() { amount(r) } else { 0 };
                            mint(&sa, c, extra);
                            // the annuities of the monitor's runtime are in its own native token
                            for a in [&va, &ea] {
                                let more = amount(r);
                                mint(a, Token(INTR), more);
                            }
                            let mut want = now();
                            // parts in a million, rounded to the nearest as multiplication by a proportion is
                            let part = |p: u128| {
                                let (q, rem) = (x / 1_000_000, x % 1_000_000);
                                let n = rem * p;
                                q * p + n / 1_000_000 + u128::from(n % 1_000_000 > 500_000)
                            };
                            let (v, e) = (part(400_000), part(67_000));
                            give(&mut want, c, &sa, -(x as i128));
                            for (a, y) in [(&va, v), (&ea, e), (&t, x - v - e)] {
                                give(&mut want, c, a, y as i128);
                            }
                            let ctx = || format!("{x} with {extra} more");
                            case.total("handing out the year's rewards returns", ctx, || <m::DealWithRewards as OnInflation<AccountId>>::on_inflation(&sa, x));
                            case.eq(now(), want, "vaults get 40%, voters 6.7% and the treasury the rest of a year's rewards", ctx);
                            let year = 2_628_000;
                            case.eq(
                                (VaultAnnuity::reward_per_block(), EscrowAnnuity::reward_per_block()),
                                (free(Token(INTR), &va) / year, free(Token(INTR), &ea) / year),
                                "a block's rewards are the year's over its blocks",
                                ctx,
                            );
                            case.event(if x == 0 { "a year without rewards" } else { "a year's rewards" });
                        }
                        // a block's rewards
                        1 => {
                            // as little as the reward pool can share out
                            let x = amount(r) >> 34;
                            mint(&va, c, x);
                            let mut want = now();
                            let y = match r.gen_range(0..4) {
                                0 => free(c, &va).saturating_add(1),
                                _ => r.gen_range(0..=x),
                            };
                            let ctx = || format!("{y} of {x}");
                            use reward::RewardsApi;
                            let stake = r.gen_range(0..3) * 1000;
                            <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::deposit_stake(&(), &Token(DOT), stake).ok();
                            let staked = <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::get_total_stake(&()).unwrap_or(0);
                            let before = <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::compute_reward(&(), &Token(DOT), c).unwrap_or(0);
                            let got = commit(|| <m::VaultBlockRewardProvider as BlockRewardProvider<AccountId>>::distribute_block_reward(&va, y));
                            let after = <VaultCapacity as RewardsApi<(), CurrencyId, Balance>>::compute_reward(&(), &Token(DOT), c).unwrap_or(0);
                            let _ = staked;
                            match got {
                                Ok(()) => {
                                    give(&mut want, c, &va, -(y as i128));
                                    give(&mut want, c, &fa, y as i128);
                                    case.check(after >= before && after - before <= y, "vaults share a block's rewards", || format!("{} {before} {after}", ctx()));
                                    case.check(y == 0 || y < 1_000_000 || staked == 0 || after - before >= y - y / 1000 - 1, "vaults get a block's rewards", || {
                                        format!("{} {before} {after} staked {staked}", ctx())
                                    });
                                    case.event("a block's rewards for vaults");
                                }
                                Err(e) => {
                                    case.check(y > free(c, &va) || staked == 0, "a block's rewards can be paid", || format!("{} {e:?}", ctx()));
                                    case.eq(after, before, "no rewards that were not paid", ctx);
                                    case.event("a block's rewards lacking");
                                }
                            }
                            case.eq(now(), want.clone(), "a block's rewards for vaults move to the fees", ctx);
                            let who = acc(r.gen_range(0..3));
                            case.check(<m::VaultBlockRewardProvider as BlockRewardProvider<AccountId>>::withdraw_reward(&who).is_err(), "vaults collect elsewhere", ctx);
                            case.eq(now(), want, "a refused collection moves nothing", ctx);
                        }
                        // voters' rewards
                        2 => {
                            use reward::RewardsApi;
                            let (who, other) = (acc(r.gen_range(0..2)), acc(2));
                            let (s, o) = (r.gen_range(1_000..1_000_000u128), r.gen_range(0..1_000_000u128));
                            type E = EscrowRewards;
                            for (a, x) in [(&who, s), (&other, o)] {
                                <E as RewardsApi<(), AccountId, Balance>>::deposit_stake(&(), a, x).expect("stake");
                            }
                            let mut want = now();
                            let y = r.gen_range(0..1u128 << 50);
                            let mine = <E as RewardsApi<(), AccountId, Balance>>::get_stake(&(), &who).expect("stake");
                            let all = <E as RewardsApi<(), AccountId, Balance>>::get_total_stake(&()).expect("stake");
                            let had = <E as RewardsApi<(), AccountId, Balance>>::compute_reward(&(), &who, c).expect("reward");
                            let got = <m::EscrowBlockRewardProvider as BlockRewardProvider<AccountId>>::distribute_block_reward(&ea, y);
                            case.check(got.is_ok(), "voters are given a block's rewards", || format!("{y} {got:?}"));
                            let has = <m::EscrowBlockRewardProvider as BlockRewardProvider<AccountId>>::withdraw_reward(&who).expect("withdraw");
                            let fair = (sp_core::U256::from(y) * sp_core::U256::from(mine) / sp_core::U256::from(all)).as_u128();
                            case.check(has >= had && (has - had).abs_diff(fair) <= 2 + fair / 1_000_000, "a voter's share of a block's rewards", || {
                                format!("{y} times {mine}/{all} is {fair}, got {}", has - had)
                            });
                            let left = <E as RewardsApi<(), AccountId, Balance>>::compute_reward(&(), &who, c).expect("reward");
                            case.eq(left, 0, "a voter's rewards are collected once", || format!("{has}"));
                            want.retain(|_, v| *v != (0, 0));
                            case.eq(now(), want, "sharing out a block's rewards moves nothing by itself", || format!("{y}"));
                            case.event("a block's rewards for voters");
                        }
                        // fees and tips of a transaction
                        _ => {
                            let author = if r.gen_ratio(3, 4) { Some(acc(r.gen_range(0..3))) } else { None };
                            AUTHOR.with(|a| *a.borrow_mut() = author.clone());
                            let payer = acc(r.gen_range(0..3));
                            let n = r.gen_range(0..3);
                            let mut parts = vec![];
                            let mut want = now();
                            let mut sum = 0;
                            for _ in 0..n {
                                let x = amount(r) >> 10;
                                mint(&payer, c, x);
                                let i = <orml_tokens::CurrencyAdapter<Runtime, m::GetNativeCurrencyId> as PalletCurrency<AccountId>>::withdraw(&payer, x, WithdrawReasons::FEE, ExistenceRequirement::AllowDeath).expect("fee");
                                parts.push(i);
                                sum += x;
                            }
                            if let Some(a) = &author {
                                give(&mut want, c, a, sum as i128);
                            }
                            let ctx = || format!("{n} parts of {sum} in all to {author:?}");
                            <m::DealWithFees<Runtime, m::GetNativeCurrencyId> as OnUnbalanced<_>>::on_unbalanceds(parts.into_iter());
                            want.retain(|_, v| *v != (0, 0));
                            case.eq(now(), want, "fee and tip go to the author", ctx);
                            case.eq(issuance(c), now().iter().filter(|(k, _)| k.0 == c).map(|(_, v)| v.0 + v.1).sum(), "no fee is left out of the total", ctx);
                            case.event(if author.is_some() { "fees to the author" } else { "fees with no author" });
                        }
                    }
                    let y = amount(r);
                    mint(&acc(1), $wrapped, y);
                    case.eq(m::TotalWrapped::get(), issuance($wrapped), "the total of wrapped tokens", || format!("{y}"));
                    case.eval(4);
                    case.state(format!("{} {:?}", stringify!($m), now()).as_bytes());
                }
            })
        }
    };
}
of_runtime!(kint, kint_pay, kintsugi, Token(KBTC), Token(KINT));
of_runtime!(intr, intr_pay, interlay, Token(IBTC), Token(INTR));

pub fn run(m: &Mon) {
    m.rule("both runtimes: every pallet's calls in a running and a paused chain, accounts one bit from those of modules and founders, and any amounts as a year's and a block's rewards, fees and tips, with and without an author, in chains with drawn balances and stakes. A state is a distinct call and answer, or distinct balances.");
    m.stream("calls on Kintsugi", 400, 20, kint);
    m.stream("calls on Interlay", 400, 20, intr);
    m.stream("payments on Kintsugi", 2500, 20, kint_pay);
    m.stream("payments on Interlay", 2500, 20, intr_pay);
    for (e, n) in [
        ("call let through", 10_000),
        ("call refused", 10_000),
        ("safe call", 10_000),
        ("unsafe call", 3000),
        ("account near a module's", 2000),
        ("account near a founder's", 1000),
        ("a year's rewards", 1000),
        ("a block's rewards for vaults", 500),
        ("a block's rewards lacking", 100),
        ("a block's rewards for voters", 1000),
        ("fees to the author", 1000),
        ("fees with no author", 200),
    ] {
        m.require(e, n);
    }
}
