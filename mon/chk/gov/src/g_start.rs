//! U02: a chain starts as configured, and an upgrade keeps every record.
use codec::{Decode, Encode};
use frame_support::{
    traits::{Bounded, Hooks, OnRuntimeUpgrade, StorageVersion},
    BoundedVec,
};
use mon::{rand::Rng, *};
use primitives::{CurrencyId::*, VaultCurrencyPair};
use rt::{runtime::*, world::*};
use sp_core::H256;
use sp_runtime::{BuildStorage, FixedU128};
use std::collections::{BTreeMap, BTreeSet};

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Pair = VaultCurrencyPair<CurrencyId>;
fn item(pallet: &str, name: &str) -> Vec<u8> {
    [sp_io::hashing::twox_128(pallet.as_bytes()), sp_io::hashing::twox_128(name.as_bytes())].concat()
}
fn blake(k: &[u8]) -> Vec<u8> {
    [&sp_io::hashing::blake2_128(k)[..], k].concat()
}
/// the storage without the events of the block
fn all() -> Map {
    let sys = sp_io::hashing::twox_128(b"System");
    frame_support::keys_of(&[]).into_iter().filter(|k| !k.starts_with(&sys)).map(|k| (k.clone(), sp_io::storage::get(&k).unwrap().to_vec())).collect()
}

// --- a new chain -------------------------------------------------------------------------
fn fx(r: &mut R) -> FixedU128 {
    FixedU128::from_inner(log_uniform_u128(r, 100))
}
fn some<T: Ord>(r: &mut R, f: impl Fn(&mut R) -> T) -> BTreeSet<T> {
    let n = r.gen_range(0..5);
    (0..n).map(|_| f(r)).collect()
}
fn cur(r: &mut R) -> CurrencyId {
    match r.gen_range(0..4) {
        0 => Token(*pick(r, &[primitives::DOT, primitives::KSM, primitives::INTR, primitives::KINT])),
        1 => ForeignAsset(r.gen_range(0..4)),
        2 => LendToken(r.gen_range(0..4)),
        _ => StableLpToken(r.gen_range(0..4)),
    }
}
fn decode<T: Decode>(k: &[u8]) -> Option<T> {
    sp_io::storage::get(k).and_then(|v| T::decode(&mut &v[..]).ok())
}
fn start(case: &mut Case, r: &mut R) {
    let mut s = sp_runtime::Storage::default();
    macro_rules! put {
        ($g:expr) => {
            $g.assimilate_storage(&mut s).expect("genesis")
        };
    }
    let (u, v, w, x) = (r.gen::<u32>(), r.gen::<u32>(), r.gen::<u32>(), weird_u128(r));
    let dust: [u128; 3] = [weird_u128(r), weird_u128(r), weird_u128(r)];
    put!(issue::GenesisConfig::<Runtime> { issue_period: u, issue_btc_dust_value: dust[0] });
    put!(redeem::GenesisConfig::<Runtime> { redeem_period: v, redeem_btc_dust_value: dust[1], redeem_transaction_size: w });
    put!(replace::GenesisConfig::<Runtime> { replace_period: u ^ v, replace_btc_dust_value: dust[2] });
    let f: Vec<FixedU128> = (0..6).map(|_| fx(r)).collect();
    put!(fee::GenesisConfig::<Runtime> {
        issue_fee: f[0],
        issue_griefing_collateral: f[1],
        redeem_fee: f[2],
        premium_redeem_fee: f[3],
        punishment_fee: f[4],
        replace_griefing_collateral: f[5],
    });
    let mins: BTreeMap<CurrencyId, u128> = some(r, cur).into_iter().map(|c| (c, weird_u128(r))).collect();
    let table = |r: &mut R| -> Vec<(Pair, FixedU128)> {
        some(r, |r| (cur(r), *pick(r, &[WRAPPED, Token(primitives::KBTC)]))).into_iter().map(|(c, w)| (Pair { collateral: c, wrapped: w }, fx(r))).collect()
    };
    let (a, b, c, d) = (table(r), table(r), table(r), table(r));
    let ceil: Vec<(Pair, u128)> = a.iter().map(|(p, x)| (p.clone(), x.into_inner())).collect();
    put!(vault_registry::GenesisConfig::<Runtime> {
        minimum_collateral_vault: mins.clone().into_iter().collect(),
        punishment_delay: w ^ u,
        system_collateral_ceiling: ceil.clone(),
        secure_collateral_threshold: b.clone(),
        premium_redeem_threshold: c.clone(),
        liquidation_collateral_threshold: d.clone(),
    });
    let oracles: BTreeMap<AccountId, Vec<u8>> = some(r, |r| acc(r.gen_range(0..9))).into_iter().map(|a| (a, bytes(r, 20))).collect();
    put!(oracle::GenesisConfig::<Runtime> { max_delay: v, authorized_oracles: oracles.iter().map(|(a, n)| (a.clone(), BoundedVec::truncate_from(n.clone()))).collect() });
    let (dd, di): (bool, bool) = (r.gen(), r.gen());
    put!(btc_relay::GenesisConfig::<Runtime> { bitcoin_confirmations: u, parachain_confirmations: v, disable_difficulty_check: dd, disable_inclusion_check: di });
    let (lo, hi) = (fx(r), fx(r));
    put!(loans::GenesisConfig::<Runtime> { max_exchange_rate: hi, min_exchange_rate: lo, _marker: Default::default() });
    let first = log_uniform_u128(r, 100);
    put!(supply::GenesisConfig::<Runtime> { initial_supply: first, start_height: w, inflation: f[5] });
    let on: bool = r.gen();
    put!(nomination::GenesisConfig::<Runtime> { is_nomination_enabled: on, _marker: Default::default() });
    let fixed: Vec<AccountId> = some(r, |r| acc(r.gen_range(0..20))).into_iter().collect();
    let most = <<Runtime as collator_selection::Config>::MaxCandidates as frame_support::traits::Get<u32>>::get();
    let wanted = r.gen_range(0..=most);
    put!(collator_selection::GenesisConfig::<Runtime> { invulnerables: fixed.clone(), candidacy_bond: x, desired_candidates: wanted });
    let calls: BTreeSet<(Vec<u8>, Option<Vec<u8>>)> = some(r, |r| (pick(r, &[&b"Issue"[..], b"Loans", b"x"]).to_vec(), r.gen::<bool>().then(|| bytes(r, 9))));
    put!(tx_pause::GenesisConfig::<Runtime> {
        paused: calls.iter().map(|(p, c)| (BoundedVec::truncate_from(p.clone()), c.clone().map(BoundedVec::truncate_from))).collect(),
        _phantom: Default::default(),
    });
    let (to, point) = (r.gen::<bool>().then(|| acc(r.gen_range(0..9))), r.gen::<u8>());
    put!(dex_general::GenesisConfig::<Runtime> { fee_receiver: to.clone(), fee_point: point });
    put!(democracy::GenesisConfig::<Runtime>::default());

    sp_io::TestExternalities::from(s).execute_with(|| {
        macro_rules! is {
            ($got:expr, $want:expr, $what:expr) => {
                case.eval(1);
                case.eq($got, $want, "a chain does not start as configured", || $what.into());
            };
        }
        is!(Issue::issue_period(), u, "issue period");
        is!(decode::<u128>(&item("Issue", "IssueBtcDustValue")).unwrap_or(0), dust[0], "issue dust");
        is!((Redeem::redeem_period(), Redeem::redeem_btc_dust_value(), Redeem::redeem_transaction_size()), (v, dust[1], w), "redeem");
        is!((Replace::replace_period(), Replace::replace_btc_dust_value()), (u ^ v, dust[2]), "replace");
        is!(
            vec![Fee::issue_fee(), Fee::issue_griefing_collateral(), Fee::redeem_fee(), Fee::premium_redeem_fee(), Fee::punishment_fee(), Fee::replace_griefing_collateral()],
            f.clone(),
            "fees"
        );
        is!(VaultRegistry::punishment_delay(), w ^ u, "punishment delay");
        let mut pairs: Vec<Pair> = [&b, &c, &d].iter().flat_map(|t| t.iter().map(|x| x.0.clone())).chain(ceil.iter().map(|x| x.0.clone())).collect();
        pairs.push(Pair { collateral: Token(primitives::DOT), wrapped: WRAPPED });
        for p in &pairs {
            let find = |t: &[(Pair, FixedU128)]| t.iter().find(|x| x.0 == *p).map(|x| x.1);
            is!(VaultRegistry::secure_collateral_threshold(p), find(&b), format!("secure threshold of {p:?}"));
            is!(VaultRegistry::premium_redeem_threshold(p), find(&c), format!("premium threshold of {p:?}"));
            is!(VaultRegistry::liquidation_collateral_threshold(p), find(&d), format!("liquidation threshold of {p:?}"));
            let got = decode::<u128>(&[item("VaultRegistry", "SystemCollateralCeiling"), blake(&p.encode())].concat());
            is!(got, ceil.iter().find(|x| x.0 == *p).map(|x| x.1), format!("ceiling of {p:?}"));
            is!(VaultRegistry::minimum_collateral_vault(p.collateral), mins.get(&p.collateral).copied().unwrap_or(0), format!("minimum of {p:?}"));
        }
        for (c, x) in &mins {
            is!(VaultRegistry::minimum_collateral_vault(c), *x, format!("minimum of {c:?}"));
        }
        is!(Oracle::max_delay(), v as u64, "oracle delay");
        is!(oracle::AuthorizedOracles::<Runtime>::iter().map(|(a, n)| (a, n.into_inner())).collect::<BTreeMap<_, _>>(), oracles, "oracles");
        is!((BTCRelay::bitcoin_confirmations(), BTCRelay::parachain_confirmations(), BTCRelay::disable_difficulty_check(), BTCRelay::disable_inclusion_check()), (u, v, dd, di), "relay");
        is!((Loans::min_exchange_rate(), Loans::max_exchange_rate()), (lo, hi), "loans");
        let pot = Supply::account_id();
        is!((Supply::start_height(), Supply::inflation(), free(NATIVE, &pot), issuance(NATIVE)), (Some(w), f[5], first, first), "supply");
        is!(Nomination::is_nomination_enabled(), on, "nomination");
        is!((CollatorSelection::invulnerables().into_inner(), CollatorSelection::candidacy_bond(), CollatorSelection::desired_candidates()), (fixed, x, wanted), "collators");
        is!(tx_pause::PausedCalls::<Runtime>::iter_keys().map(|(p, c)| (p.into_inner(), c.map(|c| c.into_inner()))).collect::<BTreeSet<_>>(), calls, "paused calls");
        is!(DexGeneral::fee_meta(), (to, point), "exchange fees");
        is!((Democracy::public_prop_count(), Democracy::referendum_count()), (0, 0), "democracy");
        case.event("configured");
        case.state_dbg(&(u, v, w));
    });
}

// --- upgrades ------------------------------------------------------------------------------
type Old<A, B, C, D> = (A, B, C, D);
/// a request as it was stored before the griefing currency was recorded
fn old_issue(i: &issue::DefaultIssueRequest<Runtime>) -> Vec<u8> {
    let x: Old<_, _, _, _> = (i.vault.clone(), i.opentime, i.period, i.griefing_collateral);
    let y = (i.amount, i.fee, i.requester.clone(), i.btc_address);
    let z = (i.btc_public_key.clone(), i.btc_height, i.status.clone());
    (x, y, z).encode()
}
fn random_issue(r: &mut R) -> issue::DefaultIssueRequest<Runtime> {
    use primitives::issue::IssueRequestStatus as St;
    let h = sp_core::H160(r.gen());
    let addr = match r.gen_range(0..4) {
        0 => bitcoin::Address::P2PKH(h),
        1 => bitcoin::Address::P2SH(h),
        2 => bitcoin::Address::P2WPKHv0(h),
        _ => bitcoin::Address::P2WSHv0(H256(r.gen())),
    };
    issue::DefaultIssueRequest::<Runtime> {
        vault: primitives::VaultId::new(acc(r.gen_range(0..9)), cur(r), WRAPPED),
        opentime: weird_u32(r),
        period: weird_u32(r),
        griefing_collateral: weird_u128(r),
        griefing_currency: NATIVE,
        amount: weird_u128(r),
        fee: weird_u128(r),
        requester: acc(r.gen_range(0..9)),
        btc_address: addr,
        btc_public_key: bitcoin::PublicKey({
            let mut k = [0u8; 33];
            r.fill(&mut k[..]);
            k
        }),
        btc_height: weird_u32(r),
        status: pick(r, &[St::Pending, St::Completed, St::Cancelled]).clone(),
    }
}
fn thresholds(r: &mut R) -> democracy::VoteThreshold {
    *pick(r, &[democracy::VoteThreshold::SuperMajorityApprove, democracy::VoteThreshold::SuperMajorityAgainst, democracy::VoteThreshold::SimpleMajority])
}
fn upgrade(case: &mut Case, r: &mut R) {
    with_world(&crate::g_any::cfg(), || {
        let Some(_) = case.total("setup", String::new, || {
            if r.gen_ratio(1, 4) {
                crate::g_any::rich(r);
                next_block();
            }
        }) else { return };
        // requests, referenda and proposals as they should be afterwards
        let prefix = item("Issue", "IssueRequests");
        for _ in 0..r.gen_range(0..6) {
            let k = H256(r.gen());
            sp_io::storage::set(&[prefix.clone(), blake(k.as_bytes())].concat(), &random_issue(r).encode());
        }
        for i in 0..r.gen_range(0..6u32) {
            let info = if r.gen_ratio(1, 4) {
                democracy::ReferendumInfo::Finished { approved: r.gen(), end: weird_u32(r) }
            } else {
                let tally = democracy::Tally { ayes: weird_u128(r), nays: weird_u128(r), turnout: weird_u128(r) };
                democracy::ReferendumInfo::Ongoing(democracy::ReferendumStatus { end: weird_u32(r), proposal: Bounded::from_legacy_hash(H256(r.gen())), threshold: thresholds(r), delay: weird_u32(r), tally })
            };
            democracy::ReferendumInfoOf::<Runtime>::insert(i * 7 + r.gen_range(0..7), info);
        }
        let most = <<Runtime as democracy::Config>::MaxProposals as frame_support::traits::Get<u32>>::get();
        let k = if r.gen_ratio(1, 10) { most } else { r.gen_range(0..6) };
        let props: Vec<(u32, H256, AccountId)> = (0..k).map(|i| (i * 3, H256(r.gen()), acc(r.gen_range(0..9)))).collect();
        let _ = democracy::PublicProps::<Runtime>::take();
        if !props.is_empty() || r.gen() {
            democracy::PublicProps::<Runtime>::put(BoundedVec::truncate_from(props.iter().map(|(i, h, a)| (*i, Bounded::from_legacy_hash(*h), a.clone())).collect()));
        }
        // releases waiting for the upgrade
        let (cn, pn) = (item("ClientsInfo", "CurrentClientReleases"), item("ClientsInfo", "PendingClientReleases"));
        for _ in 0..r.gen_range(0..3) {
            let name: BoundedVec<u8, _> = BoundedVec::truncate_from(bytes(r, 9));
            let rel = clients_info::ClientRelease { uri: BoundedVec::truncate_from(bytes(r, 30)), checksum: H256(r.gen()) };
            root(clients_info::Call::<Runtime>::set_pending_client_release { client_name: name.clone(), release: rel.clone() }).expect("release");
            if r.gen() {
                root(clients_info::Call::<Runtime>::set_current_client_release { client_name: name, release: clients_info::ClientRelease { checksum: H256(r.gen()), ..rel } }).expect("release");
            }
        }
        StorageVersion::new(1).put::<Issue>();
        StorageVersion::new(1).put::<Democracy>();
        let vr = item("VaultRegistry", "StorageVersion");
        let mut want = all();
        for (k, v) in want.clone() {
            if k.starts_with(&pn) {
                want.insert([cn.clone(), k[pn.len()..].to_vec()].concat(), v);
                want.remove(&k);
            }
        }
        // an upgrade twice in a row, and one that has nothing to do
        let old_issues = r.gen_ratio(2, 3);
        let old_dem = r.gen_ratio(2, 3);
        let was: u8 = r.gen_range(0..7);
        sp_io::storage::set(&vr, &[was]);
        want.insert(vr, vec![if was == 1 { 6 } else { was }]);
        if old_issues {
            let (mut n, mut open) = (0, 0);
            for (k, v) in want.iter().filter(|(k, _)| k.starts_with(&prefix)) {
                let i = issue::DefaultIssueRequest::<Runtime>::decode(&mut &v[..]).unwrap();
                if i.griefing_currency != NATIVE { return }
                if i.status == Default::default() { open += 1 }
                n += 1;
                sp_io::storage::set(k, &old_issue(&i));
            }
            if open > 0 { case.event("open requests upgraded") }
            case.state(&(n as u32).encode());
            StorageVersion::new(0).put::<Issue>();
        }
        if old_dem {
            let ri = item("Democracy", "ReferendumInfoOf");
            for (k, v) in want.iter().filter(|(k, _)| k.starts_with(&ri)) {
                type New = democracy::ReferendumInfo<u32, Bounded<RuntimeCall>, u128>;
                let old = match New::decode(&mut &v[..]).unwrap() {
                    democracy::ReferendumInfo::Ongoing(s) => {
                        let Bounded::Legacy { hash, .. } = s.proposal else { return };
                        democracy::ReferendumInfo::Ongoing(democracy::ReferendumStatus { end: s.end, proposal: hash, threshold: s.threshold, delay: s.delay, tally: s.tally })
                    }
                    democracy::ReferendumInfo::Finished { approved, end } => democracy::ReferendumInfo::<u32, H256, u128>::Finished { approved, end },
                };
                sp_io::storage::set(k, &old.encode());
                case.event("referendum upgraded");
            }
            sp_io::storage::set(&item("Democracy", "PublicProps"), &props.encode());
            want.insert(item("Democracy", "PublicProps"), props.iter().map(|(i, h, a)| (*i, Bounded::<RuntimeCall>::from_legacy_hash(*h), a.clone())).collect::<Vec<_>>().encode());
            if !props.is_empty() { case.event("proposals upgraded") }
            for _ in 0..r.gen_range(0..3) {
                let h: [u8; 32] = r.gen();
                sp_io::storage::set(&[item("Democracy", "Preimages"), h.to_vec()].concat(), &bytes(r, 40));
            }
            if r.gen() {
                sp_io::storage::set(&item("Democracy", "StorageVersion"), &[r.gen()]);
            }
            StorageVersion::new(0).put::<Democracy>();
        }
        let times = r.gen_range(1..3);
        for _ in 0..times {
            let ok = case.total("an upgrade fails", String::new, || {
                issue::migration::v1::Migration::<Runtime>::on_runtime_upgrade();
                democracy::migrations::v1::Migration::<Runtime>::on_runtime_upgrade();
                <VaultRegistry as Hooks<u32>>::on_runtime_upgrade();
                <ClientsInfo as Hooks<u32>>::on_runtime_upgrade();
            });
            if ok.is_none() { return }
        }
        let got = all();
        case.eval(want.len() as u64);
        let names = |m: &Map, o: &Map| -> Vec<String> { m.iter().filter(|(k, v)| o.get(*k) != Some(*v)).map(|(k, v)| format!("{} = {}", hex(k), hex(v))).collect() };
        case.check(got == want, "an upgrade loses, invents or changes a record", || {
            let p = |s: &str| hex(&item(s, "")[..16]);
            format!("issue {} democracy {} vaults {} clients {}\nold requests {old_issues}, old referenda {old_dem}, times {times}\nwrong:\n{}\nshould be:\n{}", p("Issue"), p("Democracy"), p("VaultRegistry"), p("ClientsInfo"), names(&got, &want).join("\n"), names(&want, &got).join("\n"))
        });
        case.event(if old_issues || old_dem { "upgraded" } else { "nothing to upgrade" });
        if times > 1 { case.event("upgraded twice") }
    });
}

pub fn run(m: &Mon) {
    m.rule("starts: random genesis configurations of all parts, built into a chain whose parameters are then read back. upgrades: chains with random or real requests, referenda, proposals and announced releases, brought back into the older layout (or not), upgraded once or twice; afterwards the whole storage is compared with what it was in the present layout. A state is a distinct configuration or number of records.");
    m.stream("starts", 3000, 30, start);
    m.stream("upgrades", 2500, 30, upgrade);
    for (e, n) in [("configured", 2500), ("open requests upgraded", 500), ("referendum upgraded", 1000), ("proposals upgraded", 500), ("upgraded", 1000), ("nothing to upgrade", 100), ("upgraded twice", 500)] {
        m.require(e, n);
    }
}
