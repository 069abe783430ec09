//! I01: releases of client software announced by governance.
use clients_info::ClientRelease;
use codec::{Decode, Encode};
use frame_support::{traits::Hooks, BoundedVec};
use mon::{rand::Rng, *};
use rt::{runtime::*, world::*};
use sp_core::H256;
use std::collections::BTreeMap;

type Rel = (Vec<u8>, [u8; 32]);
type Map = BTreeMap<Vec<u8>, Rel>;
fn name(r: &mut R) -> Vec<u8> {
    match r.gen_range(0..8) {
        0 => vec![],
        1 => bytes(r, 255),
        2 => vec![b'v'; r.gen_range(254..256)],
        _ => pick(r, &[&b"vault"[..], b"oracle", b"faucet", b"vault2", b"Vault"]).to_vec(),
    }
}
fn get(m: &Map, names: &[Vec<u8>], f: impl Fn(&BoundedVec<u8, frame_support::traits::ConstU32<255>>) -> Option<Rel>) -> Option<String> {
    names.iter().find_map(|n| {
        let g = f(&n.clone().try_into().unwrap());
        (g.as_ref() != m.get(n)).then(|| format!("{}: got {:?} want {:?}", String::from_utf8_lossy(n), g, m.get(n)))
    })
}
fn rel(x: ClientRelease<BoundedVec<u8, frame_support::traits::ConstU32<255>>, H256>) -> Rel {
    (x.uri.into_inner(), x.checksum.0)
}
pub fn run(m: &Mon) {
    m.rule("histories: 5..60 announcements of current and pending releases by root and by others under few and odd names, with runtime upgrades between (as a block and called twice in a row); after each, every release on record is compared with a model. A state is a distinct record of both kinds.");
    m.stream("histories", 4000, 20, |case, r| {
        with_world(&Cfg { accounts: 2, ..Default::default() }, || {
            let (mut cur, mut pen) = (Map::new(), Map::new());
            let mut names: Vec<Vec<u8>> = vec![];
            for _ in 0..r.gen_range(5..60) {
                let what;
                if r.gen_ratio(1, 6) {
                    let k = r.gen_range(1..3);
                    for _ in 0..k {
                        if case.total("upgrade", || "".into(), || ClientsInfo::on_runtime_upgrade()).is_none() {
                            return;
                        }
                    }
                    case.log(|| format!("runtime upgrade x{k}"));
                    if !pen.is_empty() {
                        case.event("applied");
                    }
                    case.event("upgrade");
                    cur.append(&mut pen);
                    what = "upgrade";
                } else if r.gen_ratio(1, 8) {
                    next_block();
                    case.log(|| "block".into());
                    what = "block";
                } else {
                    let n = if !names.is_empty() && r.gen() { pick(r, &names).clone() } else { name(r) };
                    if !names.contains(&n) {
                        names.push(n.clone());
                    }
                    let re: Rel = (bytes(r, 255), r.gen());
                    let release = ClientRelease { uri: re.0.clone().try_into().unwrap(), checksum: H256(re.1) };
                    let o = if r.gen_ratio(1, 4) { signed(&acc(r.gen_range(0..2))) } else if r.gen_ratio(1, 10) { Origin::none() } else { Origin::root() };
                    let good = frame_system::ensure_root(o.clone()).is_ok();
                    let p = r.gen();
                    let client_name = n.clone().try_into().unwrap();
                    let c: RuntimeCall = if p { clients_info::Call::set_pending_client_release { client_name, release }.into() } else { clients_info::Call::set_current_client_release { client_name, release }.into() };
                    let Some(res) = act(case, "set_release", o, c) else { return };
                    if !case.check(res.is_ok() == good, "a release was announced by others than governance, or governance was refused", || err_name(&res)) {
                        return;
                    }
                    if good {
                        if p { &mut pen } else { &mut cur }.insert(n, re);
                    }
                    case.event(&format!("{} {}", if p { "pending" } else { "current" }, if good { "ok" } else { "refused" }));
                    what = "announcement";
                }
                case.eval(2 * names.len() as u64);
                let d = get(&cur, &names, |n| ClientsInfo::current_client_release(n).map(|x| rel(x)));
                if !case.check(d.is_none(), "the current release of a client is not the last applied or announced", || format!("after {what}: {d:?}")) {
                    return;
                }
                let d = get(&pen, &names, |n| ClientsInfo::pending_client_release(n).map(|x| rel(x)));
                if !case.check(d.is_none(), "the pending release of a client is not the last announced and not yet applied", || format!("after {what}: {d:?}")) {
                    return;
                }
                case.state_dbg(&(&cur, &pen));
            }
            let raw: Vec<u8> = cur.encode();
            let _: Map = Decode::decode(&mut &raw[..]).unwrap();
            case.sample(|| format!("{} current, {} pending", cur.len(), pen.len()));
        })
    });
    for (e, n) in [("applied", 500), ("pending ok", 1000), ("current ok", 1000), ("pending refused", 300), ("current refused", 300)] {
        m.require(e, n);
    }
}
