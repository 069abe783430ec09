//! S01: active blocks, expiry and request identifiers.
use mon::{rand::Rng, *};
use rt::{runtime::*, world::*};
use sp_core::H256;
use std::collections::HashSet;

fn history(case: &mut Case, r: &mut R) {
    with_world(&Cfg { accounts: 3, ..Default::default() }, || {
        let mut active = true;
        let mut n = Security::active_block_number();
        let mut ids: HashSet<H256> = HashSet::new();
        case.eq(n, 1, "active blocks do not start with the chain", String::new);
        for _ in 0..r.gen_range(20..120) {
            match r.gen_range(0..6) {
                0 => {
                    let on = r.gen();
                    let as_root = r.gen_bool(0.7);
                    let Some(res) = act(case, "activate_counter", if as_root { Origin::root() } else { signed(&acc(r.gen_range(0..3))) }, security::Call::activate_counter { is_active: on }) else { return };
                    case.eq(res.is_ok(), as_root, "the block counter can be stopped by anyone, or not by governance", || format!("{res:?}"));
                    if as_root { active = on }
                    case.event(if as_root { "switch" } else { "switch refused" });
                }
                1..=2 => {
                    let k = r.gen_range(1..4);
                    for _ in 0..k { next_block() }
                    if active { n += k }
                    case.event(if active { "active blocks" } else { "inactive blocks" });
                }
                3 => {
                    if r.gen_bool(0.3) { frame_system::ParentHash::<Runtime>::put(H256(r.gen())) }
                    let a = acc(r.gen_range(0..3));
                    let id = Security::get_secure_id(&a);
                    case.check(ids.insert(id), "an identifier is given out twice", || format!("{id:?} after {} others", ids.len()));
                    case.check(id != H256::zero(), "an identifier is zero", String::new);
                    case.event("identifier");
                }
                4 if r.gen_bool(0.3) => {
                    // a restarted chain: the nonce starts over on another parent block
                    security::Nonce::<Runtime>::kill();
                    frame_system::ParentHash::<Runtime>::put(H256(r.gen()));
                    case.event("restart");
                }
                _ => {
                    let open = match r.gen_range(0..5) { 0 => weird_u32(r), _ => n.saturating_sub(r.gen_range(0..20)) };
                    let period = match r.gen_range(0..5) { 0 => weird_u32(r), 1 => n.saturating_sub(open), 2 => n.saturating_sub(open).saturating_sub(1), _ => r.gen_range(0..20) };
                    let g = Security::parachain_block_expired(open, period);
                    let want = open.checked_add(period).map(|e| n > e);
                    case.eq(g.as_ref().ok().copied(), want, "a period is expired before it is over, or not after", || format!("opened {open} period {period} at {n}"));
                    case.event(match want { None => "expiry out of range", Some(true) => "expired", Some(false) => "not expired" });
                    case.state_dbg(&(n, open, period));
                }
            }
            case.eval(1);
            if !case.eq(Security::active_block_number(), n, "active blocks are not the blocks while the counter was on", || format!("active {active}")) { return }
        }
        case.sample(|| format!("{n} active of {} blocks, {} identifiers", now(), ids.len()));
    });
}
pub fn run(m: &Mon) {
    m.rule("histories: random blocks, switches of the counter, expiry questions and identifiers. A state is a (block, opening, period) question.");
    m.stream("histories", 4000, 20, history);
    for (e, n) in [("active blocks", 1000), ("inactive blocks", 1000), ("switch", 1000), ("switch refused", 300), ("identifier", 3000), ("restart", 300), ("expired", 1000), ("not expired", 1000), ("expiry out of range", 100)] {
        m.require(e, n);
    }
}
