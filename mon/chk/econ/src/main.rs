//! Monitors of the reward pools, emission, escrow, oracle and security pallets.
mod a_supply;
mod e_escrow;
mod f_farming;
mod k_staking;
mod o_oracle;
mod s_security;
mod w_reward;

fn main() {
    let m = mon::Mon::from_env();
    match m.prop.as_str() {
        "W01" => w_reward::run(&m),
        "A01" => a_supply::run(&m),
        "F01" => f_farming::run(&m),
        "O01" => o_oracle::run(&m),
        "S01" => s_security::run(&m),
        "E01" => e_escrow::run(&m),
        "K01" => k_staking::run(&m),
        p => panic!("unknown property {p}"),
    }
    m.finish()
}
