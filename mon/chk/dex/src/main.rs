//! Monitors of the exchange pallets.
mod d_boot;
mod d_math;
mod d_pair;
mod d_quote;
mod d_router;
mod d_stable;

fn main() {
    let m = mon::Mon::from_env();
    match m.prop.as_str() {
        "D01" => d_pair::run(&m),
        "D02" => d_boot::run(&m),
        "D03" => d_quote::run(&m),
        "X01" => d_stable::run(&m),
        "X02" => d_router::run(&m),
        p => panic!("unknown property {p}"),
    }
    m.finish()
}
