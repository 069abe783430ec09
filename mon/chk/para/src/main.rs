//! What the parachain's own runtime code adds to the pallets.
#![allow(dead_code)]
#[path = "../../../../work/gen/contracts.rs"]
mod contracts;
mod c_ext;
#[path = "../../gov/src/g_any.rs"]
mod g_any;
#[path = "../../gov/src/gen.rs"]
mod gen;
mod j_glue;
mod j_rate;

pub use frame_support::weights::Weight;
pub use rt::runtime::{NativeCurrency, Runtime, RuntimeCall, RuntimeEvent, Timestamp};

fn main() {
    let m = mon::Mon::from_env();
    match m.prop.clone().as_str() {
        "J01" => j_rate::run(&m),
        "J02" => j_glue::run(&m),
        "C02" => c_ext::run(&m),
        p => panic!("no such property here: {p}"),
    }
    m.finish();
}
