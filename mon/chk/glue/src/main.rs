//! The code of the two runtimes themselves: filters, locations of currencies, where the rewards go.
#![allow(dead_code, unused_imports, unexpected_cfgs, clippy::all)]
mod calls;
mod locations;
mod prelude;
#[path = "../../../../work/repo/parachain/runtime/interlay/src/constants.rs"]
pub mod interlay_constants;
#[path = "../../../../work/repo/parachain/runtime/kintsugi/src/constants.rs"]
pub mod kintsugi_constants;

pub mod kintsugi {
    use frame_support::traits::fungible::Inspect;
    use crate::prelude::*;
    pub use crate::kintsugi_constants as constants;
    pub use constants::{currency::*, time::*};
    include!("../../../../work/gen/kintsugi_glue.rs");
    pub type Labs = EnsureKintsugiLabs;
}
pub mod interlay {
    use crate::prelude::*;
    pub use crate::interlay_constants as constants;
    pub use constants::{currency::*, time::*};
    include!("../../../../work/gen/interlay_glue.rs");
    pub type Labs = EnsureKintsugiLabs;
}

fn main() {
    let m = mon::Mon::from_env();
    match m.prop.clone().as_str() {
        "J03" => locations::run(&m),
        "J04" => calls::run(&m),
        p => panic!("no such property here: {p}"),
    }
    m.finish();
}
