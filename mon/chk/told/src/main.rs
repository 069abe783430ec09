//! J05: what the two runtimes answer to clients.
#![allow(dead_code, unused_imports, unexpected_cfgs, clippy::all)]
#[path = "../../gov/src/g_any.rs"]
mod g_any;
#[path = "../../gov/src/gen.rs"]
mod gen;
mod world;

mod prelude {
    pub use bitcoin::types::H256Le;
    pub use codec::{Decode, Encode};
    pub use currency::Amount;
    pub use frame_support::traits::Get;
    pub use issue::IssueRequest;
    pub use loans::*;
    pub use primitives::{issue::IssueRequest as _, BalanceWrapper, CurrencyId, Liquidity, Shortfall, VaultCurrencyPair};
    pub use rt::runtime::*;
    pub use sp_core::{H160, H256, U256};
    pub use sp_runtime::{
        traits::{AccountIdConversion, Convert, UniqueSaturatedInto, Zero},
        DispatchError, DispatchResult, FixedPointNumber, FixedU128,
    };
    pub use std::marker::PhantomData;
    pub mod sp_std {
        pub use std::*;
    }
}
pub mod kintsugi {
    mod api {
        use crate::prelude::*;
        include!("../../../../work/gen/kintsugi_told.rs");
    }
    const NAME: &str = "kintsugi";
    include!("ask.rs");
}
pub mod interlay {
    mod api {
        use crate::prelude::*;
        include!("../../../../work/gen/interlay_told.rs");
    }
    const NAME: &str = "interlay";
    include!("ask.rs");
}

fn main() {
    let m = mon::Mon::from_env();
    m.rule("two runtimes' answers in a chain where every part is in use, between drawn calls of anybody, bridge requests, moving prices and a ramping curve. An answer about an amount is compared with what the same step then does on a rolled-back copy, or with the state it names; every other answer with the pallet's own, for drawn arguments. A state is a distinct answer.");
    m.stream("kintsugi", 700, 20, |case, r| world::run(case, r, kintsugi::ask));
    m.stream("interlay", 700, 20, |case, r| world::run(case, r, interlay::ask));
    for (e, n) in [
        ("reward of a lock", 300), ("reward of a vault", 300), ("reward of a farm", 300), ("a farm's year", 100), ("stakable", 200), ("power later", 200), ("curve on its way", 100),
        ("swapped out", 200), ("swapped in", 100), ("liquidity given", 100), ("liquidity taken", 100), ("stable swap", 100), ("block known", 300), ("block unknown", 300), ("block too young", 300), ("vaults at a premium", 200), ("liquidity given, of unlike bounds", 200), ("issuable", 200), ("requests", 200),
        ("stable taken", 100), ("stable taken as one", 100), ("stable given", 100), ("account in markets", 200), ("collateralization", 200),
    ] {
        m.require(e, n);
    }
    m.finish();
}
