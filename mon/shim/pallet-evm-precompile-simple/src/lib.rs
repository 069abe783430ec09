//! Offline stand-in: tells which one was run, on what.
use pallet_evm::*;
macro_rules! pre {
    ($($n:ident),*) => { $(
        pub struct $n;
        impl Precompile for $n {
            fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult {
                Ok(PrecompileOutput { by: stringify!($n), output: h.input().to_vec() })
            }
        }
    )* }
}
pre!(ECRecover, Identity, Ripemd160, Sha256);
