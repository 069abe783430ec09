//! Offline stand-in.
use sp_runtime::Permill;
pub trait BaseFeeThreshold {
    fn lower() -> Permill;
    fn ideal() -> Permill;
    fn upper() -> Permill;
}
