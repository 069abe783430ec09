//! Offline stand-in for the precompile interface.
use sp_core::H160;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PrecompileOutput {
    pub by: &'static str,
    pub output: Vec<u8>,
}
pub type PrecompileResult = Result<PrecompileOutput, ()>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IsPrecompileResult {
    Answer { is_precompile: bool, extra_cost: u64 },
    OutOfGas,
}
pub trait PrecompileHandle {
    fn code_address(&self) -> H160;
    fn input(&self) -> &[u8];
}
pub trait Precompile {
    fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult;
}
pub trait PrecompileSet {
    fn execute(&self, handle: &mut impl PrecompileHandle) -> Option<PrecompileResult>;
    fn is_precompile(&self, address: H160, remaining_gas: u64) -> IsPrecompileResult;
}
pub trait Config: frame_system::Config {}
impl<T: frame_system::Config> Config for T {}
