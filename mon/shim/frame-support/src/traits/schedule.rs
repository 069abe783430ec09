use super::*;
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, TypeInfo)]
pub enum DispatchTime<BlockNumber> {
    At(BlockNumber),
    After(BlockNumber),
}
pub type Period<B> = (B, u32);
pub type Priority = u8;
pub const HIGHEST_PRIORITY: Priority = 0;
pub const HARD_DEADLINE: Priority = 63;
pub const LOWEST_PRIORITY: Priority = 255;
pub type TaskName = [u8; 32];
pub mod v3 {
    use super::*;
    pub use super::TaskName;
    pub trait Named<BlockNumber, Call, Origin> {
        type Address: codec::Codec + MaxEncodedLen + Clone + Eq + codec::EncodeLike + Debug + TypeInfo;
        fn schedule_named(
            id: TaskName,
            when: DispatchTime<BlockNumber>,
            maybe_periodic: Option<Period<BlockNumber>>,
            priority: Priority,
            origin: Origin,
            call: Bounded<Call>,
        ) -> Result<Self::Address, DispatchError>;
        fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
        fn reschedule_named(id: TaskName, when: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError>;
        fn next_dispatch_time(id: TaskName) -> Result<BlockNumber, DispatchError>;
    }
}
