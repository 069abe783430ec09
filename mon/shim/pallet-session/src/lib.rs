//! Offline stand-in for the part of pallet-session the collator selection uses.
pub use sp_staking::SessionIndex;
pub trait SessionManager<ValidatorId> {
    fn new_session(new_index: SessionIndex) -> Option<Vec<ValidatorId>>;
    fn new_session_genesis(new_index: SessionIndex) -> Option<Vec<ValidatorId>> {
        Self::new_session(new_index)
    }
    fn end_session(end_index: SessionIndex);
    fn start_session(start_index: SessionIndex);
}
