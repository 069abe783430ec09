//! Offline stand-in for the barrier interface of the XCM executor.
pub mod traits {
    use frame_support::traits::ProcessMessageError;
    use frame_support::weights::Weight;
    use xcm::latest::{Instruction, MultiLocation};
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Properties {
        pub weight_credit: Weight,
        pub message_id: Option<[u8; 32]>,
    }
    pub trait ShouldExecute {
        fn should_execute<RuntimeCall>(
            origin: &MultiLocation,
            instructions: &mut [Instruction<RuntimeCall>],
            max_weight: Weight,
            properties: &mut Properties,
        ) -> Result<(), ProcessMessageError>;
    }
}
