//! Offline stand-in for frame-support (polkadot-v1.0.0): the storage types, dispatch types, traits
//! and macros the pallets of /repo use, over the real `sp_io` storage host functions.
#![allow(clippy::all)]
extern crate self as frame_support;

#[doc(hidden)]
pub mod __private {
    pub use codec;
    pub use log;
    pub use paste;
    pub use scale_info;
    pub use sp_core;
    pub use sp_io;
    pub use sp_runtime::{self, TransactionOutcome, TransactionalError};
    pub use sp_state_machine::BasicExternalities;
    pub use sp_std;
}

pub use frame_support_procedural::{
    construct_runtime, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound,
    DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound,
};
pub use log;
pub use sp_core::{bounded_btree_map, bounded_vec, parameter_types};
pub use sp_io;
pub use sp_runtime::{
    self, print, BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, ConsensusEngineId, RuntimeDebug,
    WeakBoundedVec,
};
pub use sp_std;
pub use sp_weights as weights_crate;

pub mod dispatch;
pub mod hash;
pub mod instances;
pub mod storage;
pub mod traits;

pub use hash::*;
pub use storage::{migration, types::*, unhashed};

#[derive(
    Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen, Ord, PartialOrd, serde::Serialize,
    serde::Deserialize,
)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::TypeId for PalletId {
    const TYPE_ID: [u8; 4] = *b"modl";
}
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

#[derive(Encode, Decode, PartialEq, Eq, Clone, Copy, Debug, TypeInfo, MaxEncodedLen)]
pub enum Never {}

pub trait Parameter: codec::Codec + codec::EncodeLike + Clone + Eq + core::fmt::Debug + TypeInfo {}
impl<T: codec::Codec + codec::EncodeLike + Clone + Eq + core::fmt::Debug + TypeInfo> Parameter for T {}

pub mod weights {
    pub use sp_weights::*;
    pub mod constants {
        pub use sp_weights::constants::*;
        sp_core::parameter_types! {
            pub const RocksDbWeight: sp_weights::RuntimeDbWeight = sp_weights::RuntimeDbWeight {
                read: 25_000 * 1_000,
                write: 100_000 * 1_000,
            };
        }
    }
}

pub mod error {
    pub use sp_runtime::traits::{BadOrigin, LookupError};
}

pub mod unsigned {
    pub use sp_runtime::{traits::ValidateUnsigned, transaction_validity::*};
}

pub mod inherent {
    pub use sp_std::prelude::*;
}

pub mod pallet_prelude {
    pub use crate::{
        dispatch::{
            DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays,
        },
        ensure,
        hash::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, StorageHasher, Twox128, Twox256, Twox64Concat},
        storage::{
            self,
            bounded_vec::BoundedVec,
            types::{
                CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap,
                StorageValue, ValueQuery,
            },
            StorageList,
        },
        traits::{
            BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType,
            PalletInfoAccess, StorageInfoTrait, StorageVersion, Task, TypedGet,
        },
        CloneNoBound, DebugNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound, DefaultNoBound, RuntimeDebug,
        transactional, Never,
    };
    pub use codec::{Decode, Encode, MaxEncodedLen};
    pub use scale_info::TypeInfo;
    pub use sp_runtime::{
        traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned},
        transaction_validity::{
            InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag,
            TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction,
        },
    };
    pub use sp_std::marker::PhantomData;
    pub use sp_weights::Weight;
}

pub mod genesis_builder_helper {}

#[macro_export]
macro_rules! fail {
    ( $y:expr ) => {{
        return Err($y.into());
    }};
}

#[macro_export]
macro_rules! ensure {
    ( $x:expr, $y:expr $(,)? ) => {{
        if !$x {
            $crate::fail!($y);
        }
    }};
}

#[macro_export]
macro_rules! assert_ok {
    ( $x:expr $(,)? ) => {
        let is = $x;
        match is {
            Ok(_) => (),
            _ => assert!(false, "Expected Ok(_). Got {:#?}", is),
        }
    };
    ( $x:expr, $y:expr $(,)? ) => {
        assert_eq!($x, Ok($y));
    };
}

#[macro_export]
macro_rules! assert_err {
    ( $x:expr , $y:expr $(,)? ) => {
        assert_eq!($x, Err($y.into()));
    };
}

#[macro_export]
macro_rules! assert_err_ignore_postinfo {
    ( $x:expr , $y:expr $(,)? ) => {
        $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y)
    };
}

#[macro_export]
macro_rules! assert_noop {
    ( $x:expr, $y:expr $(,)? ) => {
        let h = $crate::storage_root();
        $crate::assert_err!($x, $y);
        assert_eq!(h, $crate::storage_root(), "storage has been mutated");
    };
}

#[macro_export]
macro_rules! assert_storage_noop {
    ( $x:expr ) => {
        let h = $crate::storage_root();
        $x;
        assert_eq!(h, $crate::storage_root());
    };
}

/// Hash of everything in storage.
pub fn storage_root() -> Vec<u8> {
    sp_io::storage::root(sp_core::storage::StateVersion::V1)
}

#[macro_export]
macro_rules! ord_parameter_types {
    (
        $( #[ $attr:meta ] )*
        $vis:vis const $name:ident: $type:ty = $value:expr;
        $( $rest:tt )*
    ) => (
        $( #[ $attr ] )*
        $vis struct $name;
        impl $crate::traits::Get<$type> for $name { fn get() -> $type { $value } }
        impl $name { #[allow(dead_code)] pub fn get() -> $type { $value } }
        $crate::ord_parameter_types!{ @inner $name $type, $value }
        $crate::ord_parameter_types!{ $( $rest )* }
    );
    () => ();
    (@inner $name:ident $type:ty, $value:expr) => (
        impl $crate::traits::SortedMembers<$type> for $name {
            fn contains(t: &$type) -> bool { &$value == t }
            fn sorted_members() -> Vec<$type> { vec![$value] }
            fn count() -> usize { 1 }
        }
    );
}

#[macro_export]
macro_rules! runtime_print {
    ($($arg:tt)+) => {{
        let _ = format!($($arg)+);
    }};
}

#[macro_export]
macro_rules! defensive {
    ($($arg:tt)*) => {
        panic!("defensive failure")
    };
}
