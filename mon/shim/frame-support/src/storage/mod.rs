pub mod types;
pub use sp_runtime::TransactionOutcome;
pub use transactional::{
    in_storage_layer, with_storage_layer, with_transaction, with_transaction_unchecked,
};
pub mod bounded_vec {
    pub use sp_runtime::{BoundedSlice, BoundedVec};
}
pub mod bounded_btree_map {
    pub use sp_runtime::BoundedBTreeMap;
}
pub mod bounded_btree_set {
    pub use sp_runtime::BoundedBTreeSet;
}
pub mod weak_bounded_vec {
    pub use sp_runtime::WeakBoundedVec;
}
pub trait StorageList<T> {}

pub mod unhashed {
    use codec::{Decode, Encode};
    pub fn get<T: Decode>(key: &[u8]) -> Option<T> {
        sp_io::storage::get(key).and_then(|v| match Decode::decode(&mut &v[..]) {
            Ok(x) => Some(x),
            Err(_) => {
                log::error!(target: "runtime::storage", "corrupted state at {:?}", key);
                None
            }
        })
    }
    pub fn get_or_default<T: Decode + Default>(key: &[u8]) -> T {
        get(key).unwrap_or_default()
    }
    pub fn put<T: Encode + ?Sized>(key: &[u8], value: &T) {
        sp_io::storage::set(key, &value.encode());
    }
    pub fn take<T: Decode>(key: &[u8]) -> Option<T> {
        let v = get(key);
        if v.is_some() {
            kill(key);
        }
        v
    }
    pub fn exists(key: &[u8]) -> bool {
        sp_io::storage::exists(key)
    }
    pub fn kill(key: &[u8]) {
        sp_io::storage::clear(key);
    }
    pub fn get_raw(key: &[u8]) -> Option<Vec<u8>> {
        sp_io::storage::get(key).map(|v| v.to_vec())
    }
    pub fn put_raw(key: &[u8], value: &[u8]) {
        sp_io::storage::set(key, value)
    }
    pub fn clear_prefix(prefix: &[u8]) -> u32 {
        let mut n = 0;
        let mut k = prefix.to_vec();
        // the key that is the prefix goes as well
        if sp_io::storage::exists(prefix) {
            sp_io::storage::clear(prefix);
            n += 1;
        }
        while let Some(next) = sp_io::storage::next_key(&k) {
            if !next.starts_with(prefix) {
                break;
            }
            sp_io::storage::clear(&next);
            k = next;
            n += 1;
        }
        n
    }
}

pub mod hashed {
    pub use super::unhashed::*;
}

pub mod child {}

pub mod migration {
    use super::*;
    use crate::hash::ReversibleStorageHasher;
    use codec::{Decode, Encode};
    fn key(module: &[u8], item: &[u8], hash: &[u8]) -> Vec<u8> {
        let mut k = crate::hash::twox_128(module).to_vec();
        k.extend(crate::hash::twox_128(item));
        k.extend(hash);
        k
    }
    pub fn put_storage_value<T: Encode>(module: &[u8], item: &[u8], hash: &[u8], value: T) {
        unhashed::put(&key(module, item, hash), &value)
    }
    pub fn get_storage_value<T: Decode>(module: &[u8], item: &[u8], hash: &[u8]) -> Option<T> {
        unhashed::get(&key(module, item, hash))
    }
    pub fn have_storage_value(module: &[u8], item: &[u8], hash: &[u8]) -> bool {
        unhashed::exists(&key(module, item, hash))
    }
    pub fn take_storage_value<T: Decode>(module: &[u8], item: &[u8], hash: &[u8]) -> Option<T> {
        unhashed::take(&key(module, item, hash))
    }
    pub fn remove_storage_prefix(module: &[u8], item: &[u8], hash: &[u8]) {
        unhashed::clear_prefix(&key(module, item, hash));
    }
    pub fn clear_storage_prefix(
        module: &[u8],
        item: &[u8],
        hash: &[u8],
        _limit: Option<u32>,
        _cursor: Option<&[u8]>,
    ) -> sp_io::MultiRemovalResults {
        let n = unhashed::clear_prefix(&key(module, item, hash));
        sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
    }
    pub fn storage_key_iter<K: Decode, T: Decode, H: ReversibleStorageHasher>(
        module: &[u8],
        item: &[u8],
    ) -> std::vec::IntoIter<(K, T)> {
        let p = key(module, item, &[]);
        let v: Vec<(K, T)> = types::keys_of(&p)
            .into_iter()
            .filter_map(|k| Some((K::decode(&mut H::reverse(&k[p.len()..])).ok()?, unhashed::get(&k)?)))
            .collect();
        v.into_iter()
    }
    pub fn move_pallet(_: &[u8], _: &[u8]) {}
}

pub mod transactional {
    use super::unhashed;
    use sp_runtime::{DispatchError, TransactionOutcome, TransactionalError};

    pub type Layer = u32;
    pub const TRANSACTION_LEVEL_KEY: &[u8] = b":transaction_level:";
    pub const TRANSACTIONAL_LIMIT: Layer = 255;

    pub fn get_transaction_level() -> Layer {
        unhashed::get_or_default(TRANSACTION_LEVEL_KEY)
    }
    fn set(l: Layer) {
        unhashed::put(TRANSACTION_LEVEL_KEY, &l)
    }
    fn inc() -> Result<(), ()> {
        let e = get_transaction_level();
        if e >= TRANSACTIONAL_LIMIT {
            return Err(());
        }
        set(e + 1);
        Ok(())
    }
    fn dec() {
        let e = get_transaction_level();
        if e <= 1 {
            unhashed::kill(TRANSACTION_LEVEL_KEY)
        } else {
            set(e - 1)
        }
    }
    pub fn is_transactional() -> bool {
        get_transaction_level() > 0
    }
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            dec()
        }
    }
    pub fn with_transaction<T, E: From<DispatchError>, F: FnOnce() -> TransactionOutcome<Result<T, E>>>(
        f: F,
    ) -> Result<T, E> {
        inc().map_err(|_| DispatchError::from(TransactionalError::LimitReached))?;
        let _g = Guard;
        sp_io::storage::start_transaction();
        match f() {
            TransactionOutcome::Commit(r) => {
                sp_io::storage::commit_transaction();
                r
            }
            TransactionOutcome::Rollback(r) => {
                sp_io::storage::rollback_transaction();
                r
            }
        }
    }
    pub fn with_transaction_unchecked<R, F: FnOnce() -> TransactionOutcome<R>>(f: F) -> R {
        sp_io::storage::start_transaction();
        match f() {
            TransactionOutcome::Commit(r) => {
                sp_io::storage::commit_transaction();
                r
            }
            TransactionOutcome::Rollback(r) => {
                sp_io::storage::rollback_transaction();
                r
            }
        }
    }
    pub fn with_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
        with_transaction(|| {
            let r = f();
            if r.is_ok() {
                TransactionOutcome::Commit(r)
            } else {
                TransactionOutcome::Rollback(r)
            }
        })
    }
    pub fn in_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
        if is_transactional() {
            f()
        } else {
            with_storage_layer(f)
        }
    }
}

/// Bounded collections that can be appended to in storage.
pub trait StorageTryAppend<Item> {
    fn bound() -> usize;
}
impl<T, S: crate::traits::Get<u32>> StorageTryAppend<T> for crate::BoundedVec<T, S> {
    fn bound() -> usize {
        S::get() as usize
    }
}
