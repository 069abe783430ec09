use super::unhashed;
use crate::{
    hash::{twox_128, ReversibleStorageHasher, StorageHasher},
    traits::{Get, GetDefault, StorageInstance},
};
use codec::{Decode, DecodeLength, Encode, EncodeAppend, EncodeLike, FullCodec, FullEncode};
use core::marker::PhantomData;

/// Every key under `prefix`, in order.
pub fn keys_of(prefix: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut k = prefix.to_vec();
    while let Some(next) = sp_io::storage::next_key(&k) {
        if !next.starts_with(prefix) {
            break;
        }
        out.push(next.clone());
        k = next;
    }
    out
}

fn prefix_of<P: StorageInstance>() -> Vec<u8> {
    let mut k = twox_128(P::pallet_prefix().as_bytes()).to_vec();
    k.extend(twox_128(P::STORAGE_PREFIX.as_bytes()));
    k
}

pub trait QueryKindTrait<Value, OnEmpty> {
    type Query;
    fn from_optional_value_to_query(v: Option<Value>) -> Self::Query;
    fn from_query_to_optional_value(v: Self::Query) -> Option<Value>;
}
pub struct OptionQuery;
impl<V, E: Get<Option<V>>> QueryKindTrait<V, E> for OptionQuery {
    type Query = Option<V>;
    fn from_optional_value_to_query(v: Option<V>) -> Option<V> {
        v.or_else(E::get)
    }
    fn from_query_to_optional_value(v: Option<V>) -> Option<V> {
        v
    }
}
pub struct ResultQuery<Error>(PhantomData<Error>);
pub struct ValueQuery;
impl<V, E: Get<V>> QueryKindTrait<V, E> for ValueQuery {
    type Query = V;
    fn from_optional_value_to_query(v: Option<V>) -> V {
        v.unwrap_or_else(E::get)
    }
    fn from_query_to_optional_value(v: V) -> Option<V> {
        Some(v)
    }
}

pub trait StorageAppend<Item: Encode> {}
impl<T: Encode> StorageAppend<T> for Vec<T> {}
pub trait StorageDecodeLength: DecodeLength {}

/// The operations on the value behind one full key.
pub struct Cell<Value, QK, OnEmpty>(PhantomData<(Value, QK, OnEmpty)>);
impl<Value: FullCodec, QK: QueryKindTrait<Value, OnEmpty>, OnEmpty> Cell<Value, QK, OnEmpty> {
    pub fn get(k: &[u8]) -> QK::Query {
        QK::from_optional_value_to_query(unhashed::get(k))
    }
    pub fn set(k: &[u8], q: QK::Query) {
        match QK::from_query_to_optional_value(q) {
            Some(v) => unhashed::put(k, &v),
            None => unhashed::kill(k),
        }
    }
    pub fn take(k: &[u8]) -> QK::Query {
        QK::from_optional_value_to_query(unhashed::take(k))
    }
    pub fn try_mutate<R, E>(k: &[u8], f: impl FnOnce(&mut QK::Query) -> Result<R, E>) -> Result<R, E> {
        let mut v = Self::get(k);
        let r = f(&mut v);
        if r.is_ok() {
            Self::set(k, v);
        }
        r
    }
    pub fn try_mutate_exists<R, E>(k: &[u8], f: impl FnOnce(&mut Option<Value>) -> Result<R, E>) -> Result<R, E> {
        let mut v: Option<Value> = unhashed::get(k);
        let r = f(&mut v);
        if r.is_ok() {
            match v {
                Some(x) => unhashed::put(k, &x),
                None => unhashed::kill(k),
            }
        }
        r
    }
    pub fn append<I: Encode, EI: EncodeLike<I>>(k: &[u8], item: EI)
    where
        Value: IntoIterator<Item = I>,
        I: Encode,
    {
        let cur = unhashed::get_raw(k).unwrap_or_default();
        let new = <Vec<I> as EncodeAppend>::append_or_new(cur, [item]).expect("append");
        unhashed::put_raw(k, &new);
    }
}

fn never<T>(r: Result<T, core::convert::Infallible>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => match e {},
    }
}

pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(
    PhantomData<(Prefix, Value, QueryKind, OnEmpty)>,
);
impl<P: StorageInstance, Value: FullCodec, QK: QueryKindTrait<Value, OE>, OE> StorageValue<P, Value, QK, OE> {
    pub fn hashed_key() -> [u8; 32] {
        prefix_of::<P>().try_into().unwrap()
    }
    pub fn storage_value_final_key() -> [u8; 32] {
        Self::hashed_key()
    }
    pub fn exists() -> bool {
        unhashed::exists(&Self::hashed_key())
    }
    pub fn get() -> QK::Query {
        Cell::<Value, QK, OE>::get(&Self::hashed_key())
    }
    pub fn try_get() -> Result<Value, ()> {
        unhashed::get(&Self::hashed_key()).ok_or(())
    }
    pub fn put<A: EncodeLike<Value>>(v: A) {
        unhashed::put(&Self::hashed_key(), &v)
    }
    pub fn set(q: QK::Query) {
        Cell::<Value, QK, OE>::set(&Self::hashed_key(), q)
    }
    pub fn mutate<R, F: FnOnce(&mut QK::Query) -> R>(f: F) -> R {
        never(Self::try_mutate(|v| Ok(f(v))))
    }
    pub fn try_mutate<R, E, F: FnOnce(&mut QK::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
        Cell::<Value, QK, OE>::try_mutate(&Self::hashed_key(), f)
    }
    pub fn mutate_exists<R, F: FnOnce(&mut Option<Value>) -> R>(f: F) -> R {
        never(Self::try_mutate_exists(|v| Ok(f(v))))
    }
    pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<Value>) -> Result<R, E>>(f: F) -> Result<R, E> {
        Cell::<Value, QK, OE>::try_mutate_exists(&Self::hashed_key(), f)
    }
    pub fn kill() {
        unhashed::kill(&Self::hashed_key())
    }
    pub fn take() -> QK::Query {
        Cell::<Value, QK, OE>::take(&Self::hashed_key())
    }
    pub fn append<I: Encode, EI: EncodeLike<I>>(item: EI)
    where
        Value: IntoIterator<Item = I>,
    {
        Cell::<Value, QK, OE>::append(&Self::hashed_key(), item)
    }
    pub fn try_append<I: Encode, EI: EncodeLike<I>>(item: EI) -> Result<(), ()>
    where
        Value: crate::storage::StorageTryAppend<I>,
    {
        let k = Self::hashed_key();
        let n = unhashed::get_raw(&k).and_then(|v| codec::Compact::<u32>::decode(&mut &v[..]).ok()).map_or(0, |c| c.0 as usize);
        if n >= Value::bound() {
            return Err(());
        }
        let cur = unhashed::get_raw(&k).unwrap_or_default();
        let new = <Vec<I> as EncodeAppend>::append_or_new(cur, [item]).map_err(|_| ())?;
        unhashed::put_raw(&k, &new);
        Ok(())
    }
    pub fn decode_len() -> Option<usize>
    where
        Value: DecodeLength,
    {
        unhashed::get_raw(&Self::hashed_key()).and_then(|v| <Value as DecodeLength>::len(&v).ok())
    }
    pub fn translate<O: Decode, F: FnOnce(Option<O>) -> Option<Value>>(f: F) -> Result<Option<Value>, ()> {
        let k = Self::hashed_key();
        let old = match unhashed::get_raw(&k) {
            Some(v) => Some(O::decode(&mut &v[..]).map_err(|_| ())?),
            None => None,
        };
        let new = f(old);
        match &new {
            Some(v) => unhashed::put(&k, v),
            None => unhashed::kill(&k),
        }
        Ok(new)
    }
}

pub struct StorageMap<
    Prefix,
    Hasher,
    Key,
    Value,
    QueryKind = OptionQuery,
    OnEmpty = GetDefault,
    MaxValues = GetDefault,
>(PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);

impl<P: StorageInstance, H: StorageHasher, K: FullEncode, Value: FullCodec, QK: QueryKindTrait<Value, OE>, OE, M>
    StorageMap<P, H, K, Value, QK, OE, M>
{
    pub fn prefix_hash() -> Vec<u8> {
        prefix_of::<P>()
    }
    pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> {
        let mut x = prefix_of::<P>();
        x.extend(k.using_encoded(H::hash));
        x
    }
    pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
        unhashed::exists(&Self::hashed_key_for(k))
    }
    pub fn get<A: EncodeLike<K>>(k: A) -> QK::Query {
        Cell::<Value, QK, OE>::get(&Self::hashed_key_for(k))
    }
    pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<Value, ()> {
        unhashed::get(&Self::hashed_key_for(k)).ok_or(())
    }
    pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
        let (ka, kb) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
        let (va, vb) = (unhashed::get_raw(&ka), unhashed::get_raw(&kb));
        match vb {
            Some(v) => unhashed::put_raw(&ka, &v),
            None => unhashed::kill(&ka),
        }
        match va {
            Some(v) => unhashed::put_raw(&kb, &v),
            None => unhashed::kill(&kb),
        }
    }
    pub fn insert<A: EncodeLike<K>, V: EncodeLike<Value>>(k: A, v: V) {
        unhashed::put(&Self::hashed_key_for(k), &v)
    }
    pub fn set<A: EncodeLike<K>>(k: A, q: QK::Query) {
        Cell::<Value, QK, OE>::set(&Self::hashed_key_for(k), q)
    }
    pub fn remove<A: EncodeLike<K>>(k: A) {
        unhashed::kill(&Self::hashed_key_for(k))
    }
    pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut QK::Query) -> R>(k: A, f: F) -> R {
        never(Self::try_mutate(k, |v| Ok(f(v))))
    }
    pub fn try_mutate<A: EncodeLike<K>, R, E, F: FnOnce(&mut QK::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
        Cell::<Value, QK, OE>::try_mutate(&Self::hashed_key_for(k), f)
    }
    pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<Value>) -> R>(k: A, f: F) -> R {
        never(Self::try_mutate_exists(k, |v| Ok(f(v))))
    }
    pub fn try_mutate_exists<A: EncodeLike<K>, R, E, F: FnOnce(&mut Option<Value>) -> Result<R, E>>(
        k: A,
        f: F,
    ) -> Result<R, E> {
        Cell::<Value, QK, OE>::try_mutate_exists(&Self::hashed_key_for(k), f)
    }
    pub fn take<A: EncodeLike<K>>(k: A) -> QK::Query {
        Cell::<Value, QK, OE>::take(&Self::hashed_key_for(k))
    }
    pub fn append<I: Encode, EI: EncodeLike<I>, A: EncodeLike<K>>(k: A, item: EI)
    where
        Value: IntoIterator<Item = I>,
    {
        Cell::<Value, QK, OE>::append(&Self::hashed_key_for(k), item)
    }
    pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize>
    where
        Value: DecodeLength,
    {
        unhashed::get_raw(&Self::hashed_key_for(k)).and_then(|v| <Value as DecodeLength>::len(&v).ok())
    }
    pub fn remove_all(_limit: Option<u32>) -> sp_io::KillStorageResult {
        sp_io::KillStorageResult::AllRemoved(unhashed::clear_prefix(&prefix_of::<P>()))
    }
    pub fn clear(_limit: u32, _cursor: Option<&[u8]>) -> sp_io::MultiRemovalResults {
        let n = unhashed::clear_prefix(&prefix_of::<P>());
        sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
    }
    pub fn iter_values() -> std::vec::IntoIter<Value> {
        let v: Vec<Value> = keys_of(&prefix_of::<P>()).iter().filter_map(|k| unhashed::get(k)).collect();
        v.into_iter()
    }
    pub fn translate_values<O: Decode, F: FnMut(O) -> Option<Value>>(mut f: F) {
        for k in keys_of(&prefix_of::<P>()) {
            if let Some(o) = unhashed::get::<O>(&k) {
                match f(o) {
                    Some(v) => unhashed::put(&k, &v),
                    None => unhashed::kill(&k),
                }
            }
        }
    }
}
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, Value: FullCodec, QK: QueryKindTrait<Value, OE>, OE, M>
    StorageMap<P, H, K, Value, QK, OE, M>
{
    pub fn iter() -> std::vec::IntoIter<(K, Value)> {
        let p = prefix_of::<P>();
        let v: Vec<_> = keys_of(&p)
            .into_iter()
            .filter_map(|k| Some((K::decode(&mut H::reverse(&k[p.len()..])).ok()?, unhashed::get(&k)?)))
            .collect();
        v.into_iter()
    }
    pub fn iter_keys() -> std::vec::IntoIter<K> {
        let p = prefix_of::<P>();
        let v: Vec<_> =
            keys_of(&p).into_iter().filter_map(|k| K::decode(&mut H::reverse(&k[p.len()..])).ok()).collect();
        v.into_iter()
    }
    pub fn drain() -> std::vec::IntoIter<(K, Value)> {
        let v: Vec<_> = Self::iter().collect();
        unhashed::clear_prefix(&prefix_of::<P>());
        v.into_iter()
    }
    pub fn iter_from(start: Vec<u8>) -> std::vec::IntoIter<(K, Value)> {
        let p = prefix_of::<P>();
        let v: Vec<_> = keys_of(&p)
            .into_iter()
            .filter(|k| *k > start)
            .filter_map(|k| Some((K::decode(&mut H::reverse(&k[p.len()..])).ok()?, unhashed::get(&k)?)))
            .collect();
        v.into_iter()
    }
    pub fn iter_keys_from(start: Vec<u8>) -> std::vec::IntoIter<K> {
        let v: Vec<_> = Self::iter_from(start).map(|x| x.0).collect();
        v.into_iter()
    }
    pub fn translate<O: Decode, F: FnMut(K, O) -> Option<Value>>(mut f: F) {
        let p = prefix_of::<P>();
        for k in keys_of(&p) {
            if let (Ok(key), Some(o)) = (K::decode(&mut H::reverse(&k[p.len()..])), unhashed::get::<O>(&k)) {
                match f(key, o) {
                    Some(v) => unhashed::put(&k, &v),
                    None => unhashed::kill(&k),
                }
            }
        }
    }
}

/// Counting is not stored separately here: `count` walks the map.
pub struct CountedStorageMap<
    Prefix,
    Hasher,
    Key,
    Value,
    QueryKind = OptionQuery,
    OnEmpty = GetDefault,
    MaxValues = GetDefault,
>(PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);

pub struct StorageDoubleMap<
    Prefix,
    Hasher1,
    Key1,
    Hasher2,
    Key2,
    Value,
    QueryKind = OptionQuery,
    OnEmpty = GetDefault,
    MaxValues = GetDefault,
>(PhantomData<(Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind, OnEmpty, MaxValues)>);

impl<P, H1, K1, H2, K2, Value, QK, OE, M> StorageDoubleMap<P, H1, K1, H2, K2, Value, QK, OE, M>
where
    P: StorageInstance,
    H1: StorageHasher,
    H2: StorageHasher,
    K1: FullEncode,
    K2: FullEncode,
    Value: FullCodec,
    QK: QueryKindTrait<Value, OE>,
{
    pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
        let mut x = Self::prefix1(a);
        x.extend(b.using_encoded(H2::hash));
        x
    }
    fn prefix1<A: EncodeLike<K1>>(a: A) -> Vec<u8> {
        let mut x = prefix_of::<P>();
        x.extend(a.using_encoded(H1::hash));
        x
    }
    pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
        unhashed::exists(&Self::hashed_key_for(a, b))
    }
    pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> QK::Query {
        Cell::<Value, QK, OE>::get(&Self::hashed_key_for(a, b))
    }
    pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<Value, ()> {
        unhashed::get(&Self::hashed_key_for(a, b)).ok_or(())
    }
    pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> QK::Query {
        Cell::<Value, QK, OE>::take(&Self::hashed_key_for(a, b))
    }
    pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, V: EncodeLike<Value>>(a: A, b: B, v: V) {
        unhashed::put(&Self::hashed_key_for(a, b), &v)
    }
    pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: QK::Query) {
        Cell::<Value, QK, OE>::set(&Self::hashed_key_for(a, b), q)
    }
    pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
        unhashed::kill(&Self::hashed_key_for(a, b))
    }
    pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut QK::Query) -> R>(a: A, b: B, f: F) -> R {
        never(Self::try_mutate(a, b, |v| Ok(f(v))))
    }
    pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut QK::Query) -> Result<R, E>>(
        a: A,
        b: B,
        f: F,
    ) -> Result<R, E> {
        Cell::<Value, QK, OE>::try_mutate(&Self::hashed_key_for(a, b), f)
    }
    pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<Value>) -> R>(
        a: A,
        b: B,
        f: F,
    ) -> R {
        never(Self::try_mutate_exists(a, b, |v| Ok(f(v))))
    }
    pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<Value>) -> Result<R, E>>(
        a: A,
        b: B,
        f: F,
    ) -> Result<R, E> {
        Cell::<Value, QK, OE>::try_mutate_exists(&Self::hashed_key_for(a, b), f)
    }
    pub fn append<I: Encode, EI: EncodeLike<I>, A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, item: EI)
    where
        Value: IntoIterator<Item = I>,
    {
        Cell::<Value, QK, OE>::append(&Self::hashed_key_for(a, b), item)
    }
    pub fn remove_prefix<A: EncodeLike<K1>>(a: A, _limit: Option<u32>) -> sp_io::KillStorageResult {
        sp_io::KillStorageResult::AllRemoved(unhashed::clear_prefix(&Self::prefix1(a)))
    }
    pub fn clear_prefix<A: EncodeLike<K1>>(
        a: A,
        _limit: u32,
        _cursor: Option<&[u8]>,
    ) -> sp_io::MultiRemovalResults {
        let n = unhashed::clear_prefix(&Self::prefix1(a));
        sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
    }
    pub fn clear(_limit: u32, _cursor: Option<&[u8]>) -> sp_io::MultiRemovalResults {
        let n = unhashed::clear_prefix(&prefix_of::<P>());
        sp_io::MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
    }
    pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<Value> {
        let v: Vec<Value> = keys_of(&Self::prefix1(a)).iter().filter_map(|k| unhashed::get(k)).collect();
        v.into_iter()
    }
    pub fn iter_values() -> std::vec::IntoIter<Value> {
        let v: Vec<Value> = keys_of(&prefix_of::<P>()).iter().filter_map(|k| unhashed::get(k)).collect();
        v.into_iter()
    }
}
impl<P, H1, K1, H2, K2, Value, QK, OE, M> StorageDoubleMap<P, H1, K1, H2, K2, Value, QK, OE, M>
where
    P: StorageInstance,
    H1: ReversibleStorageHasher,
    H2: ReversibleStorageHasher,
    K1: FullCodec,
    K2: FullCodec,
    Value: FullCodec,
    QK: QueryKindTrait<Value, OE>,
{
    pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<(K2, Value)> {
        let p = Self::prefix1(a);
        let v: Vec<_> = keys_of(&p)
            .into_iter()
            .filter_map(|k| Some((K2::decode(&mut H2::reverse(&k[p.len()..])).ok()?, unhashed::get(&k)?)))
            .collect();
        v.into_iter()
    }
    pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<K2> {
        let v: Vec<_> = Self::iter_prefix(a).map(|x| x.0).collect();
        v.into_iter()
    }
    pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<(K2, Value)> {
        let p = Self::prefix1(a);
        let v: Vec<_> = keys_of(&p)
            .into_iter()
            .filter_map(|k| Some((K2::decode(&mut H2::reverse(&k[p.len()..])).ok()?, unhashed::get(&k)?)))
            .collect();
        unhashed::clear_prefix(&p);
        v.into_iter()
    }
    fn split(k: &[u8]) -> Option<(K1, K2)> {
        let mut x = H1::reverse(k);
        let a = K1::decode(&mut x).ok()?;
        let mut y = H2::reverse(x);
        Some((a, K2::decode(&mut y).ok()?))
    }
    pub fn iter() -> std::vec::IntoIter<(K1, K2, Value)> {
        let p = prefix_of::<P>();
        let v: Vec<_> = keys_of(&p)
            .into_iter()
            .filter_map(|k| {
                let (a, b) = Self::split(&k[p.len()..])?;
                Some((a, b, unhashed::get(&k)?))
            })
            .collect();
        v.into_iter()
    }
    pub fn iter_keys() -> std::vec::IntoIter<(K1, K2)> {
        let v: Vec<_> = Self::iter().map(|x| (x.0, x.1)).collect();
        v.into_iter()
    }
    pub fn drain() -> std::vec::IntoIter<(K1, K2, Value)> {
        let v: Vec<_> = Self::iter().collect();
        unhashed::clear_prefix(&prefix_of::<P>());
        v.into_iter()
    }
    pub fn translate<O: Decode, F: FnMut(K1, K2, O) -> Option<Value>>(mut f: F) {
        let p = prefix_of::<P>();
        for k in keys_of(&p) {
            if let (Some((a, b)), Some(o)) = (Self::split(&k[p.len()..]), unhashed::get::<O>(&k)) {
                match f(a, b, o) {
                    Some(v) => unhashed::put(&k, &v),
                    None => unhashed::kill(&k),
                }
            }
        }
    }
}

pub struct Key<Hasher, KeyType>(PhantomData<(Hasher, KeyType)>);
pub struct StorageNMap<Prefix, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
    PhantomData<(Prefix, Key, Value, QueryKind, OnEmpty, MaxValues)>,
);
