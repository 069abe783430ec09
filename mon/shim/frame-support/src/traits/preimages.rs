use super::*;
use sp_core::H256;
use sp_runtime::BoundedVec;
pub type BoundedInline = BoundedVec<u8, ConstU32<128>>;

#[derive(Encode, Decode, MaxEncodedLen, Clone, PartialEq, Eq, TypeInfo, Debug)]
#[codec(mel_bound())]
pub enum Bounded<T> {
    Legacy { hash: H256, dummy: PhantomData<T> },
    Inline(BoundedInline),
    Lookup { hash: H256, len: u32 },
}
impl<T> Bounded<T> {
    pub fn transmute<S>(self) -> Bounded<S> {
        match self {
            Bounded::Legacy { hash, .. } => Bounded::Legacy { hash, dummy: PhantomData },
            Bounded::Inline(x) => Bounded::Inline(x),
            Bounded::Lookup { hash, len } => Bounded::Lookup { hash, len },
        }
    }
    pub fn hash(&self) -> H256 {
        match self {
            Self::Lookup { hash, .. } | Self::Legacy { hash, .. } => *hash,
            Self::Inline(x) => sp_io::hashing::blake2_256(x.as_ref()).into(),
        }
    }
    pub fn lookup_hash(&self) -> Option<H256> {
        match self {
            Self::Lookup { hash, .. } | Self::Legacy { hash, .. } => Some(*hash),
            Self::Inline(_) => None,
        }
    }
    pub fn len(&self) -> Option<u32> {
        match self {
            Self::Legacy { .. } => None,
            Self::Inline(i) => Some(i.len() as u32),
            Self::Lookup { len, .. } => Some(*len),
        }
    }
    pub fn lookup_len(&self) -> Option<u32> {
        match self {
            Self::Lookup { len, .. } => Some(*len),
            _ => None,
        }
    }
    pub fn lookup_needed(&self) -> bool {
        !matches!(self, Self::Inline(_))
    }
    pub fn from_legacy_hash(hash: impl Into<H256>) -> Self {
        Self::Legacy { hash: hash.into(), dummy: PhantomData }
    }
    pub fn unrequested(hash: H256, len: u32) -> Self {
        Self::Lookup { hash, len }
    }
}
pub type FetchResult = Result<std::borrow::Cow<'static, [u8]>, DispatchError>;
pub trait QueryPreimage {
    fn len(hash: &H256) -> Option<u32>;
    fn fetch(hash: &H256, len: Option<u32>) -> FetchResult;
    fn is_requested(hash: &H256) -> bool;
    fn request(hash: &H256);
    fn unrequest(hash: &H256);
    fn hold<T>(b: &Bounded<T>) {
        if let Some(h) = b.lookup_hash() {
            Self::request(&h)
        }
    }
    fn drop<T>(b: &Bounded<T>) {
        if let Some(h) = b.lookup_hash() {
            Self::unrequest(&h)
        }
    }
    fn have<T>(b: &Bounded<T>) -> bool {
        match b.lookup_hash() {
            None => true,
            Some(h) => Self::len(&h).is_some(),
        }
    }
    fn pick<T>(hash: H256, len: u32) -> Bounded<T> {
        Self::request(&hash);
        Bounded::Lookup { hash, len }
    }
    fn peek<T: Decode>(b: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> {
        match b {
            Bounded::Inline(d) => {
                T::decode(&mut &d[..]).ok().map(|x| (x, None)).ok_or(DispatchError::Corruption)
            }
            Bounded::Lookup { hash, len } => {
                let d = Self::fetch(hash, Some(*len))?;
                T::decode(&mut &d[..]).ok().map(|x| (x, Some(d.len() as u32))).ok_or(DispatchError::Corruption)
            }
            Bounded::Legacy { hash, .. } => {
                let d = Self::fetch(hash, None)?;
                T::decode(&mut &d[..]).ok().map(|x| (x, Some(d.len() as u32))).ok_or(DispatchError::Corruption)
            }
        }
    }
    fn realize<T: Decode>(b: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> {
        let r = Self::peek(b)?;
        Self::drop(b);
        Ok(r)
    }
}
pub trait StorePreimage: QueryPreimage {
    const MAX_LENGTH: usize;
    fn note(bytes: std::borrow::Cow<[u8]>) -> Result<H256, DispatchError>;
    fn unnote(hash: &H256) {
        Self::unrequest(hash)
    }
    fn bound<T: Encode>(t: T) -> Result<Bounded<T>, DispatchError> {
        let d = t.encode();
        let len = d.len() as u32;
        Ok(match BoundedInline::try_from(d) {
            Ok(b) => Bounded::Inline(b),
            Err(d) => Bounded::Lookup { hash: Self::note(d.into())?, len },
        })
    }
}
