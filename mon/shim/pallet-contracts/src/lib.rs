//! Offline stand-in for the interface of chain extensions.
pub mod chain_extension {
    use codec::Decode;
    use frame_support::weights::Weight;
    pub use frame_system::Config as SysConfig;
    use sp_runtime::DispatchError;
    use std::marker::PhantomData;
    pub type Result<T> = std::result::Result<T, DispatchError>;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum RetVal {
        Converging(u32),
        Diverging { flags: u32, data: Vec<u8> },
    }
    pub trait Ext {
        type T: SysConfig;
    }
    pub enum InitState {}
    pub enum BufInBufOutState {}
    /// What the contract passed and what is written back to it.
    pub struct Environment<'a, E, S> {
        id: u32,
        input: &'a [u8],
        output: &'a mut Vec<u8>,
        space: usize,
        phantom: PhantomData<(E, S)>,
    }
    impl<'a, E, S> Environment<'a, E, S> {
        pub fn func_id(&self) -> u16 {
            (self.id & 0xffff) as u16
        }
        pub fn ext_id(&self) -> u16 {
            (self.id >> 16) as u16
        }
        pub fn charge_weight(&mut self, w: Weight) -> Result<Weight> {
            Ok(w)
        }
    }
    impl<'a, E> Environment<'a, E, InitState> {
        pub fn new(id: u32, input: &'a [u8], output: &'a mut Vec<u8>, space: usize) -> Self {
            Self { id, input, output, space, phantom: PhantomData }
        }
        pub fn buf_in_buf_out(self) -> Environment<'a, E, BufInBufOutState> {
            Environment { id: self.id, input: self.input, output: self.output, space: self.space, phantom: PhantomData }
        }
    }
    impl<'a, E> Environment<'a, E, BufInBufOutState> {
        pub fn in_len(&self) -> u32 {
            self.input.len() as u32
        }
        pub fn read(&self, max_len: u32) -> Result<Vec<u8>> {
            Ok(self.input[..self.input.len().min(max_len as usize)].to_vec())
        }
        pub fn read_as_unbounded<T: Decode>(&mut self, len: u32) -> Result<T> {
            let mut b = &self.input[..self.input.len().min(len as usize)];
            // (the whole input must be used)
            let t = T::decode(&mut b).map_err(|_| DispatchError::Other("decoding failed"))?;
            if b.is_empty() { Ok(t) } else { Err(DispatchError::Other("decoding failed")) }
        }
        pub fn write(&mut self, buffer: &[u8], _allow_skip: bool, _weight: Option<Weight>) -> Result<()> {
            if buffer.len() > self.space {
                return Err(DispatchError::Other("output buffer too small"));
            }
            self.output.extend_from_slice(buffer);
            Ok(())
        }
    }
    pub trait ChainExtension<C> {
        fn call<E: Ext<T = C>>(&mut self, env: Environment<E, InitState>) -> Result<RetVal>
        where
            C: SysConfig;
        fn enabled() -> bool {
            true
        }
    }
}
pub struct Schedule<T>(std::marker::PhantomData<T>);
impl<T> Default for Schedule<T> {
    fn default() -> Self {
        Self(Default::default())
    }
}
