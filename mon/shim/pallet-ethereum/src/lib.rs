//! Offline stand-in for the transaction types.
use sp_core::{H160, U256};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TransactionAction {
    Call(H160),
    Create,
}
macro_rules! tx {
    ($($n:ident),*) => { $(
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $n {
            pub nonce: U256,
            pub gas_limit: U256,
            pub action: TransactionAction,
            pub value: U256,
            pub input: Vec<u8>,
        }
    )* }
}
tx!(LegacyTransaction, EIP2930Transaction, EIP1559Transaction);
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Transaction {
    Legacy(LegacyTransaction),
    EIP2930(EIP2930Transaction),
    EIP1559(EIP1559Transaction),
}
