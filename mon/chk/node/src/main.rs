//! J06: what the node does with a client's question.
#![allow(dead_code, unused_imports, unexpected_cfgs, ambiguous_glob_reexports, clippy::all)]
use codec::Decode;
use mon::{rand::{Rng, SeedableRng}, *};
use mon::R;
use serde_json::Value;
use std::sync::{Arc, Mutex};


/// A value of a type: what drawn bytes decode to.
pub fn draw<T: Decode>(r: &mut R) -> T {
    loop {
        let (small, zero) = (r.gen_range(0..6), r.gen_bool(0.5));
        let bytes: Vec<u8> = (0..700).map(|i| match r.gen_range(0..5) {
            x if x >= small => r.gen(),
            _ if zero && i > 0 && r.gen_ratio(3, 4) => 0,
            _ => *pick(r, &[0, 0, 1, 1, 2, 3, 4, 8, 12]),
        }).collect();
        if let Ok(x) = T::decode(&mut &bytes[..]) {
            return x;
        }
    }
}
/// A value as clients see it, with every number written alike.
pub fn json<T: serde::Serialize>(x: &T) -> Value {
    let (mut out, mut quoted, mut number, mut escaped) = (String::new(), false, false, false);
    for c in serde_json::to_string(x).unwrap().chars() {
        let digit = !quoted && (c.is_ascii_digit() || "+-.eE".contains(c) && number || c == '-');
        if digit != number {
            out.push('"');
            number = digit;
        }
        if c == '"' && !escaped {
            quoted = !quoted;
        }
        escaped = c == '\\' && !escaped;
        out.push(c);
    }
    if number {
        out.push('"');
    }
    serde_json::from_str(&out).unwrap()
}

/// What a node is made of, as far as these servers know it.
pub mod jsonrpsee {
    pub mod core {
        pub mod async_trait {}
        #[derive(Debug)]
        pub enum Error {
            Call(super::types::error::CallError),
            Custom(String),
        }
        impl From<super::types::error::CallError> for Error {
            fn from(e: super::types::error::CallError) -> Self {
                Error::Call(e)
            }
        }
        pub type RpcResult<T> = Result<T, Error>;
    }
    pub mod proc_macros {
        pub mod rpc {}
    }
    pub mod types {
        pub use error::*;
        pub mod error {
            #[derive(Debug)]
            pub enum CallError {
                InvalidParams(String),
                Failed(String),
                Custom(ErrorObject),
            }
            #[derive(Debug, Clone, PartialEq)]
            pub struct ErrorObject {
                pub code: i32,
                pub message: String,
                pub data: Option<String>,
            }
            pub type ErrorObjectOwned = ErrorObject;
            impl ErrorObject {
                pub fn owned<S: serde::Serialize>(code: i32, message: impl Into<String>, data: Option<S>) -> Self {
                    Self { code, message: message.into(), data: data.map(|d| serde_json::to_string(&d).unwrap()) }
                }
            }
            #[derive(Debug, Clone, Copy, PartialEq)]
            pub enum ErrorCode {
                ParseError,
                InvalidRequest,
                MethodNotFound,
                InvalidParams,
                InternalError,
                ServerError(i32),
            }
            impl ErrorCode {
                pub const fn code(&self) -> i32 {
                    match self {
                        ErrorCode::ParseError => -32700,
                        ErrorCode::InvalidRequest => -32600,
                        ErrorCode::MethodNotFound => -32601,
                        ErrorCode::InvalidParams => -32602,
                        ErrorCode::InternalError => -32603,
                        ErrorCode::ServerError(c) => *c,
                    }
                }
            }
        }
    }
}
pub mod sp_rpc {
    pub mod number {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum NumberOrHex {
            Number(u64),
            Hex(super::super::sp_core::U256),
        }
        impl serde::Serialize for NumberOrHex {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                match self {
                    NumberOrHex::Number(n) => s.serialize_str(&n.to_string()),
                    NumberOrHex::Hex(n) => s.serialize_str(&n.to_string()),
                }
            }
        }
        impl From<u128> for NumberOrHex {
            fn from(n: u128) -> Self {
                NumberOrHex::Hex(n.into())
            }
        }
        impl From<u64> for NumberOrHex {
            fn from(n: u64) -> Self {
                NumberOrHex::Number(n)
            }
        }
        impl From<u32> for NumberOrHex {
            fn from(n: u32) -> Self {
                NumberOrHex::Number(n.into())
            }
        }
        impl TryFrom<NumberOrHex> for u128 {
            type Error = ();
            fn try_from(n: NumberOrHex) -> Result<u128, ()> {
                match n {
                    NumberOrHex::Number(n) => Ok(n.into()),
                    NumberOrHex::Hex(n) => n.try_into().map_err(|_| ()),
                }
            }
        }
    }
}
pub mod sp_api {
    #[derive(Debug)]
    pub enum ApiError {
        Application(String),
    }
    impl std::fmt::Display for ApiError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for ApiError {}
    pub trait ProvideRuntimeApi<Block> {
        type Api;
        fn runtime_api(&self) -> Self::Api;
    }
}
pub mod sp_blockchain {
    pub struct Info<B: sp_runtime::traits::Block> {
        pub best_hash: B::Hash,
        pub best_number: u32,
        pub genesis_hash: B::Hash,
        pub finalized_hash: B::Hash,
        pub finalized_number: u32,
    }
    pub trait HeaderBackend<B: sp_runtime::traits::Block> {
        fn info(&self) -> Info<B>;
    }
}
pub use ::{sp_core, sp_runtime, sp_std};

pub mod types {
    pub use primitives::{AccountId, Balance, Block, BlockNumber, CurrencyId, H256Le, Hash};
    pub use sp_core::H256;
    pub type UnsignedFixedPoint = sp_runtime::FixedU128;
    pub type VaultId = primitives::VaultId<AccountId, CurrencyId>;
    pub type IssueRequest = primitives::issue::IssueRequest<AccountId, BlockNumber, Balance, CurrencyId>;
    pub type RedeemRequest = primitives::redeem::RedeemRequest<AccountId, BlockNumber, Balance, CurrencyId>;
    pub type ReplaceRequest = primitives::replace::ReplaceRequest<AccountId, BlockNumber, Balance, CurrencyId>;
    pub type PoolId = primitives::StablePoolId;
    pub type AssetId = CurrencyId;
}
mod known;
use types::{Block, Hash};

/// A question the node put to a runtime, and the answer it got.
#[derive(Debug, Clone)]
pub struct Question {
    what: &'static str,
    at: Hash,
    args: Vec<Value>,
    answer: Option<Value>,
}
/// A runtime that answers anything, and remembers.
#[derive(Clone)]
pub struct Recorder {
    log: Arc<Mutex<Vec<Question>>>,
    rng: Arc<Mutex<R>>,
}
impl Recorder {
    fn asked<T: Decode + serde::Serialize>(&self, what: &'static str, at: Hash, args: Vec<Value>) -> Result<T, sp_api::ApiError> {
        let mut r = self.rng.lock().unwrap();
        let answer: Option<T> = (!r.gen_ratio(1, 12)).then(|| draw(&mut r));
        self.log.lock().unwrap().push(Question { what, at, args, answer: answer.as_ref().map(json) });
        answer.ok_or(sp_api::ApiError::Application("the runtime stopped".into()))
    }
}
pub struct Client {
    api: Recorder,
    best: Hash,
    others: [Hash; 2],
}
impl Client {
    fn new(r: &mut R) -> Self {
        Client { api: Recorder { log: Default::default(), rng: Arc::new(Mutex::new(R::seed_from_u64(r.gen()))) }, best: draw(r), others: [draw(r), draw(r)] }
    }
    fn outcome(&self, args: Vec<Value>, at: Option<Hash>, said: Result<Value, String>) -> Outcome {
        Outcome { args, at: at.unwrap_or(self.best), named: at.is_some(), said, asked: self.api.log.lock().unwrap().clone() }
    }
}
impl sp_api::ProvideRuntimeApi<Block> for Client {
    type Api = Recorder;
    fn runtime_api(&self) -> Recorder {
        self.api.clone()
    }
}
impl sp_blockchain::HeaderBackend<Block> for Client {
    fn info(&self) -> sp_blockchain::Info<Block> {
        sp_blockchain::Info { best_hash: self.best, best_number: 9, genesis_hash: self.others[0], finalized_hash: self.others[1], finalized_number: 7 }
    }
}
#[derive(Debug)]
pub struct Outcome {
    args: Vec<Value>,
    at: Hash,
    named: bool,
    said: Result<Value, String>,
    asked: Vec<Question>,
}
include!("../../../../work/gen/node_rpc.rs");

fn main() {
    let m = Mon::from_env();
    m.rule("every question the node's servers take from clients, by its published name, with drawn arguments, at a drawn block or none, before a runtime that gives a drawn answer of the question's type, or stops. A state is a distinct answer passed on.");
    m.stream("question", 54 * 40, 20, |case, r| {
        let (name, asks) = *pick(r, known::KNOWN);
        known::one(case, r, name, asks);
    });
    m.stream("pair", 2000, 1, |case, r| {
        // the one answer this repository gives a form of its own
        let p: dex_general::PairInfo<types::AccountId, u128, types::CurrencyId> = draw(r);
        let want = serde_json::json!({
            "asset0": json(&p.asset_0), "asset1": json(&p.asset_1), "account": json(&p.account), "totalLiquidity": p.total_liquidity.to_string(), "holdingLiquidity": p.holding_liquidity.to_string(),
            "reserve0": p.reserve_0.to_string(), "reserve1": p.reserve_1.to_string(), "lpAssetId": json(&p.lp_asset_id), "status": p.status.to_string(),
        });
        case.eq(json(&p), want, "a pair is written otherwise", || String::new());
        case.event("pair written");
        case.eval(1);
    });
    m.require("pair written", 1000);
    for (name, _) in known::KNOWN {
        m.require(&format!("answer: {name}"), 20);
    }
    for (e, n) in [("at a named block", 1000), ("at the best block", 1000), ("runtime stopped", 500), ("refusal", 500)] {
        m.require(e, n);
    }
    m.finish();
}
