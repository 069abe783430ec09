#[path = "../../chk/bitcoin/src/model.rs"]
pub mod model;
pub mod btc;
pub mod preimg;
pub mod runtime;
pub mod sched;
pub mod world;
pub use mon;
