#![allow(clippy::all)]
pub mod derived;
#[cfg(all(feature = "tokio", feature = "smol"))]
pub mod fault;
pub mod flav;
#[cfg(all(feature = "tokio", feature = "smol"))]
pub mod hand;
pub mod kid;
#[cfg(all(feature = "tokio", feature = "smol"))]
pub mod msg;
pub mod ops;
pub mod own;
pub mod root;
pub mod run;
#[cfg(all(feature = "tokio", feature = "smol"))]
pub mod script;
pub mod sig;
pub mod src;
#[cfg(not(all(feature = "tokio", feature = "smol")))]
pub mod stub;
pub mod util;
pub mod val;
pub use run::{Ctx, Fail, Prop, Res};
pub use src::Src;
pub use val::Val;
