#![allow(clippy::all)]
#[macro_use]
#[path = "../../contracts/src/macros.rs"]
mod macros;
pub mod c16;
#[path = "../../contracts/src/nd.rs"]
pub mod nd;
