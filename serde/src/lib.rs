#![allow(clippy::all)]
#[macro_use]
#[path = "../../contracts/src/macros.rs"]
mod macros;
pub mod c15;
pub mod format;
#[path = "../../contracts/src/nd.rs"]
pub mod nd;
#[path = "../../contracts/src/shapes.rs"]
pub mod shapes;
#[path = "../../contracts/src/spec.rs"]
pub mod spec;
