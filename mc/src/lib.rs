//! Shared machinery of the model checkers: case enumeration, reporting, the reference UBX framing
//! model and helpers which drive the real parser.
#![allow(unreachable_patterns)]
pub mod build;
pub mod de;
pub mod deep;
pub mod deepmodel;
pub mod drive;
pub mod gen;
pub mod gencfg;
pub mod life;
pub mod long;
pub mod model;
pub mod frame;
pub mod rep;
pub mod repeat;
pub mod ser;
pub use build::*;
pub use deep::*;
pub use deepmodel::*;
pub use drive::*;
pub use gen::*;
pub use gencfg::*;
pub use life::*;
pub use long::*;
pub use model::*;
pub use frame::*;
pub use rep::*;
pub use ser::{capture, Cap, SV};
pub use repeat::*;
