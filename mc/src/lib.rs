pub mod engine;
pub mod px;
pub mod tv;
pub mod book;
pub mod kind;
pub mod huge;
pub mod vast;
pub mod large;
pub mod ser;
pub mod alloc;
pub mod access;
pub mod w_arena;
pub mod w_chain;
pub mod w_ord;
pub mod w_surject;
pub use engine::*;
pub use large::{large, sizes};
pub use px::*;
pub use tv::Tv;
