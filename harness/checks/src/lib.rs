//! Shared by the checks that exercise the whole read API.
pub mod elfimg;
pub mod hosts;
pub mod inputs;
pub mod machoimg;
pub mod walk;
pub mod wobj;
pub mod wread;
