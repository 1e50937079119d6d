//! Entry points into tmi's public API, one function per API, so that the compiler
//! resolves and monomorphises what each reaches. Nothing here is ever executed.
#![allow(dead_code, mismatched_lifetime_syntaxes)]
pub mod irc;
pub mod spec;
#[cfg(feature = "types")]
pub mod types;
#[cfg(feature = "client")]
pub mod client;
