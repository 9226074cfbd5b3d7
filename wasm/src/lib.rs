//! The WebAssembly binding as it is, in a crate of its own so that it builds without the repository's workspace.
pub use ic_response_verification_wasm::*;
