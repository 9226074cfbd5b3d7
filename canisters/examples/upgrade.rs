// The example canister, as it is.
#[path = "/repo/examples/http-certification/upgrade-to-update-call/src/rust-backend/src/lib.rs"]
mod canister;
