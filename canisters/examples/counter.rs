// The example canister, as it is.
#[path = "/repo/examples/certification/certified-counter/src/backend/src/lib.rs"]
mod canister;
