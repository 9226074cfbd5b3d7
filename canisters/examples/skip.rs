// The example canister, as it is.
#[path = "/repo/examples/http-certification/skip-certification/src/backend/src/lib.rs"]
mod canister;
