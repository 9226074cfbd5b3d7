// The example canister, as it is.
#[path = "/repo/examples/http-certification/json-api/src/backend/src/lib.rs"]
mod canister;
