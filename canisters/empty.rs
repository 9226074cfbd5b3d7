// the canisters are in examples/
