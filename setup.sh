#!/bin/bash
# Builds the model checker once, offline.
cd "$(dirname "$0")/harness" && RUSTFLAGS="--cfg verif_hooks" cargo build --release --offline --target-dir ../target --features int_field,int_scalar,int_point,pt_methods
