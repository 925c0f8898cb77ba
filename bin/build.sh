#!/bin/bash
cd /verif/harness && RUSTFLAGS="--cfg uflow_verif" CARGO_TARGET_DIR=/verif/build/target cargo build --offline 2>&1 | grep -A8 "^error"
