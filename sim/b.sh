#!/bin/bash
# developer build
cd /verif/sim; export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER=/verif/sim/wrapper.sh
cargo build --offline ${1:---release} 2>&1 | grep -v "^warning: hiding" | grep -E "^(error|warning)|Finished" -A12
