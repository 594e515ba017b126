#!/bin/bash
# builds the extractor and the executable oracles; every check rebuilds what changed
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:$PATH
mkdir -p build evidence
(cd extract && cargo build --offline --quiet) || exit 1
(cd harness && cargo build --offline --quiet --bins) || exit 1
verus --version
