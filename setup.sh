#!/bin/bash
# Builds all checks, offline. Every check builds what it needs by itself too.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd harness && cargo build --offline --locked --release)
(cd vizharness && cargo build --offline --locked --release --bin viz)
