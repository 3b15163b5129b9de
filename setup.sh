#!/bin/bash
# Warm build of the monitors (checks rebuild from /repo's tree anyway).
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
mkdir -p evidence
(cd harness && cargo build --release --offline --locked) 2>&1 | tail -1
(cd harness && cargo build --profile plain --offline --locked) 2>&1 | tail -1
exit 0
