#!/bin/bash
cd "$(dirname "$0")"
for c in ${@:-std full nostd}; do CARGO_NET_OFFLINE=true cargo +stable build --release -q --features cfg_$c --target-dir target-$c 2>&1 | grep -E "^error" -A5; done
