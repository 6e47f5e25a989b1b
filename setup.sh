#!/bin/bash
# Checks that the tools are there. The checks themselves build from /repo.
set -e
cd "$(dirname "$0")"
cargo kani --version
python3 --version
mkdir -p .build evidence replays
for c in contracts serde dynamic; do
    (cd "$c" && CARGO_NET_OFFLINE=true cargo metadata --offline --format-version 1 >/dev/null)
done
