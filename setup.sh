#!/bin/bash
# Nothing has to be prepared: every check builds its own binaries from /repo.
# This only shows that the harness builds offline, and warms the build folders.
set -e
cd "$(dirname "$0")/harness"
. ./env.sh
cargo build --profile release --bins
mkdir -p ../evidence ../replays
