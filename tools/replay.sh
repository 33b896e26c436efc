#!/bin/sh
# replay.sh <file>: runs the failing case recorded by a check against /repo again.
set -e
cd "$(dirname "$0")/.."
CARGO_TARGET_DIR="$PWD/work/target" cargo build --offline --quiet --manifest-path refute/Cargo.toml
exec work/target/debug/refute replay "$1"
