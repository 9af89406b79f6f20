#!/bin/bash
# Builds every check against /repo's working tree.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/tools/build.sh"
mkdir -p "$HERE/evidence"
build_bin s01 || exit 1
(cd "$HERE/harness" && cargo build --offline -q --bins && cargo build --offline -q --release --bins) || exit 1
python3 "$HERE/tools/u04.py" build || exit 1
