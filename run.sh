#!/bin/bash
# usage: run.sh <PROPERTY> <quick|thorough>   builds the check against /repo's working tree and runs it
# (U05 is about the checked build; U03 counts on the generators, 10^10 draws.)
# Two passes: the build with debug assertions and overflow checks, then the release build (quick: graphs of one
# node fewer; thorough: the spaces of quick), so that neither hides what the other shows.
set -u
ID=$1; TIER=${2:-quick}
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1} VERIF_OUT=${VERIF_OUT:-$HERE/evidence}
export MALLOC_MMAP_THRESHOLD_=1073741824 MALLOC_TRIM_THRESHOLD_=1073741824 MALLOC_TOP_PAD_=67108864
mkdir -p "$VERIF_OUT"
rm -f "$VERIF_OUT/$ID.json"
if [ -x "$HERE/tools/${ID,,}.sh" ]; then exec "$HERE/tools/${ID,,}.sh"; fi
. "$HERE/tools/build.sh"
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
build_bin "$bin" || { echo "the check of $ID cannot be built against this tree" >&2; exit 3; }
ulimit -v 27000000 2>/dev/null
case $ID in U03|U05) exec "$BIN";; esac
build_release "$bin" & rel=$!
"$BIN"; rc=$?
if [ $rc != 0 ]; then wait $rel; exit $rc; fi
wait $rel || { echo "the release build of the check of $ID fails against this tree" >&2; exit 3; }
out=$VERIF_OUT/release
mkdir -p "$out"; rm -f "$out/$ID.json"
echo "release build:"
if [ "$TIER" = quick ]; then export GSC_PASS=smaller; fi
VERIF_TIER=quick VERIF_OUT=$out "$RELBIN"; rc=$?
python3 "$HERE/tools/merge.py" "$VERIF_OUT/$ID.json" "$out/$ID.json"
exit $rc
