# Sourced: build_bin <bin> sets BIN.  The library is rebuilt whenever the content of /repo differs
# from what the target directory was built from (file times alone are not trusted).
: "${HERE:?}"
REPO=/repo
repo_hash() {
  (cd "$REPO" && find src build.rs Cargo.toml README.md -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
build_bin() {
  local h t
  t="$HERE/harness/target"
  h=$(repo_hash)
  mkdir -p "$t"
  exec 9>"$t/.verif-lock"; flock 9
  if [ "$(cat "$t/.repo-hash" 2>/dev/null)" != "$h" ]; then
    (cd "$HERE/harness" && cargo clean --offline -q -p graph_safe_compare -p gsc-mc 2>/dev/null
     cargo clean --offline -q --release -p graph_safe_compare -p gsc-mc 2>/dev/null)
    echo "$h" > "$t/.repo-hash"
  fi
  if ! (cd "$HERE/harness" && cargo build --offline -q --bin "$1" 9>&-) >"$t/.build-log" 2>&1; then
    tail -60 "$t/.build-log" >&2
    return 1
  fi
  flock -u 9
  BIN="$t/debug/$1"; RELBIN="$t/release/$1"
}
# After build_bin.
build_release() {
  local t="$HERE/harness/target"
  if ! (cd "$HERE/harness" && cargo build --offline -q --release --bin "$1" 9>&-) >"$t/.build-log-release" 2>&1; then
    tail -60 "$t/.build-log-release" >&2
    return 1
  fi
}
