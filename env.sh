# Sourced by setup.sh and check.sh: an offline cargo environment of our own.
export HOME="${HOME:-/root}"; [ -d "$HOME/.cargo" ] || export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_LOG RUST_BACKTRACE CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$VERIF"

# build CRATE VARIANT [cargo options]: builds the monitors from /repo's current working tree
build() {
  local crate="$1" target="$VERIF/$1/target$2" log rc sum
  shift 2
  mkdir -p "$target"
  exec 9>"$target/.verif-lock"
  flock 9
  # cargo goes by modification times; go by contents instead
  sum="$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
  if [ -f "$target/.verif-stamp" ] && [ "$(cat "$target/.verif-stamp")" != "$sum" ]; then
    (cd "$VERIF/$crate" && cargo clean --offline --release -p auburn --target-dir "$target") >/dev/null 2>&1
  fi
  rm -f "$target/.verif-stamp"
  log="$target/.verif-log"
  (cd "$VERIF/$crate" && cargo build --locked --offline --release --target-dir "$target" "$@") >"$log" 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then echo "no verdict: the monitors do not build against /repo:" >&2; grep -A8 -E "^error" "$log" | head -60 >&2; flock -u 9; return 2; fi
  echo "$sum" > "$target/.verif-stamp"
  flock -u 9
}

# variants GROUP: builds the programs of C30 that share one target directory, one after the other.
# Every program is auburn with some cargo features and a profile, kept under bin/.
variant_list() { # name | group | profile | features
  cat <<'L'
checked, default features|a|checked|
release, default features|b|release|
dev, default features|b|dev|
release, serde|a|release|serde
release, tilemap|a|release|tilemap
release, 3d|b|release|3d
release, logging|b|release|logging
dev, tilemap and 3d|a|dev|tilemap 3d
release, bevy|c|release|bevy
release, all features|c|release|serde tilemap 3d bevy logging
L
}
variants() {
  local group="$1" target="$VERIF/variants/target-$1" sum log name g profile features n=0 out rc
  mkdir -p "$target/bin"
  exec 9>"$target/.verif-lock"
  flock 9
  sum="$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$(cat "$target/.verif-stamp" 2>/dev/null)" != "$sum" ]; then
    for profile in dev release checked; do
      (cd "$VERIF/variants" && cargo clean --locked --offline --profile $profile -p auburn --target-dir "$target") >/dev/null 2>&1
    done
    echo "$sum" > "$target/.verif-stamp"
  fi
  log="$target/.verif-log"
  while IFS='|' read -r name g profile features; do
    n=$((n + 1))
    [ "$g" = "$group" ] || continue
    (cd "$VERIF/variants" && cargo build --locked --offline --profile "$profile" --features "$features" --target-dir "$target") >"$log" 2>&1 </dev/null
    rc=$?
    if [ $rc -ne 0 ]; then echo "no verdict: the build '$name' fails against /repo:" >&2; grep -A8 -E "^error" "$log" | head -60 >&2; flock -u 9; return 2; fi
    out="$profile"; [ "$profile" = dev ] && out=debug
    cp -f "$target/$out/auburn-variants" "$target/bin/$n" || { flock -u 9; return 2; }
  done < <(variant_list)
  flock -u 9
}
all_variants() {
  local p q r
  (variants a) & p=$!
  (variants b) & q=$!
  (variants c) & r=$!
  local rc=0
  for i in $p $q $r; do wait $i || rc=2; done
  return $rc
}

# watched TOOL: builds the program of C34 for one of the tools that watch it
watched() {
  local tool="$1" target="$VERIF/ub/target-$1" sum log rc
  local -a how
  mkdir -p "$target"
  exec 9>"$target/.verif-lock"
  flock 9
  sum="$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
  log="$target/.verif-log"
  export RUSTUP_TOOLCHAIN=nightly
  unset MIRIFLAGS
  cd "$VERIF/ub"
  if [ "$(cat "$target/.verif-stamp" 2>/dev/null)" != "$sum" ]; then
    for how in "--profile dev" "--profile watched"; do
      cargo clean --locked --offline $how -p auburn --target-dir "$target" >/dev/null 2>&1
      cargo clean --locked --offline $how -p auburn --target-dir "$target" --target x86_64-unknown-linux-gnu >/dev/null 2>&1
    done
  fi
  rm -f "$target/.verif-stamp"
  case "$tool" in
    miri) cargo miri run --locked --offline --target-dir "$target" -- work nothing 0 0 0 >"$log" 2>&1 ;;
    asan) RUSTFLAGS=-Zsanitizer=address cargo build --locked --offline --profile watched --target x86_64-unknown-linux-gnu --target-dir "$target" >"$log" 2>&1 ;;
    tsan) RUSTFLAGS=-Zsanitizer=thread cargo build --locked --offline --profile watched -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir "$target" >"$log" 2>&1 ;;
    msan) RUSTFLAGS=-Zsanitizer=memory cargo build --locked --offline --profile watched -Zbuild-std --target x86_64-unknown-linux-gnu --target-dir "$target" >"$log" 2>&1 ;;
  esac
  rc=$?
  if [ $rc -ne 0 ]; then echo "no verdict: the program for $tool does not build against /repo:" >&2; grep -A8 -E "^error" "$log" | head -60 >&2; flock -u 9; return 2; fi
  echo "$sum" > "$target/.verif-stamp"
  flock -u 9
}
all_watched() {
  local i rc=0 ps=()
  for i in miri asan tsan msan; do (watched $i) & ps+=($!); done
  (build ub "") & ps+=($!)
  for i in "${ps[@]}"; do wait $i || rc=2; done
  return $rc
}
