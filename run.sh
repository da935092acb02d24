#!/bin/bash
# run.sh <property> [--case group/index]: build the monitors from /repo's working tree and run one.
# Exit 0: held on everything observed. Exit 1 + VIOLATION line: broken. Other: the check has no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0
prop="$1"
crate=harness
bin=srmon
case "$prop" in
  P19) crate=harness_wasm; bin=srmon_wasm ;;
  P29) crate=harness_tty; bin=srmon_tty ;;
esac
export CARGO_TARGET_DIR="$VERIF_DIR/target/$crate"
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_DIR/replays" "$VERIF_DIR/evidence"
log="$CARGO_TARGET_DIR/build.log"
flags="--cfg sr_verif"
if [ "$crate" = harness_wasm ]; then
  # with a stand-in for the JavaScript host, if it fits the tree; the parts of the bindings alone otherwise
  RUSTFLAGS="$flags --cfg sr_verif_host" cargo build --release --offline --manifest-path "$VERIF_DIR/$crate/Cargo.toml" >"$log.host" 2>&1 \
    && flags="$flags --cfg sr_verif_host"
fi
if ! RUSTFLAGS="$flags" cargo build --release --offline --manifest-path "$VERIF_DIR/$crate/Cargo.toml" >"$log" 2>&1; then
  # The hooks may not fit a changed tree: what needs only the public interface is still monitored without them.
  case "$prop" in
    P06|P13|P18|P19|P20|P22|P23|P24|P12|P27|P28|build|"") ;;
    *)
      flags=""
      export CARGO_TARGET_DIR="$VERIF_DIR/target/nohooks"
      mkdir -p "$CARGO_TARGET_DIR"
      echo "the hooks do not build against /repo: monitoring the public interface only" ;;
  esac
  if [ -n "$flags" ] || ! cargo build --release --offline --no-default-features --manifest-path "$VERIF_DIR/$crate/Cargo.toml" >"$log.nohooks" 2>&1; then
    tail -40 "$log"
    echo "BUILD-FAILED: the monitors do not build against /repo"
    exit 2
  fi
fi
if [ "$prop" = P17 ] || [ "$prop" = build ]; then
  # User code that selects operators through the exported macro: it must compile and select them.
  plog="$CARGO_TARGET_DIR/probe.log"
  RUSTFLAGS="$flags" cargo run --release --offline --manifest-path "$VERIF_DIR/probe/Cargo.toml" >"$plog.out" 2>"$plog"
  got="$(sort "$plog.out" | tr '\n' ';')"
  if [ "$prop" = P17 ] && [ "$got" != "1 cos;1 neg;2 add;2 mul;3 fma;" ]; then
    rep="$VERIF_DIR/replays/P17-probe.txt"
    { echo "property: P17"; echo "operators selected through sr_ops!: $got"; tail -30 "$plog"; } >"$rep"
    tail -20 "$plog"
    echo "VIOLATION property=P17 replay=$rep"
    exit 1
  fi
fi
if [ "$prop" = build ] || [ -z "$prop" ]; then
  RUSTFLAGS="$flags --cfg sr_verif_host" CARGO_TARGET_DIR="$VERIF_DIR/target/harness_wasm" cargo build --release --offline \
    --manifest-path "$VERIF_DIR/harness_wasm/Cargo.toml" >>"$log" 2>&1 || { tail -40 "$log"; exit 2; }
  RUSTFLAGS="$flags" CARGO_TARGET_DIR="$VERIF_DIR/target/harness_tty" cargo build --release --offline \
    --manifest-path "$VERIF_DIR/harness_tty/Cargo.toml" >>"$log" 2>&1 || { tail -40 "$log"; exit 2; }
  exit 0
fi
# Hostile workloads again under a sanitizer (P23): a report of it is the violation.
started=$SECONDS
stage() { # name sanitizer toolchain cargo-args rustflags
  local st="$1" dir="$VERIF_DIR/target/san_$1" out err rc budget=560
  [ "${VERIF_TIER:-quick}" = thorough ] && budget=3000
  out="$CARGO_TARGET_DIR/stage.$st"; err="$CARGO_TARGET_DIR/stage.$st.err"
  rm -f "$out"
  if [ $((SECONDS - started)) -gt "$budget" ]; then echo "stage $st: skipped, out of time"; return 0; fi
  if [ "$st" = miri ]; then
    SRMON_STAGE=miri RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="$flags" CARGO_TARGET_DIR="$dir" \
      MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-permissive-provenance" \
      timeout 1500 cargo miri run --offline --manifest-path "$VERIF_DIR/harness_san/Cargo.toml" >"$out" 2>"$err"
    rc=$?
  else
    if ! RUSTUP_TOOLCHAIN="$3" RUSTFLAGS="$flags -Zsanitizer=$2 $5" CARGO_TARGET_DIR="$dir" timeout 400 cargo build --release --offline $4 \
      --target x86_64-unknown-linux-gnu --manifest-path "$VERIF_DIR/harness_san/Cargo.toml" >"$err" 2>&1; then
      tail -5 "$err"; echo "stage $st: skipped, it does not build"; return 0
    fi
    SRMON_STAGE="$st" ASAN_OPTIONS=detect_leaks=0:exitcode=87 TSAN_OPTIONS=halt_on_error=1:exitcode=87 MSAN_OPTIONS=exitcode=87 \
      timeout 1500 "$dir/x86_64-unknown-linux-gnu/release/srmon_san" >"$out" 2>"$err"
    rc=$?
  fi
  sed -n "s/^/$st: /;1,1p" "$out"
  if [ $rc = 1 ] && grep -q "^VIOLATION" "$out"; then cat "$out"; return 1; fi
  if grep -q "ERROR: AddressSanitizer\|WARNING: ThreadSanitizer: data race\|WARNING: MemorySanitizer\|error: Undefined Behavior\|error: Data race" "$err"; then
    local rep="$VERIF_DIR/replays/P23-$st.txt"
    { echo "property: P23"; grep -m1 -A60 "ERROR: AddressSanitizer\|WARNING: ThreadSanitizer\|WARNING: MemorySanitizer\|error: Undefined\|error: Data race" "$err"
      echo "replay: VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} /verif/run.sh P23"; } >"$rep"
    head -12 "$rep"
    echo "VIOLATION property=P23 replay=$rep"
    return 1
  fi
  [ $rc = 0 ] || { tail -3 "$err"; echo "stage $st: no answer (status $rc)"; rm -f "$out"; }
  return 0
}

"$CARGO_TARGET_DIR/release/$bin" "$@" 2>"$CARGO_TARGET_DIR/stderr.$prop"
rc=$?
if [ "$prop" = P23 ] && [ $rc = 0 ] && [ $# = 1 ]; then
  stage asan address nightly-2025-12-19 "" "" || exit 1
  stage msan memory nightly -Zbuild-std -Zsanitizer-memory-track-origins || exit 1
  stage tsan thread nightly -Zbuild-std "" || exit 1
  if [ "${VERIF_TIER:-quick}" = thorough ]; then stage miri || exit 1; fi
  python3 "$VERIF_DIR/tools/stages.py" "$VERIF_DIR/evidence/P23.json" "$CARGO_TARGET_DIR" asan msan tsan miri
fi
case $rc in
  0|1) exit $rc ;;
  132|134|135|136|139)
    # The process itself died: stack overflow, abort or memory fault while driving the code under test.
    rep="$VERIF_DIR/replays/$prop-crash.txt"
    { echo "property: $prop"; echo "the monitored process died with status $rc"; tail -30 "$CARGO_TARGET_DIR/stderr.$prop"
      echo "replay: VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} /verif/run.sh $*"; } >"$rep"
    tail -5 "$CARGO_TARGET_DIR/stderr.$prop"
    echo "VIOLATION property=$prop replay=$rep"
    exit 1 ;;
  *) tail -20 "$CARGO_TARGET_DIR/stderr.$prop"; exit $rc ;;
esac
