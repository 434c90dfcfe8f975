#!/usr/bin/env bash
# check.sh <property> [replay <stream> <idx>]
# Builds the monitoring harness against /repo's working tree and runs one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
id="$1"; shift
if [ "$id" = C31 ]; then
  exec python3 "$here/c31.py" "$@"
fi
tgt="$here/target/main"
feat=()
if [ "$id" = C22 ]; then
  # the only check that needs the guarded hook of /repo
  export RUSTFLAGS="--cfg geokit_verif"
  tgt="$here/target/hooks"
  feat=(--features hooks)
fi
mkdir -p "$tgt" "$here/evidence"
log="$here/target/build-$id.log"
broken() {
  echo "BUILD-ERROR: $1" >&2
  tail -40 "$log" >&2
  exit 3
}
build() {
  (cd "$here/harness" && CARGO_TARGET_DIR="$tgt" cargo build --profile "$1" --offline --locked -q "${feat[@]}") >"$log" 2>&1 \
    || broken "the harness does not build against /repo"
}
# twice: with debug assertions and overflow checks, and as users build it
build release
build plain
if [ "$id" = C32 ]; then
  # the program itself, from the repository's own manifest and lock file
  (cd "$here/harness" && CARGO_TARGET_DIR="$here/target/bin" cargo build --release --offline --locked -q \
     --manifest-path /repo/Cargo.toml --bin sample_s2) >"$log" 2>&1 || broken "sample_s2 does not build"
  (cd "$here/harness" && CARGO_TARGET_DIR="$here/target/bin" cargo build --offline --locked -q \
     --manifest-path /repo/Cargo.toml --bin sample_s2) >"$log" 2>&1 || broken "sample_s2 does not build"
  export GK_SAMPLE_BIN="$here/target/bin/release/sample_s2"
fi
if [ "$#" -gt 0 ]; then
  # replay
  [ -n "${GK_PLAIN:-}" ] || exec "$tgt/release/gkmon" "$id" "$@"
  [ "$id" != C32 ] || export GK_SAMPLE_BIN="$here/target/bin/debug/sample_s2"
  exec "$tgt/plain/gkmon" "$id" "$@"
fi
unset GK_PLAIN GK_SCALE
"$tgt/release/gkmon" "$id"
rc=$?
if [ $rc = 0 ]; then
  # C32: the program, on the contrary, has been built as users do above, and with assertions here
  [ "$id" != C32 ] || export GK_SAMPLE_BIN="$here/target/bin/debug/sample_s2"
  out="$here/target/plain-$id.out"
  GK_PLAIN=1 GK_SCALE=0.5 "$tgt/plain/gkmon" "$id" >"$out"
  rc=$?
  if [ $rc = 0 ]; then grep -v "^KNOWN-FINDING\|^HELD" "$out"; else cat "$out"; fi
  python3 - "$here/evidence/$id.json" "$out" $rc <<'EOF' || exit 3
import json, re, sys
ev, out, rc = sys.argv[1:]
m = re.search(r"executions=(\d+) distinct_nontrivial=(\d+) oracle_checks=(\d+) wall=([\d.]+)s", open(out).read())
if m:
    e = json.load(open(ev))
    e["coverage"]["second_build"] = dict(
        what="the same streams with other seeds, half as many executions, in a build without debug assertions and overflow checks",
        evaluations=int(m[1]), distinct_nontrivial=int(m[2]), oracle_checks=int(m[3]), wall_s=float(m[4]))
    e["violations"] += rc != "0"
    with open(ev, "w") as f:
        json.dump(e, f, indent=1)
EOF
fi
case $rc in
  132|134|135|136|139)
    # SIGILL, SIGABRT (stack overflow, double panic), SIGBUS, SIGFPE, SIGSEGV: no safe program ends so
    mkdir -p "$here/evidence/replay"
    r="$here/evidence/replay/$id-crash.txt"
    echo "VERIF_SEED=$VERIF_SEED VERIF_TIER=$VERIF_TIER bash $here/check.sh $id: the monitored process died of signal $((rc - 128))" >"$r"
    cat "$r"
    echo "VIOLATION property=$id replay=$r"
    exit 1 ;;
esac
exit $rc
