#!/bin/bash
# check.sh <property> [--case N | --scale X]: rebuilds the monitors from /repo's working tree and runs one.
# exit 0: held on everything observed; 1: VIOLATION line printed; 2: build failed; 3: inconclusive.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export VERIF_KNOWN=$PWD/known_findings.txt
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
id=$1; shift
case $id in
C31|C32|C33|C35)
  exec timeout -k 10 860 python3 pymon/run.py "$id" "$@" ;;
esac
mkdir -p harness/target evidence
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! (cd harness && cargo build --release --offline --locked) >"$log" 2>&1; then
  grep -E '^error' -A6 "$log" | head -60
  echo "BUILD FAILED for $id"
  exit 2
fi
case $id in
C29) timeout -k 10 860 python3 tools/sanitize.py "$@" ;;
C30) timeout -k 10 860 python3 tools/builds.py "$@" ;;
*)   timeout -k 10 640 ./harness/target/release/ellmon "$id" --out evidence "$@"
     rc=$?
     if [ $rc -eq 0 ] && [ $# -eq 0 ]; then # whole runs also observe the build a user ships
       timeout -k 10 240 python3 tools/plain.py "$id" 0.3
     else
       (exit $rc)
     fi ;;
esac
rc=$?
[ $rc -eq 124 ] && exit 3
exit $rc
