#!/bin/bash
# check.sh PROPERTY quick|thorough            decides the property on /repo's current tree
# check.sh PROPERTY --replay FILE             runs the single case of a violation again
# exit 0: held on everything observed; 1: VIOLATION printed; 2: no verdict
. "$(dirname "$0")/env.sh"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
unset VERIF_PART_EVIDENCE VERIF_EVIDENCE_FILE VERIF_LOG_BIN VERIF_VARIANTS VERIF_SCRATCH
mkdir -p "$VERIF/evidence"
ARGS=("$ID" "$TIER")
if [ "$TIER" = "--replay" ]; then
  mapfile -t ARGS < <(python3 - "$3" <<'P'
import json, sys
d = json.load(open(sys.argv[1]))
for k in ("property", "tier", "seed", "stream", "index"): print(d[k])
P
)
  [ "${#ARGS[@]}" = 5 ] || { echo "no verdict: cannot read $3" >&2; exit 2; }
fi
run() { # run CRATE BINARY
  timeout -k 5 3000 "$VERIF/$1/target/release/$2" "${ARGS[@]}"
  local rc=$?
  [ $rc -le 1 ] && return $rc
  echo "no verdict: $2 ended with $rc" >&2
  return 2
}
TWO="auburn-monitors"; THREE="auburn-monitors-3d"
case "$ID" in
  C27|C28|C29|C36)
    build harness3d "" || exit 2
    run harness3d $THREE; exit $? ;;
  C18)
    build harness "" && build harness -log --features logging && build harness3d "" && build harness3d -log --features logging || exit 2
    part="$VERIF/evidence/parts/C18-3d.json"
    mkdir -p "$VERIF/evidence/parts"
    if [[ "${ARGS[3]:-}" != 2d* ]]; then
      VERIF_LOG_BIN="$VERIF/harness3d/target-log/release/$THREE" VERIF_EVIDENCE_FILE="$part" run harness3d $THREE
      a=$?
      [ $a = 2 ] && exit 2
      [[ "${ARGS[3]:-}" = 3d* ]] && exit $a
    else a=0; fi
    VERIF_LOG_BIN="$VERIF/harness/target-log/release/$TWO" VERIF_PART_EVIDENCE="$part" run harness $TWO
    b=$?
    if [ $a = 1 ] || [ $b = 1 ]; then exit 1; fi
    exit $b ;;
  C30)
    all_variants || exit 2
    n=0; list=""
    while IFS='|' read -r name g _; do n=$((n + 1)); list+="$name=$VERIF/variants/target-$g/bin/$n"$'\n'; done < <(variant_list)
    export VERIF_VARIANTS="$list"
    VERIF_SCRATCH="$(mktemp -d)"; export VERIF_SCRATCH
    timeout -k 5 3000 "$VERIF/variants/target-a/bin/1" "${ARGS[@]}"
    rc=$?
    rm -rf -- "$VERIF_SCRATCH"
    [ $rc -le 1 ] && exit $rc
    echo "no verdict: the monitor ended with $rc" >&2
    exit 2 ;;
  C34)
    all_watched || exit 2
    VERIF_SCRATCH="$(mktemp -d)"; export VERIF_SCRATCH
    (unset RUSTUP_TOOLCHAIN; VERIF_SANITIZED=1 run ub auburn-ub)
    rc=$?
    rm -rf -- "$VERIF_SCRATCH"
    exit $rc ;;
  *)
    build harness "" || exit 2
    run harness $TWO; exit $? ;;
esac
