#!/bin/bash
# check.sh <property> [quick|thorough]: build the harness against /repo's working tree, explore, report.
. "$(dirname "$0")/env.sh"
cd "$VERIF_ROOT" || exit 2
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
case "$id" in
  C0[1-9]|C2[01]) crate=h_intl ;;
  C1[0-3]|C22) crate=h_parser ;;
  C1[4-9]) crate=h_gen ;;
  C2[34]) crate=h_env ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
mkdir -p evidence
log="$(mktemp)"
if ! cargo build --release --offline --locked --manifest-path "$crate/Cargo.toml" >"$log" 2>&1; then
  echo "ERROR: harness for $id does not build against /repo" >&2; grep -E '^error' -A12 "$log" | head -60 >&2; rm -f "$log"; exit 2
fi
rm -f "$log"
rm -f "evidence/$id.json"
"$CARGO_TARGET_DIR/release/$crate" "$id" "$tier"
rc=$?
case $rc in
  0|1) exit $rc ;;
  132|134|136|138|139)
    # The explorers never end this way by themselves: the code under test brought the process down
    # (stack overflow, abort, illegal access).
    mkdir -p evidence/replays; replay="$VERIF_ROOT/evidence/replays/$id-crash.json"
    printf '{"problem": "the code under test ends the process with signal %d", "command": "./check.sh %s %s"}\n' $((rc-128)) "$id" "$tier" > "$replay"
    printf '{"property": "%s", "tier": "%s", "seed": %d, "level": "model_checking", "wall_s": 0, "violations": 1, "coverage": {"exhaustive": false, "samples": ["process ended by signal %d"]}}\n' "$id" "$tier" "${VERIF_SEED:-0}" $((rc-128)) > "evidence/$id.json"
    echo "VIOLATION property=$id replay=$replay"; exit 1 ;;
  *) echo "ERROR: engine for $id ended with status $rc" >&2; exit 2 ;;
esac
