#!/bin/bash
# check.sh <PROPERTY> <quick|thorough>   decide one property on /repo's working tree
# check.sh replay <FILE>                 re-run a saved reproduction
# check.sh build                         build every harness flavour
# Exit: 0 held on everything explored, 1 violation (prints VIOLATION), 2 the check itself failed.
. "$(dirname "$(readlink -f "$0")")/env.sh"
mkdir -p "$VERIF_ROOT/build" "$VERIF_ROOT/evidence" "$VERIF_ROOT/replays"

build() { # flavour
  exec 9>"$VERIF_ROOT/build/lock.$1"
  flock 9
  if ! "$VERIF_ROOT/b.sh" "$1" >"$VERIF_ROOT/build/$1.log" 2>&1; then
    echo "ERROR: building the $1 harness failed" >&2
    tail -40 "$VERIF_ROOT/build/$1.log" >&2
    exit 2
  fi
  flock -u 9
}
bin() {
  echo "$VERIF_ROOT/$1/target/release/v$1"
}

case "$1" in
build)
  for f in plain sched; do build $f; done
  exit 0 ;;
replay)
  f=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["flavor"])' "$2") || exit 2
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
  build "$f"
  exec "$(bin "$f")" --prop "$p" --replay "$(readlink -f "$2")" ;;
esac

prop="$1"; tier="${2:-quick}"; seed="${VERIF_SEED:-1}"
flavors=$(python3 - "$prop" <<'P'
import json, os, sys
for l in open(os.path.join(os.environ["VERIF_ROOT"], "flavors.txt")):
    w = l.split()
    if w and w[0] == sys.argv[1]:
        print(" ".join(w[1:]))
P
)
if [ -z "$flavors" ]; then echo "unknown property $prop" >&2; exit 2; fi
rm -f "$VERIF_ROOT/evidence/$prop.json"
rc=0
parts=()
for f in $flavors; do
  build "$f"
  part="$VERIF_ROOT/build/$prop.$f.part.json"
  rm -f "$part"
  "$(bin "$f")" --prop "$prop" --tier "$tier" --seed "$seed" --part "$part"
  r=$?
  [ -f "$part" ] && parts+=("$part")
  if [ $r -ne 0 ]; then rc=$r; break; fi
done
python3 "$VERIF_ROOT/tools/merge_evidence.py" "$prop" "$tier" "$seed" "$rc" "${parts[@]}" || { [ $rc -eq 0 ] && rc=2; }
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
