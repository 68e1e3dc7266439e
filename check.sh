#!/bin/bash
# check.sh PROPERTY [quick|thorough]: simulate, exit 0 (held), 1 (violated) or 2 (no answer).
cd "$(dirname "$0")" || exit 2
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p evidence replays
run() { # profile seconds evidence-file
  bash ./build.sh "$1" "$tmp/h3sim-$1" || exit 2
  "$tmp/h3sim-$1" check "$prop" --tier "$tier" --seed "$seed" --secs "$2" --config "$1" \
    --out /verif/replays --evidence "$3" --known known_findings.txt 2>"$tmp/err"
  local rc=$?
  if [ $rc -gt 1 ]; then tail -40 "$tmp/err" >&2; fi
  return $rc
}
if [ "$tier" = thorough ]; then
  # as shipped first (wrapping arithmetic), then as developers and tests build it
  run release "${VERIF_SECS:-200}" "$tmp/release.json" || exit $?
  run dev "${VERIF_SECS:-480}" "evidence/$prop.json" || exit $?
else
  run dev "${VERIF_SECS:-60}" "evidence/$prop.json" || exit $?
fi
exit 0
