#!/bin/bash
# replay.sh FILE: execute a recorded violation again, twice, and compare the event logs.
# Exit 1: it still happens, identically. Exit 0: it no longer does.
file=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
profile=$(sed -n 's/^# build //p' "$file" | head -1)
bash ./build.sh "${profile:-dev}" "$tmp/h3sim" || exit 2
"$tmp/h3sim" replay "$file" 2>/dev/null
