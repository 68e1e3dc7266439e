#!/bin/bash
# Build both profiles once, so that the checks only rebuild the library.
cd "$(dirname "$0")" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
bash ./build.sh dev "$tmp/a" && bash ./build.sh release "$tmp/b"
