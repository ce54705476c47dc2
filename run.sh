#!/bin/bash
# run.sh PROPERTY: builds the program that has the property's check from /repo's current tree and runs it.
# VERIF_TIER (quick, thorough) and VERIF_SEED choose depth and seed; further arguments go to the program.
cd "$(dirname "$0")" || exit 3
id=$1; shift
prog=
for d in harness/cmd/*/main.go; do
  if grep -q "\"$id\"" "$d"; then prog=$(basename "$(dirname "$d")"); fi
done
[ -n "$prog" ] || { echo "no check for $id" >&2; exit 3; }
./build.sh "cmd/$prog" "$prog" || { echo "build failed" >&2; exit 3; }
exec "${VERIF_BUILD:-$PWD/.build}/$prog" -property "$id" -root "$PWD" "$@"
