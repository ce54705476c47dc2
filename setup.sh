#!/bin/bash
# Builds every check's program once (a check builds again what /repo's tree needs).
cd "$(dirname "$0")" || exit 3
for d in harness/cmd/*/; do p=$(basename "$d"); ./build.sh "cmd/$p" "$p" || exit 1; done
