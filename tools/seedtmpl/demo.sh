#!/bin/bash
# Runs demo.go against the tree in the current directory: exit 0 if it behaves, 1 if not.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap '/bin/rm -rf "$d"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=$d/cache
mkdir -p "$d/m" "$d/oh" "$d/tmp"
cp "$here"/*.go "$d/m/"
mv "$d/m/objecthash.go" "$d/oh/"
echo "module github.com/continusec/objecthash" > "$d/oh/go.mod"
{
  echo "module demo"
  sed -e '/^module /d' -e '/^toolchain /d' -e '/continusec\/objecthash/d' "$repo/go.mod"
  echo "require github.com/continusec/verifiabledatastructures v0.0.0"
  echo "require github.com/continusec/objecthash v0.0.0"
  echo "replace github.com/continusec/verifiabledatastructures => $repo"
  echo "replace github.com/continusec/objecthash => $d/oh"
} > "$d/m/go.mod"
cp "$repo/go.sum" "$d/m/go.sum"
cd "$d/m" && go build -o ../demo . || exit 3
cd "$d/tmp" && timeout 120 ../demo
