#!/bin/bash
# build.sh PKG OUT: compiles harness program PKG with /repo's current working tree, instrumented.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$here/.build}
mkdir -p "$B" || exit 3
exec 9>"$B/lock"; flock 9
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GONOSUMDB=* GONOSUMCHECK=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0
export GOCACHE=${VERIF_GOCACHE:-$B/gocache}
GOROOT=$(go env GOROOT)
# module file: /repo's requirements, without the toolchain line and the module that cannot be had
{
  echo "module verifsim"
  sed -e '/^module /d' -e '/^toolchain /d' -e '/continusec\/objecthash/d' "$repo/go.mod"
  echo "require github.com/continusec/verifiabledatastructures v0.0.0"
  echo "require github.com/continusec/objecthash v0.0.0"
  echo "replace github.com/continusec/verifiabledatastructures => $repo"
  echo "replace github.com/continusec/objecthash => $here/stubs/objecthash"
  echo "replace go.etcd.io/bbolt => $B/gen/bbolt"
  echo "replace github.com/jackc/puddle/v2 => $B/gen/puddle"
  echo "replace github.com/jackc/pgx/v5 => $B/gen/pgx"
  echo "replace golang.org/x/sync => $B/gen/xsync"
  echo "replace github.com/dgraph-io/badger => $B/gen/badger"
} > "$B/go.mod.new"
cmp -s "$B/go.mod.new" "$B/go.mod.in" || { cp "$B/go.mod.new" "$B/go.mod.in"; cp "$B/go.mod.new" "$B/go.mod"; cp "$repo/go.sum" "$B/go.sum"; }
puddle=$(awk '$1=="github.com/jackc/puddle/v2"{print $2}' "$repo/go.mod")
xsync=$(awk '$1=="golang.org/x/sync"{print $2}' "$repo/go.mod")
pgx=$(awk '$1=="github.com/jackc/pgx/v5"{print $2}' "$repo/go.mod")
badger=$(awk '$1=="github.com/dgraph-io/badger"{print $2}' "$repo/go.mod")
bolt=$(awk '$1=="go.etcd.io/bbolt"{print $2}' "$repo/go.mod")
(cd "$here/harness/instrument" && GO111MODULE=off GOFLAGS= go build -o "$B/instrument" main.go) || exit 3
rm -rf "$B/gen.new"; mkdir -p "$B/gen.new"
"$B/instrument" -repo "$repo" -out "$B/gen.new" -overlay "$B/overlay.new" -bolt "$GOMODCACHE/go.etcd.io/bbolt@$bolt" -boltstub "$here/harness/rt/boltstub" -badger "$GOMODCACHE/github.com/dgraph-io/badger@$badger" -badgerstub "$here/harness/rt/badgerstub" -pool "pgx=$GOMODCACHE/github.com/jackc/pgx/v5@$pgx,puddle=$GOMODCACHE/github.com/jackc/puddle/v2@$puddle,xsync=$GOMODCACHE/golang.org/x/sync@$xsync" -goroot "$GOROOT" > "$B/instrument.log" 2>&1 || { cat "$B/instrument.log"; exit 3; }
sed "s#$B/gen.new#$B/gen#g" "$B/overlay.new" > "$B/overlay.json"
rm -rf "$B/gen"; mv "$B/gen.new" "$B/gen"
cd "$here/harness" || exit 3
GOEXPERIMENT=synctest go build -modfile="$B/go.mod" -overlay="$B/overlay.json" -o "$B/$2.tmp$$" "./$1" || exit 3
mv "$B/$2.tmp$$" "$B/$2"
