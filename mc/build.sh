#!/bin/bash
# build.sh OUT plain|race: instrument /repo's working tree (plain) and build the
# model checker OUT/vmc or OUT/vmc-race.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
. /opt/vp/env.sh >/dev/null 2>&1 || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
if [ "$2" = plain ]; then
  mkdir -p "$out/src"
  (cd "$here/rewrite" && go build -o "$out/rewrite" .)
  "$out/rewrite" -src "${VMC_REPO:-/repo}" -out "$out/src"
  sed -E 's/^go [0-9.]+$/go 1.20/' "${VMC_REPO:-/repo}/go.mod" > "$out/src/go.mod"
  cp "${VMC_REPO:-/repo}/go.sum" "$out/src/go.sum"
  cp -r "$here/zz" "$out/src/zz"
  cd "$out/src"
  go build -o "$out/vmc" ./zz/harness
else
  cd "$out/src"
  m=$(go list -m)
  nr=()
  for p in vrt vsync vatomic vtime vctx vfmt vlog vsignal vlumber vioutil vfilepath vhttp vos vnet harness; do
    nr+=("-gcflags=$m/zz/$p=-race=false -l")
  done
  CGO_ENABLED=1 GOEXPERIMENT=nosizespecializedmalloc go build -race "${nr[@]}" -o "$out/vmc-race" ./zz/harness
fi
