#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$R" || exit 2
export GODEBUG=goindex=0
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
{
  printf '{"Replace": {'
  sep=
  for f in "$D"/*_test.go; do
    printf '%s"%s": "%s"' "$sep" "$R/PKG/zz_demo_$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$T/overlay.json"
timeout 250 go test -vet=off FLAGS -overlay "$T/overlay.json" -run '^TestDemo$' -count=1 ./PKG
