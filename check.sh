#!/bin/bash
# check.sh <property> <quick|thorough>   build from /repo's working tree, run one check
# check.sh replay <file>                 re-run a recorded violation
# check.sh setup                         build only
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
unset NO_COLOR FORCE_COLOR
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
bin=$here/.build
mkdir -p "$bin" "$here/evidence"
out=$bin/mc.$$
trap 'rm -rf "$out" "$out.cov"' EXIT
build() {
  # The module is built from a scratch copy so that go never rewrites committed files.
  local w; w=$(mktemp -d)
  cp -r "$here"/mc/*.go "$here"/mc/c21 "$here"/mc/go.mod "$w"/ && cat "$here"/mc/go.sum /repo/go.sum 2>/dev/null | sort -u > "$w"/go.sum
  # Map iteration is a controlled choice, see tools/maporder.sh.
  if [ -n "$COST" ]; then
    # C33 counts the statements that are executed.
    local cover="-cover -covermode=atomic -coverpkg=./...,github.com/neilotoole/jsoncolor,bytes,strings,unicode/utf8,encoding/base64"
    if "$here"/tools/maporder.sh "$w/overlay" > "$bin/overlay.log" 2>&1 && "$here"/tools/costscan.sh "$w/overlay" >> "$bin/overlay.log" 2>&1 &&
      (cd "$w" && go build -trimpath $cover -tags maporder,costscan -overlay "$w/overlay/overlay.json" -o "$out" . ) > "$bin/build.log" 2>&1
    then rm -rf "$w"; return 0; fi
    (cd "$w" && go build -trimpath $cover -o "$out" . ) > "$bin/build.log" 2>&1
    local rc=$?
    rm -rf "$w"
    return $rc
  fi
  if [ "$GOARCH" != 386 ] && "$here"/tools/maporder.sh "$w/overlay" > "$bin/overlay.log" 2>&1 &&
    (cd "$w" && go build -trimpath -tags maporder -overlay "$w/overlay/overlay.json" -o "$out" . ) > "$bin/build.log" 2>&1
  then rm -rf "$w"; return 0; fi
  (cd "$w" && go build -trimpath -o "$out" . ) > "$bin/build.log" 2>&1
  local rc=$?
  rm -rf "$w"
  return $rc
}
# C31 is about platforms with 32-bit ints.
if [ "$1" = C31 ] || { [ "$1" = replay ] && grep -q '"property": "C31"' "$2"; }; then export GOARCH=386; fi
if [ "$1" = C33 ] || { [ "$1" = replay ] && grep -q '"property": "C33"' "$2"; }; then export COST=1 GOCOVERDIR=$out.cov; mkdir -p "$GOCOVERDIR"; fi
case "$1" in
setup) build || { cat "$bin/build.log"; exit 1; }
  GOARCH=386 build || { cat "$bin/build.log"; exit 1; }
  COST=1 build || { cat "$bin/build.log"; exit 1; }
  exit 0;;
esac
if ! build; then
  cat "$bin/build.log"
  echo "build of the check failed"
  exit 2
fi
if [ "$1" = replay ]; then "$out" replay "$2"; exit; fi
"$out" run "$1" "${2:-quick}"
exit
