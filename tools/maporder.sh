#!/bin/bash
# maporder.sh DIR: writes DIR/overlay.json, a build overlay of the Go runtime that
# replaces the random choices of its maps (hash seed, start of an iteration) by
# variables, which runtime.VerifMapOrder sets. Map iteration becomes a controlled
# choice, and every execution repeats exactly.
set -e
src=$(go env GOROOT)/src
m=$src/internal/runtime/maps
d=$1
mkdir -p "$d"
[ "$(grep -c 'uintptr(rand())' $m/map.go)" -ge 3 ]
[ "$(grep -c 'entryOffset = rand()' $m/table.go)" = 1 ]
[ "$(grep -c 'dirOffset = rand()' $m/table.go)" = 1 ]
[ "$(grep -c 'hashkey\[i\] = uintptr(bootstrapRand())' $src/runtime/alg.go)" = 1 ]
[ "$(grep -c '	key\[i\] = bootstrapRand()' $src/runtime/alg.go)" = 1 ]
sed 's/uintptr(rand())/uintptr(VerifSeed)/' $m/map.go > "$d/map.go"
sed -e 's/entryOffset = rand()/entryOffset = VerifEntry/' -e 's/dirOffset = rand()/dirOffset = VerifDir/' $m/table.go > "$d/table.go"
sed -e 's/hashkey\[i\] = uintptr(bootstrapRand())/hashkey[i] = uintptr(0x9e3779b97f4a7c15)/' \
  -e 's/	key\[i\] = bootstrapRand()/	key[i] = 0x9e3779b97f4a7c15 * uint64(i+1)/' $src/runtime/alg.go > "$d/alg.go"
cat > "$d/verif.go" <<'X'
package maps

var (
	VerifSeed  uint64 = 0x12345
	VerifEntry uint64
	VerifDir   uint64
)
X
cat > "$d/rverif.go" <<'X'
package runtime

import "internal/runtime/maps"

// VerifMapOrder sets the choices made by maps from now on.
func VerifMapOrder(seed, entry, dir uint64) {
	maps.VerifSeed, maps.VerifEntry, maps.VerifDir = seed, entry, dir
}
X
cat > "$d/overlay.json" <<X
{"Replace": {
"$m/map.go": "$d/map.go",
"$m/table.go": "$d/table.go",
"$m/verif.go": "$d/verif.go",
"$src/runtime/alg.go": "$d/alg.go",
"$src/runtime/verif.go": "$d/rverif.go"
}}
X
