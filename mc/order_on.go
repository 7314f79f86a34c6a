//go:build maporder

package main

import "runtime"

// The overlay of tools/maporder.sh makes map iteration a controlled choice.
const mapOrderControlled = true

func mapOrder(seed, entry, dir uint64) { runtime.VerifMapOrder(seed, entry, dir) }
