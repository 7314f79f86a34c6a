//go:build !maporder

package main

const mapOrderControlled = false

func mapOrder(seed, entry, dir uint64) {}
