//go:build !costscan

package main

func costScanned(reset bool) uint64 { return 0 }
