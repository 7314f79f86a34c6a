//go:build costscan

package main

import "bytes"

// costScanned returns the number of bytes searched by bytes.IndexByte.
func costScanned(reset bool) uint64 {
	if reset {
		bytes.VerifScanned = 0
	}
	return bytes.VerifScanned
}
