package main

import (
	"encoding/json"
	"fmt"
)

// Alphabets shared by the checks.

// structural tokens for token-level enumerations
var tokAlphabet = []string{"{", "}", "[", "]", ",", ":", `"a"`, `1`, `null`, " ", `"b"`, `true`, `-0.5e1`, `x`}

// seqs calls f with every sequence over 0..k-1 of length exactly n.
func seqs(k, n int, f func(s []int)) {
	s := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(s)
			return
		}
		for v := 0; v < k; v++ {
			s[i] = v
			rec(i + 1)
		}
	}
	rec(0)
}

// product calls f with every index vector below dims.
func product(dims []int, f func(ix []int)) {
	ix := make([]int, len(dims))
	var rec func(i int)
	rec = func(i int) {
		if i == len(dims) {
			f(ix)
			return
		}
		for v := 0; v < dims[i]; v++ {
			ix[i] = v
			rec(i + 1)
		}
	}
	rec(0)
}

// batches enumerates all strings of length lo..hi over the alphabet; the first
// pre symbols form a case, the rest is enumerated inside of it.
func (c *C) batches(name string, alphabet []string, lo, hi, pre int, wrap func(s string) string, f func(text string)) {
	for n := lo; n <= hi; n++ {
		p := pre
		if p > n {
			p = n
		}
		seqs(len(alphabet), p, func(s []int) {
			head := ""
			for _, v := range s {
				head += alphabet[v]
			}
			c.Case(func() string {
				return fmt.Sprintf("%s: all texts of %d symbols starting with %q", name, n, wrap(head))
			}, func() {
				buf := make([]byte, 0, 256)
				var rec func(b []byte, left int)
				rec = func(b []byte, left int) {
					if left == 0 {
						f(wrap(string(b)))
						return
					}
					for _, a := range alphabet {
						rec(append(b, a...), left-1)
					}
				}
				rec(append(buf, head...), n-p)
			})
		})
	}
	c.Bound("%s: all sequences of %d..%d symbols over %d symbols", name, lo, hi, len(alphabet))
}

func same(s string) string { return s }

// edits returns every text that differs from s by deleting one byte, replacing
// or inserting one byte of the alphabet, or truncating.
func edits(s string, alphabet string, f func(string)) {
	for i := 0; i <= len(s); i++ {
		f(s[:i])
		if i < len(s) {
			f(s[:i] + s[i+1:])
		}
		for j := 0; j < len(alphabet); j++ {
			f(s[:i] + alphabet[j:j+1] + s[i:])
			if i < len(s) && s[i] != alphabet[j] {
				f(s[:i] + alphabet[j:j+1] + s[i+1:])
			}
		}
	}
}

func stdValid(s string) bool { return json.Valid([]byte(s)) }

func rep(s string, n int) string {
	b := make([]byte, 0, len(s)*n)
	for i := 0; i < n; i++ {
		b = append(b, s...)
	}
	return string(b)
}
