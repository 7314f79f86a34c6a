package main

import "strconv"

// C31: a 32-bit platform. check.sh builds this check with GOARCH=386, so that
// int, uint, uintptr and pointers have 32 bits, and the spaces of other checks
// are enumerated again; encoding/json, built for the same platform, is the model.

func init() {
	register(&check{
		id:   "C31",
		rule: "the spaces of the checks of encoding, decoding, struct fields, numbers, strings and tokens, enumerated in a process with 32-bit ints and pointers (GOARCH=386), with the encoding/json of that platform as the model",
		run:  runC31})
}

func runC31(c *C) {
	if strconv.IntSize != 32 {
		panic("C31 needs a 32-bit build")
	}
	ids := []string{"C01", "C20", "C10", "C25", "C22", "C23", "C19", "C28"}
	if c.thorough {
		ids = append(ids, "C02", "C18", "C09", "C05", "C07", "C08", "C11", "C16", "C13", "C12", "C14", "C15", "C24", "C06", "C29", "C04", "C17", "C03")
	}
	th := c.thorough
	c.thorough = false
	for _, id := range ids {
		n := c.n
		checks[id].run(c)
		c.res.Bounds = c.res.Bounds[:0]
		c.Count("cases_of_"+id, 0)
		if c.shard == 0 {
			c.Count("cases_of_"+id, int(c.n-n))
		}
	}
	c.thorough = th
	c.Bound("with 32-bit ints: the spaces of %v at their quick bounds", ids)
}
