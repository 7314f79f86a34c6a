// Package verifsched is the cooperative scheduler of check C21. The instrumented
// copy of the package calls Y before every statement; exactly one thread runs
// at a time and the scheduler decides at those points who continues.
//
// Hand-offs are plain memory accesses in functions the race detector does not
// see, so that the scheduler adds no happens-before edges of its own: only the
// synchronisation of the code under test orders its accesses. The process must
// run with GOMAXPROCS=1.
package verifsched

import (
	"fmt"
	"runtime"
	"sync"
	"time"
)

// Ready is what a blocked thread waits for.
type Ready interface{ Ready() bool }

// Config bounds an exploration.
type Config struct {
	Preempt int  // preemptions allowed in one execution
	Fine    bool // every statement is a scheduling point; otherwise visible operations only
	First   int  // thread that starts
	Lifo    int  // pool discipline: 0 last in first out, 1 first in first out, 2 always new
}

// Exec is the outcome of one execution.
type Exec struct {
	Steps    int64
	Points   int64 // scheduling points with more than one enabled thread
	Deadlock bool
	Stuck    bool // a thread blocked outside the scheduler
	Livelock bool
	Diverged int      // choices that could not be replayed
	Panics   []string // by thread, "" if it returned
}

const maxThreads = 4

type thread struct {
	done bool
	wait Ready
}

var (
	active   bool
	abort    bool
	turn     int // index of the running thread; -1: the controller
	n        int
	threads  [maxThreads]thread
	cfg      Config
	left     int // preemptions left
	steps    int64
	slice    int64 // steps since the last switch
	points   int64
	dead     bool
	live     bool
	diverged int

	trail   [1 << 20]uint8 // choices taken
	options [1 << 20]uint8 // how many there were
	given   int            // length of the prefix to replay
	pos     int
)

const (
	maxSlice = 2000000 // a thread that runs this long without finishing must let others run
	maxSteps = 20000000
)

type aborted struct{}

// Mode returns the pool discipline.
//
//go:norace
func Mode() int { return cfg.Lifo }

// Active reports whether a controlled execution is under way.
//
//go:norace
func Active() bool { return active }

// Y is a scheduling point before an ordinary statement.
//
//go:norace
func Y() {
	if !active {
		return
	}
	steps++
	slice++
	if abort {
		panic(aborted{})
	}
	if slice > maxSlice {
		fair()
		return
	}
	if cfg.Fine && left > 0 {
		preempt()
	}
}

// V is a scheduling point at a visible operation.
//
//go:norace
func V() {
	if !active {
		return
	}
	steps++
	slice++
	if abort {
		panic(aborted{})
	}
	if slice > maxSlice {
		fair()
		return
	}
	if left > 0 {
		preempt()
	}
}

//go:norace
func enabled(i int) bool {
	t := &threads[i]
	return !t.done && (t.wait == nil || t.wait.Ready())
}

//go:norace
func choose(k int) int {
	if k <= 1 || pos >= len(trail) {
		return 0
	}
	if pos >= given {
		trail[pos] = 0
	}
	options[pos] = uint8(k)
	c := int(trail[pos])
	pos++
	points++
	if c >= k { // the execution did not repeat itself
		diverged++
		c = 0
	}
	return c
}

// preempt lets the exploration switch to another enabled thread.
//
//go:norace
func preempt() {
	me := turn
	var others [maxThreads]int
	k := 0
	for i := 0; i < n; i++ {
		if i != me && enabled(i) {
			others[k] = i
			k++
		}
	}
	if k == 0 {
		return
	}
	if c := choose(k + 1); c > 0 {
		left--
		give(me, others[c-1])
	}
}

//go:norace
func give(me, to int) {
	slice = 0
	turn = to
	await(me)
}

//go:norace
func await(me int) {
	for turn != me {
		runtime.Gosched()
	}
	if abort {
		panic(aborted{})
	}
}

// fair forces a switch away from a thread that does not get anywhere.
//
//go:norace
func fair() {
	slice = 0
	if steps > maxSteps {
		live = true
		abort = true
		panic(aborted{})
	}
	me := turn
	for d := 1; d < n; d++ {
		if i := (me + d) % n; enabled(i) {
			give(me, i)
			return
		}
	}
}

// Block suspends the calling thread until r is ready.
//
//go:norace
func Block(r Ready) {
	if r.Ready() {
		return
	}
	if !active {
		panic("blocked forever")
	}
	me := turn
	threads[me].wait = r
	for !r.Ready() {
		if !next(me) {
			dead = true
			abort = true
			panic(aborted{})
		}
	}
	threads[me].wait = nil
}

// next hands over to another enabled thread, if there is one.
//
//go:norace
func next(me int) bool {
	var others [maxThreads]int
	k := 0
	for i := 0; i < n; i++ {
		if i != me && enabled(i) {
			others[k] = i
			k++
		}
	}
	if k == 0 {
		return false
	}
	give2(me, others[choose(k)])
	return true
}

//go:norace
func give2(me, to int) {
	if threads[me].done {
		slice = 0
		turn = to
		return
	}
	give(me, to)
}

//go:norace
func finish(me int) {
	threads[me].done = true
	if !abort && next(me) {
		return
	}
	for i := 0; i < n; i++ { // blocked threads: wake them so that they unwind
		if !threads[i].done {
			if !abort {
				dead = true
				abort = true
			}
			turn = i
			return
		}
	}
	turn = -1
}

func body(i int, f func(), wg *sync.WaitGroup, out *string) {
	defer wg.Done()
	defer leave(i, out)
	await(i)
	f()
}

func leave(i int, out *string) {
	if e := recover(); e != nil {
		if _, ok := e.(aborted); ok {
			*out = "aborted"
		} else {
			*out = fmt.Sprint("panic: ", e)
		}
	}
	finish(i)
}

//go:norace
func begin(c Config, k int) {
	cfg = c
	left = c.Preempt
	n = k
	steps, slice, points = 0, 0, 0
	dead, live, abort = false, false, false
	diverged = 0
	pos = 0
	for i := range threads {
		threads[i] = thread{done: i >= k}
	}
	turn = -1
}

// start hands over to the first thread and waits for the end.
//
//go:norace
func start(c Config) (stuck bool) {
	active = true
	turn = c.First
	var last int64
	idle := time.Now()
	for k := 0; turn != -1; k++ {
		runtime.Gosched()
		if k&0xfff == 0xfff {
			if steps != last {
				last, idle = steps, time.Now()
			} else if time.Since(idle) > 20*time.Second {
				active = false
				return true
			}
		}
	}
	active = false
	return false
}

// Run executes the bodies as threads, replaying the first prefix choices of
// the current trail and taking the first alternative from there on.
func Run(c Config, bodies []func()) Exec {
	begin(c, len(bodies))
	out := make([]string, len(bodies))
	var wg sync.WaitGroup
	for i, f := range bodies {
		wg.Add(1)
		go body(i, f, &wg, &out[i])
	}
	if start(c) {
		return Exec{Steps: steps, Points: points, Stuck: true}
	}
	wg.Wait()
	return Exec{Steps: steps, Points: points, Deadlock: dead, Livelock: live, Diverged: diverged, Panics: out}
}

// Reset starts a new exploration.
func Reset() { given, pos = 0, 0 }

// Trail returns the choices of the last execution up to the last one taken.
func Trail() []uint8 {
	k := pos
	for k > 0 && trail[k-1] == 0 {
		k--
	}
	return append([]uint8(nil), trail[:k]...)
}

// SetTrail sets the choices to replay.
func SetTrail(t []uint8) {
	given = copy(trail[:], t)
}

// Next prepares the depth-first successor of the last execution. The
// executions are divided among shards by the position of the first deviation.
func Next(shard, shards int) bool {
	for i := pos - 1; i >= 0; i-- {
		if trail[i]+1 >= options[i] {
			trail[i] = 0
			continue
		}
		if i%shards != shard {
			first := true
			for j := 0; j < i; j++ {
				if trail[j] != 0 {
					first = false
					break
				}
			}
			if first && trail[i] == 0 {
				continue
			}
		}
		trail[i]++
		given = i + 1
		return true
	}
	return false
}

// Full reports whether the trail was exhausted, so that points were missed.
func Full() bool { return pos >= len(trail) }
