// Command verifmain runs the scenarios of check C21 on the instrumented copy.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"
	"github.com/neilotoole/jsoncolor/verifscen"
	"github.com/neilotoole/jsoncolor/verifsched"
)

type failure struct {
	Key    string            `json:"key"`
	Detail string            `json:"detail"`
	Scen   int               `json:"scen"`
	Warm   bool              `json:"warm"`
	Config verifsched.Config `json:"config"`
	Trail  []uint8           `json:"trail"`
}

type result struct {
	Executions int64            `json:"executions"`
	Steps      int64            `json:"steps"`
	Points     int64            `json:"points"`
	Max        int64            `json:"max_steps"`
	Plans      int              `json:"plans"`
	Capped     int              `json:"capped"`
	Stuck      int              `json:"stuck"`
	Diverged   int              `json:"diverged"`
	Counts     map[string]int64 `json:"counts"`
	Fails      []failure        `json:"fails"`
}

func fatal(a ...any) { fmt.Fprintln(os.Stderr, a...); os.Exit(3) }

// run executes one schedule and returns the rendered results.
func run(s scen.Scenario, warm bool, cfg verifsched.Config) (verifsched.Exec, []string) {
	jc.VerifReset()
	if warm {
		for _, t := range s.Threads {
			t()
		}
	}
	fin := make([]func() string, len(s.Threads))
	bodies := make([]func(), len(s.Threads))
	for i, t := range s.Threads {
		bodies[i] = func() { fin[i] = t() }
	}
	ex := verifsched.Run(cfg, bodies)
	if ex.Stuck {
		return ex, nil
	}
	out := make([]string, len(fin))
	for i, f := range fin {
		if f != nil {
			out[i] = f()
		} else {
			out[i] = ex.Panics[i]
		}
	}
	return ex, out
}

// alone returns what every thread returns when nothing else runs.
func alone(s scen.Scenario) []string {
	out := make([]string, len(s.Threads))
	for i, t := range s.Threads {
		jc.VerifReset()
		out[i] = protect(t)
	}
	return out
}

func protect(t scen.Thread) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("panic: ", e)
		}
	}()
	return t()()
}

func judge(ex verifsched.Exec, out, want []string, races int) (key, detail string) {
	switch {
	case ex.Deadlock:
		return "deadlock", fmt.Sprintf("deadlock: no thread can continue (threads: %q)", ex.Panics)
	case ex.Livelock:
		return "livelock", "the threads run forever without finishing"
	}
	for i := range want {
		if out[i] != want[i] {
			return "result", fmt.Sprintf("thread %d returned %.300q, alone it returns %.300q", i, out[i], want[i])
		}
	}
	if races > 0 {
		return "race", "data race (report in the race log)"
	}
	return "", ""
}

func main() {
	runtime.GOMAXPROCS(1)
	scen.Yield = verifsched.V
	ss := scen.Scenarios()
	switch os.Args[1] {
	case "alone":
		all := make([][]string, len(ss))
		for i, s := range ss {
			all[i] = alone(s)
		}
		json.NewEncoder(os.Stdout).Encode(all)
	case "steps":
		for _, s := range ss {
			ex, _ := run(s, false, verifsched.Config{Fine: true, Preempt: 1})
			ex2, _ := run(s, false, verifsched.Config{Preempt: 1})
			ex3, _ := run(s, true, verifsched.Config{Fine: true, Preempt: 1})
			fmt.Println(ex.Steps, ex.Points, ex2.Points, ex3.Steps, s.Name)
		}
	case "explore":
		explore(ss)
	case "free":
		free(ss)
	case "replay":
		var f failure
		if err := json.Unmarshal([]byte(os.Args[2]), &f); err != nil {
			fatal(err)
		}
		s := ss[f.Scen]
		want := alone(s)
		before := raceErrors()
		verifsched.Reset()
		verifsched.SetTrail(f.Trail)
		ex, out := run(s, f.Warm, f.Config)
		if ex.Stuck {
			fmt.Println("stuck")
			os.Exit(1)
		}
		key, detail := judge(ex, out, want, raceErrors()-before)
		if key != "" {
			fmt.Println(detail)
			os.Exit(1)
		}
		fmt.Println("no violation")
	}
}

type plan struct {
	scen int
	warm bool
	cfg  verifsched.Config
}

func (p plan) String() string {
	gran := "visible operations"
	if p.cfg.Fine {
		gran = "every statement"
	}
	return fmt.Sprintf("preemption bound %d at %s, pool discipline %d", p.cfg.Preempt, gran, p.cfg.Lifo)
}

func explore(ss []scen.Scenario) {
	shard, _ := strconv.Atoi(os.Args[2])
	shards, _ := strconv.Atoi(os.Args[3])
	level, _ := strconv.Atoi(os.Args[4])
	limit, _ := time.ParseDuration(os.Args[5])
	end := time.Now().Add(limit)
	res := &result{Counts: map[string]int64{}}
	save := func() {
		b, _ := json.Marshal(res)
		if err := os.WriteFile(os.Args[6], b, 0o644); err != nil {
			fatal(err)
		}
	}
	wants := make([][]string, len(ss))
	for i, s := range ss {
		wants[i] = alone(s)
	}
	// The undisturbed executions tell how long the scenarios are.
	steps := make([]int64, len(ss))
	points := make([]int64, len(ss))
	for i, s := range ss {
		ex, _ := run(s, false, verifsched.Config{Preempt: 1})
		steps[i], points[i] = ex.Steps, ex.Points
	}
	var plans []plan
	add := func(pre, pool int, fine bool, maxSteps, maxPoints int64) {
		for i, s := range ss {
			if steps[i] > maxSteps || points[i] > maxPoints {
				res.Counts[fmt.Sprintf("skipped as too long: %v", plan{cfg: verifsched.Config{Preempt: pre, Fine: fine, Lifo: pool}})]++
				continue
			}
			for first := range s.Threads {
				for _, warm := range []bool{false, true} {
					plans = append(plans, plan{i, warm, verifsched.Config{Preempt: pre, Fine: fine, First: first, Lifo: pool}})
				}
			}
		}
	}
	const all = 1 << 60
	add(0, 0, false, all, all)
	for pool := 0; pool < 3; pool++ {
		add(1, pool, false, all, all)
	}
	switch level {
	case 0: // race-instrumented, quick
		add(1, 0, true, 4000, all)
		add(2, 0, false, all, 30)
	case 1: // race-instrumented, thorough
		add(1, 0, true, all, all)
		add(1, 1, true, 6000, all)
		add(1, 2, true, 6000, all)
		add(2, 0, false, all, all)
		add(2, 2, false, all, all)
		add(3, 0, false, all, 40)
		add(2, 0, true, 900, all)
		add(2, 0, true, 2100, all)
	case 2: // plain, quick
		add(1, 0, true, all, all)
		add(1, 1, true, 6000, all)
		add(1, 2, true, 6000, all)
		add(2, 0, false, all, all)
		add(2, 1, false, all, all)
		add(2, 2, false, all, all)
		add(3, 0, false, all, 25)
		add(2, 0, true, 750, all)
	case 3: // plain, thorough
		for pool := 0; pool < 3; pool++ {
			add(1, pool, true, all, all)
			add(2, pool, false, all, all)
			add(3, pool, false, all, all)
		}
		for pool := 0; pool < 3; pool++ {
			add(2, pool, true, 1500, all)
		}
		add(4, 0, false, all, 30)
		add(2, 0, true, 6000, all)
		add(3, 0, true, 250, all)
	}
	failed := map[string]bool{}
	for _, p := range plans {
		if failed[fmt.Sprint(p.scen)] {
			continue
		}
		if time.Now().After(end) {
			res.Capped++
			continue
		}
		res.Plans++
		verifsched.Reset()
		mine := shard == 0
		for {
			before := raceErrors()
			ex, out := run(ss[p.scen], p.warm, p.cfg)
			if ex.Stuck {
				res.Stuck++
				save()
				os.Exit(0)
			}
			res.Diverged += ex.Diverged
			// The undisturbed execution belongs to shard 0, but every shard runs
			// it to learn the scheduling points.
			if mine || len(verifsched.Trail()) > 0 {
				res.Executions++
				res.Counts[p.String()]++
				res.Steps += ex.Steps
				res.Points += ex.Points
				res.Max = max(res.Max, ex.Steps)
			}
			if key, detail := judge(ex, out, wants[p.scen], raceErrors()-before); key != "" {
				s := ss[p.scen]
				state := "cold"
				if p.warm {
					state = "warm"
				}
				res.Fails = append(res.Fails, failure{
					Key:    key + ":" + s.Name,
					Detail: fmt.Sprintf("scenario %q, %s, schedule %v of %v: %s", s.Name, state, positions(verifsched.Trail()), p, detail),
					Scen:   p.scen, Warm: p.warm, Config: p.cfg, Trail: verifsched.Trail(),
				})
				failed[fmt.Sprint(p.scen)] = true
				save()
				if ex.Deadlock || ex.Livelock || len(res.Fails) >= 3 {
					os.Exit(0)
				}
				break
			}
			if verifsched.Full() {
				res.Capped++
			}
			if !verifsched.Next(shard, shards) {
				break
			}
			if res.Executions&63 == 0 && time.Now().After(end) {
				res.Capped++
				break
			}
		}
	}
	save()
}

// positions renders a trail as the points where another thread was chosen.
func positions(t []uint8) string {
	var out []string
	for i, c := range t {
		if c != 0 {
			out = append(out, fmt.Sprintf("%d:%d", i, c))
		}
	}
	return "[" + strings.Join(out, " ") + "]"
}

// free runs the scenarios in parallel without a scheduler: the fallback when
// the package cannot be controlled (it starts goroutines or uses channels).
func free(ss []scen.Scenario) {
	runtime.GOMAXPROCS(8)
	scen.Yield = func() {}
	rounds, _ := strconv.Atoi(os.Args[2])
	res := &result{Counts: map[string]int64{}}
	for i, s := range ss {
		want := alone(s)
		for r := 0; r < rounds; r++ {
			jc.VerifReset()
			out := make([]string, len(s.Threads)*4)
			done := make(chan int)
			for k := range out {
				go func() {
					defer func() { done <- k }()
					out[k] = protect(s.Threads[k%len(s.Threads)])
				}()
			}
			timeout := time.After(20 * time.Second)
			for range out {
				select {
				case <-done:
				case <-timeout:
					fmt.Println("deadlock:" + s.Name)
					os.Exit(1)
				}
			}
			res.Executions++
			for k := range out {
				if w := want[k%len(want)]; out[k] != w {
					fmt.Printf("result:%s: thread returned %.300q, alone it returns %.300q\n", s.Name, out[k], w)
					os.Exit(1)
				}
			}
			if raceErrors() > 0 {
				fmt.Printf("race:%s: data race\n", ss[i].Name)
				os.Exit(1)
			}
		}
	}
	b, _ := json.Marshal(res)
	fmt.Println(string(b))
}
