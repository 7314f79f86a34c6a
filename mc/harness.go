package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------------------
// Check registry

// A check enumerates its space deterministically, calling C.Case for every
// case, in the same order in every process.
type check struct {
	id     string
	rule   string // what is enumerated, against which oracle
	assume []string
	run    func(c *C)
	single bool   // run in one shard only (the check parallelises by itself or is tiny)
	pre    func() // run by the parent before the children (builds of auxiliary binaries)
	env    string // environment of the children
}

var checks = map[string]*check{}

func register(ch *check) { checks[ch.id] = ch }

// ---------------------------------------------------------------------------
// Enumeration context (lives in a child process)

type fail struct {
	Case int64  `json:"case"`
	Key  string `json:"key"` // identifies the failing input or site
	Msg  string `json:"msg"`
	Desc string `json:"desc"`
}

type C struct {
	id       string
	thorough bool
	shard    int64
	nshards  int64
	only     int64 // run just this case (-1: all)
	from, to int64 // run cases in [from,to) of the shard
	n        int64 // cases enumerated so far
	deadline time.Time
	stopped  bool
	depth    int

	mem *[2]int64 // shared with the parent: current case, heartbeat

	res result

	cur  int64
	desc func() string
}

type result struct {
	Cases       int64            `json:"cases"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Validated   int64            `json:"validated"`
	Counts      map[string]int64 `json:"counts"`
	Samples     []string         `json:"samples"`
	Fails       []fail           `json:"fails"`
	Done        bool             `json:"done"`
	Capped      bool             `json:"capped"`
	Bounds      []string         `json:"bounds"`
}

// Case runs f as the next case, if it belongs to this process.
func (c *C) Case(desc func() string, f func()) {
	n := c.n
	c.n++
	if c.stopped {
		return
	}
	if c.only >= 0 {
		if n != c.only {
			return
		}
	} else if n%c.nshards != c.shard || n < c.from || n >= c.to {
		return
	}
	if p := os.Getenv("VERIF_SLOW"); p != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 500*time.Millisecond {
				os.Stderr.WriteString(fmt.Sprintf("slow %v %s\n", d, clip(desc(), 200)))
				f, _ := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
				fmt.Fprintf(f, "%v %s\n", d, clip(desc(), 200))
				f.Close()
			}
		}()
	}
	if n&0x3f == 0 || c.only >= 0 {
		if time.Now().After(c.deadline) {
			c.stopped = true
			c.res.Capped = true
			return
		}
	}
	if c.mem != nil {
		atomic.StoreInt64(&c.mem[0], n)
		atomic.AddInt64(&c.mem[1], 1)
	}
	c.cur, c.desc = n, desc
	c.res.Cases++
	if c.res.Cases <= 2 || (c.res.Cases&(c.res.Cases-1)) == 0 && len(c.res.Samples) < 16 {
		c.res.Samples = append(c.res.Samples, clip(desc(), 300))
	}
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic", "panic: %v\n%s", r, clip(string(debug.Stack()), 3000))
		}
	}()
	f()
}

// Fail reports a violation in the current case.
func (c *C) Fail(key, format string, args ...any) {
	if len(c.res.Fails) >= 40 {
		return
	}
	c.res.Fails = append(c.res.Fails, fail{Case: c.cur, Key: key, Msg: clip(fmt.Sprintf(format, args...), 4000), Desc: clip(c.desc(), 2000)})
}

func (c *C) State(n int)              { c.res.States += int64(n) }
func (c *C) Trans(n int)              { c.res.Transitions += int64(n) }
func (c *C) Valid(n int)              { c.res.Validated += int64(n) }
func (c *C) Count(k string, n int)    { c.res.Counts[k] += int64(n) }
func (c *C) Bound(f string, a ...any) { c.res.Bounds = append(c.res.Bounds, fmt.Sprintf(f, a...)) }

// Pick returns q or t depending on the tier.
func (c *C) Pick(q, t int) int {
	if c.thorough {
		return t
	}
	return q
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// ---------------------------------------------------------------------------
// Child process

func childMain(args []string) {
	// child <id> <tier> <shard> <nshards> <only> <from> <to> <deadline-unix> <result> <journal>
	ch := checks[args[0]]
	c := &C{id: args[0], thorough: args[1] == "thorough", depth: 0}
	c.res.Counts = map[string]int64{}
	num := func(i int) int64 { v, _ := strconv.ParseInt(args[i], 10, 64); return v }
	c.shard, c.nshards, c.only, c.from, c.to = num(2), num(3), num(4), num(5), num(6)
	c.deadline = time.Unix(num(7), 0)
	f, err := os.OpenFile(args[9], os.O_RDWR, 0)
	if err == nil {
		m, err := syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err == nil {
			c.mem = (*[2]int64)(unsafe.Pointer(&m[0]))
		}
		f.Close()
	}
	debug.SetMaxStack(192 << 20)
	debug.SetMemoryLimit(2 << 30)
	debug.SetGCPercent(400)
	if p := os.Getenv("VERIF_PROF"); p != "" && c.shard == 0 {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	ch.run(c)
	pprof.StopCPUProfile()
	c.res.Done = true
	b, _ := json.Marshal(&c.res)
	os.WriteFile(args[8], b, 0o644)
	os.Exit(0)
}

// ---------------------------------------------------------------------------
// Parent process

type runner struct {
	id       string
	tier     string
	dir      string // scratch
	deadline time.Time
	self     string
}

const (
	hangLimit = 90 * time.Second
	rssLimit  = 4 << 30
)

type childOut struct {
	res    result
	ok     bool   // finished and wrote its result
	crash  string // how it ended otherwise
	last   int64  // the case it was in
	output string
}

var childSeq atomic.Int64

func (r *runner) child(shard, nshards, only, from, to int64, limit time.Duration) childOut {
	seq := childSeq.Add(1)
	resf := filepath.Join(r.dir, fmt.Sprintf("res%d", seq))
	jf := filepath.Join(r.dir, fmt.Sprintf("jnl%d", seq))
	outf := filepath.Join(r.dir, fmt.Sprintf("out%d", seq))
	j := make([]byte, 16)
	os.WriteFile(jf, j, 0o644)
	defer os.Remove(resf)
	defer os.Remove(jf)
	defer os.Remove(outf)
	of, _ := os.Create(outf)
	s := func(v int64) string { return strconv.FormatInt(v, 10) }
	cmd := exec.Command(r.self, "child", r.id, r.tier, s(shard), s(nshards), s(only), s(from), s(to), s(r.deadline.Unix()), resf, jf)
	cmd.Stdout, cmd.Stderr = of, of
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2", "VERIF_SCRATCH="+r.dir)
	if e := checks[r.id].env; e != "" {
		cmd.Env = append(cmd.Env, e)
	}
	// Pdeathsig is tied to the thread.
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	err := cmd.Start()
	of.Close()
	if err != nil {
		return childOut{crash: "start: " + err.Error(), last: -1}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	read := func() (int64, int64) {
		b, _ := os.ReadFile(jf)
		if len(b) < 16 {
			return -1, -1
		}
		return int64(binary.LittleEndian.Uint64(b)), int64(binary.LittleEndian.Uint64(b[8:]))
	}
	var o childOut
	start := time.Now()
	lastBeat, lastTime := int64(-1), time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	why := ""
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-tick.C:
			_, beat := read()
			if beat != lastBeat {
				lastBeat, lastTime = beat, time.Now()
			}
			if why == "" {
				if time.Since(lastTime) > limit {
					why = fmt.Sprintf("hang: one case ran for more than %v", limit)
				} else if rss(cmd.Process.Pid) > rssLimit {
					why = "memory: more than 4 GiB in use"
				} else if time.Now().After(r.deadline.Add(2*time.Minute)) && time.Since(start) > 2*time.Minute {
					why = "deadline"
				}
				if why != "" {
					cmd.Process.Signal(syscall.SIGQUIT)
					go func() { time.Sleep(3 * time.Second); cmd.Process.Kill() }()
				}
			}
		}
	}
	b, _ := os.ReadFile(outf)
	if len(b) > 6000 {
		b = append(append([]byte{}, b[:4000]...), b[len(b)-2000:]...)
	}
	o.output = string(b)
	if rb, e := os.ReadFile(resf); e == nil && json.Unmarshal(rb, &o.res) == nil && o.res.Done {
		o.ok = true
		return o
	}
	o.last, _ = read()
	if why == "" {
		why = fmt.Sprintf("process ended: %v", err)
	}
	o.crash = why
	return o
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

type finding struct {
	Status   string `json:"status"` // open or fixed
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range bytes.Split(b, []byte("\n")) {
		var f finding
		if len(bytes.TrimSpace(l)) > 0 && json.Unmarshal(l, &f) == nil {
			fs = append(fs, f)
		}
	}
	return fs
}

type replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Case     int64  `json:"case"`
	From     int64  `json:"from"` // history needed: cases [From,Case] of the shard
	Shard    int64  `json:"shard"`
	Shards   int64  `json:"shards"`
	Mode     string `json:"mode"` // single or history
	Key      string `json:"key"`
	Message  string `json:"message"`
	Input    string `json:"input"`
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func parentMain(id, tier string) int {
	ch := checks[id]
	if ch == nil {
		fmt.Println("unknown property", id)
		return 0
	}
	start := time.Now()
	r := &runner{id: id, tier: tier}
	r.self, _ = os.Executable()
	r.dir, _ = os.MkdirTemp("", "verifmc")
	defer os.RemoveAll(r.dir)
	os.Setenv("VERIF_SCRATCH", r.dir)
	budget := 400 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
		if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
			budget = time.Duration(v) * time.Second
		}
	}
	r.deadline = start.Add(budget)
	if ch.pre != nil {
		ch.pre()
	}
	nsh := int64(runtime.NumCPU())
	if nsh > 8 {
		nsh = 8
	}
	if nsh < 2 {
		nsh = 2
	}
	if ch.single {
		nsh = 1
	}

	var mu sync.Mutex
	var total result
	total.Counts = map[string]int64{}
	total.Done = true
	var viol []replay
	var notes []string
	known := map[string]int{}
	finds := loadFindings(root())
	isKnown := func(key string) bool {
		for _, f := range finds {
			if f.Status == "open" && f.Property == id && f.Key == key {
				return true
			}
		}
		return false
	}
	add := func(o childOut) {
		total.Cases += o.res.Cases
		total.States += o.res.States
		total.Transitions += o.res.Transitions
		total.Validated += o.res.Validated
		total.Capped = total.Capped || o.res.Capped
		for k, v := range o.res.Counts {
			total.Counts[k] += v
		}
		total.Samples = append(total.Samples, o.res.Samples...)
		if len(total.Bounds) == 0 {
			total.Bounds = o.res.Bounds
		}
	}
	// confirm re-runs a failing case: alone, or else after the same history.
	confirm := func(shard, n int64, key, msg, desc string, from int64, crashed bool) bool {
		rp := replay{Property: id, Tier: tier, Case: n, From: from, Shard: shard, Shards: nsh, Mode: "single", Key: key, Message: msg, Input: desc}
		fails := func(o childOut) (bool, string) {
			if !o.ok {
				return o.last == n || n < 0, "(crash) " + o.crash + "\n" + o.output
			}
			for _, f := range o.res.Fails {
				if f.Case == n && (f.Key == key || crashed) {
					return true, ""
				}
			}
			return false, ""
		}
		lim := hangLimit
		k := 5
		if strings.HasPrefix(msg, "hang") {
			k = 2
		}
		ok := true
		for i := 0; i < k && ok; i++ {
			ok, _ = fails(r.child(shard, nsh, n, 0, 1<<62, lim))
		}
		if !ok && n >= 0 {
			ok = true
			rp.Mode = "history"
			for i := 0; i < 2 && ok; i++ {
				ok, _ = fails(r.child(shard, nsh, -1, from, n+1, lim))
			}
		}
		mu.Lock()
		defer mu.Unlock()
		if ok {
			viol = append(viol, rp)
		} else {
			notes = append(notes, fmt.Sprintf("not reproducible, not reported: case %d %s %s", n, key, clip(msg, 300)))
		}
		return ok
	}
	var wg sync.WaitGroup
	seenKey := map[string]int{}
	for sh := int64(0); sh < nsh; sh++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := int64(0)
			for tries := 0; tries < 4; tries++ {
				o := r.child(sh, nsh, -1, from, 1<<62, hangLimit)
				mu.Lock()
				add(o)
				mu.Unlock()
				if o.ok {
					confirmed := 0
					for _, f := range o.res.Fails {
						mu.Lock()
						if isKnown(f.Key) {
							known[f.Key]++
							mu.Unlock()
							continue
						}
						seenKey[f.Key]++
						skip := seenKey[f.Key] > 2 || len(viol) >= 6
						mu.Unlock()
						if skip || confirmed >= 3 {
							continue
						}
						if confirm(sh, f.Case, f.Key, f.Msg, f.Desc, from, false) {
							confirmed++
						}
					}
					return
				}
				mu.Lock()
				total.Done = false
				nv := len(viol)
				mu.Unlock()
				if o.crash == "deadline" {
					mu.Lock()
					total.Capped = true
					mu.Unlock()
					return
				}
				if nv >= 3 {
					return
				}
				key := "crash"
				if strings.HasPrefix(o.crash, "hang") {
					key = "hang"
				}
				confirm(sh, o.last, key, o.crash+"\n"+o.output, fmt.Sprintf("case %d of shard %d", o.last, sh), from, true)
				from = o.last + 1
			}
		}()
	}
	wg.Wait()

	sort.Slice(viol, func(i, j int) bool { return viol[i].Case < viol[j].Case })
	code := 0
	rdir := filepath.Join(root(), "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for i, v := range viol {
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  case %d (%s): %s\n  input: %s\n", v.Case, v.Key, clip(v.Message, 1500), clip(v.Input, 600))
		code = 1
	}
	for _, f := range finds {
		if f.Status == "open" && f.Property == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		}
	}
	if len(total.Samples) > 12 {
		total.Samples = total.Samples[:12]
	}
	if total.Samples == nil {
		total.Samples = []string{}
	}
	cov := map[string]any{
		"states":                        total.States,
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Validated,
		"samples":                       total.Samples,
		"exhaustive":                    total.Done && !total.Capped && len(viol) == 0,
		"rule":                          ch.rule,
		"bounds":                        total.Bounds,
		"counts":                        total.Counts,
		"known_findings_seen":           known,
		"notes":                         notes,
		"shards":                        nsh,
	}
	if notes == nil {
		cov["notes"] = []string{}
	}
	seed := 1
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = v
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": append([]string{}, ch.assume...), "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(root(), "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: cases=%d transitions=%d validated=%d capped=%v violations=%d notes=%d wall=%.1fs\n", id, tier, total.Cases, total.Transitions, total.Validated, total.Capped, len(viol), len(notes), time.Since(start).Seconds())
	for _, n := range notes {
		fmt.Println("  note:", clip(n, 400))
	}
	return code
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 0
	}
	var rp replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 0
	}
	r := &runner{id: rp.Property, tier: rp.Tier, deadline: time.Now().Add(10 * time.Minute)}
	r.self, _ = os.Executable()
	r.dir, _ = os.MkdirTemp("", "verifmc")
	defer os.RemoveAll(r.dir)
	if ch := checks[rp.Property]; ch.pre != nil {
		os.Setenv("VERIF_SCRATCH", r.dir)
		ch.pre()
	}
	var o childOut
	if rp.Mode == "single" {
		o = r.child(rp.Shard, rp.Shards, rp.Case, 0, 1<<62, hangLimit)
	} else {
		o = r.child(rp.Shard, rp.Shards, -1, rp.From, rp.Case+1, hangLimit)
	}
	if !o.ok {
		fmt.Printf("reproduced: case %d: %s\n%s\n", o.last, o.crash, o.output)
		return 1
	}
	for _, f := range o.res.Fails {
		if f.Case == rp.Case {
			fmt.Printf("reproduced: case %d (%s)\ninput: %s\n%s\n", f.Case, f.Key, f.Desc, f.Msg)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

func main() {
	if len(os.Args) < 3 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: mc run <id> <tier> | replay <file>; checks:", ids)
		return
	}
	switch os.Args[1] {
	case "child":
		childMain(os.Args[2:])
	case "run":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(parentMain(os.Args[2], tier))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	default:
		auxMain(os.Args[1:])
	}
}

// auxMain runs the auxiliary programs some checks start as separate processes.
var aux = map[string]func(args []string){}

func auxMain(args []string) {
	if f := aux[args[0]]; f != nil {
		f(args[1:])
		return
	}
	fmt.Println("unknown command", args[0])
}
