package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	fcolor "github.com/fatih/color"
	jc "github.com/neilotoole/jsoncolor"
	"github.com/neilotoole/jsoncolor/helper/fatihcolor"
	"golang.org/x/sys/unix"
)

func init() {
	register(&check{id: "C25", rule: "every list of up to n attributes (all of fatih/color's, and RGB) x the package-wide NoColor x the color's own enablement; every subset of the nine fields; the prefix is compared with what the color itself prints and with the escape sequence computed from the attributes; documents encoded through the adapter are compared token by token", run: runC25})
	register(&check{id: "C26", rule: "every combination of values of NO_COLOR, FORCE_COLOR and TERM x every kind of writer, including pseudo-terminals, closed files and types that embed or imitate files; the model is the documented precedence with the kernel's answer about the descriptor", run: runC26})
	register(&check{id: "C27", rule: "the jc binary built from the working tree, run on every listed document and malformed text x flags x ways to pass input and output x environments, in scratch directories; outputs decoded and compared with the input, the layout with encoding/json.Indent, colors with the uncolored output", run: runC27, pre: buildJC})
}

// ---------------------------------------------------------------------------
// C25

func runC25(c *C) {
	saved := fcolor.NoColor
	defer func() { fcolor.NoColor = saved }()
	prefix := func(attrs []fcolor.Attribute) string {
		var s []string
		for _, a := range attrs {
			s = append(s, strconv.Itoa(int(a)))
		}
		return "\x1b[" + strings.Join(s, ";") + "m"
	}
	state := func(col *fcolor.Color) string {
		return fmt.Sprintf("%#v %q %v", *col, col.Sprint("x"), reflect.ValueOf(col).Elem().FieldByName("noColor"))
	}
	// one checks a color made by mk under every enablement
	one := func(key, want string, mk func() *fcolor.Color) {
		for _, global := range []bool{false, true} {
			for own := 0; own < 3; own++ {
				c.State(1)
				c.Trans(1)
				fcolor.NoColor = global
				col := mk()
				switch own {
				case 1:
					col.EnableColor()
				case 2:
					col.DisableColor()
				}
				ref := mk()
				ref.EnableColor()
				printed := ref.Sprint("T")
				if i := strings.IndexByte(printed, 'T'); want == "" {
					want = printed[:i]
				} else if printed[:i] != want {
					c.Fail("model "+key, "fatih/color prints %q, the model expects the prefix %q", printed, want)
					return
				}
				before := state(col)
				var got jc.Color
				pan := catch(func() { got = fatihcolor.ToCoreColor(col) })
				if pan != nil || string(got) != want {
					c.Fail("prefix "+key, "ToCoreColor of %s (NoColor %v, own state %d) is %q %v, want %q", key, global, own, got, pan, want)
					return
				}
				if fcolor.NoColor != global || state(col) != before {
					c.Fail("changed "+key, "ToCoreColor of %s (NoColor %v, own state %d) changes the color or the package: %s, before %s", key, global, own, state(col), before)
					return
				}
				// the result must not share memory with later ones
				again := fatihcolor.ToCoreColor(col)
				for i := range again {
					again[i] = '?'
				}
				if string(got) != want || string(fatihcolor.ToCoreColor(col)) != want {
					c.Fail("shared "+key, "results of ToCoreColor of %s share memory", key)
				}
				fcolor.NoColor = false
				c.Valid(1)
			}
		}
	}
	var attrs []fcolor.Attribute
	for a := fcolor.Attribute(0); a <= 107; a++ {
		attrs = append(attrs, a)
	}
	named := []fcolor.Attribute{fcolor.Reset, fcolor.Bold, fcolor.Faint, fcolor.Italic, fcolor.Underline, fcolor.CrossedOut, fcolor.FgBlack, fcolor.FgGreen, fcolor.FgHiWhite, fcolor.BgRed, fcolor.BgHiCyan, 38, 255, 5, -1}
	lists := func(set []fcolor.Attribute, n int) {
		seqs(len(set), min(n, 1), func(ix []int) {
			var head []fcolor.Attribute
			for _, i := range ix {
				head = append(head, set[i])
			}
			c.Case(func() string { return fmt.Sprintf("lists of %d of %d attributes starting with %v", n, len(set), head) }, func() {
				seqs(len(set), n-len(head), func(jx []int) {
					l := append([]fcolor.Attribute{}, head...)
					for _, j := range jx {
						l = append(l, set[j])
					}
					one(fmt.Sprint("New ", l), prefix(l), func() *fcolor.Color { return fcolor.New(l...) })
					if len(l) > 1 {
						one(fmt.Sprint("Add ", l), prefix(l), func() *fcolor.Color { return fcolor.New(l[0]).Add(l[1:]...) })
					}
				})
			})
		})
	}
	lists(attrs, 0)
	lists(attrs, 1)
	lists(attrs, c.Pick(2, 3))
	for n := 3; n <= c.Pick(4, 5); n++ {
		lists(named, n)
	}
	c.Case(func() string { return "RGB, long lists, nil, zero" }, func() {
		for _, x := range []int{0, 1, 9, 10, 127, 255} {
			for _, y := range []int{0, 255} {
				one("RGB", prefix([]fcolor.Attribute{38, 2, fcolor.Attribute(x), fcolor.Attribute(y), 7}), func() *fcolor.Color { return fcolor.RGB(x, y, 7) })
				one("BgRGB", prefix([]fcolor.Attribute{48, 2, fcolor.Attribute(x), fcolor.Attribute(y), 7}), func() *fcolor.Color { return fcolor.BgRGB(x, y, 7) })
				one("RGB chain", "", func() *fcolor.Color {
					return fcolor.RGB(x, y, 7).AddBgRGB(1, 2, 3).Add(fcolor.Bold).AddRGB(y, x, 0)
				})
			}
		}
		var l []fcolor.Attribute
		for i := 0; i < 60; i++ {
			l = append(l, attrs[i])
			m := append([]fcolor.Attribute{}, l...)
			one(fmt.Sprint("long ", i), prefix(m), func() *fcolor.Color { return fcolor.New(m...) })
		}
		one("zero Color", "", func() *fcolor.Color { return &fcolor.Color{} })
		if got := fatihcolor.ToCoreColor(nil); len(got) != 0 {
			c.Fail("nil", "ToCoreColor(nil) is %q", got)
		}
		if got := fatihcolor.ToCoreColors(nil); got != nil {
			c.Fail("nil colors", "ToCoreColors(nil) is %v", got)
		}
	})
	// the mapping of fields
	fields := [][2]string{{"Null", "Null"}, {"Bool", "Bool"}, {"Number", "Number"}, {"String", "String"}, {"Key", "Key"}, {"Bytes", "Bytes"}, {"Datetime", "Time"}, {"Punc", "Punc"}, {"TextMarshaler", "TextMarshaler"}}
	value := []any{nil, true, 1.5, "s", map[string]int{"k": 1}, []byte("ab"), time.Unix(0, 0).UTC(), TextOut{S: "t"}, []any{}, map[string]any{}}
	for hi := 0; hi < 1<<9; hi += 32 {
		c.Case(func() string { return fmt.Sprintf("field subsets from %09b", hi) }, func() {
			for m := hi; m < hi+32; m++ {
				c.State(1)
				c.Trans(1)
				fc := &fatihcolor.Colors{}
				v := reflect.ValueOf(fc).Elem()
				var want jc.Colors
				w := reflect.ValueOf(&want).Elem()
				for i, f := range fields {
					if m>>i&1 == 1 {
						col := fcolor.New(fcolor.Attribute(30+i), fcolor.Bold)
						if i%2 == 0 {
							col.DisableColor()
						}
						v.FieldByName(f[0]).Set(reflect.ValueOf(col))
						w.FieldByName(f[1]).Set(reflect.ValueOf(jc.Color(fmt.Sprintf("\x1b[%d;1m", 30+i))))
					}
				}
				before := *fc
				got := fatihcolor.ToCoreColors(fc)
				if got == nil || *fc != before {
					c.Fail(fmt.Sprintf("fields %09b", m), "ToCoreColors returns %v, or changed its argument", got)
					continue
				}
				g := reflect.ValueOf(got).Elem()
				for i := 0; i < g.NumField(); i++ {
					if string(g.Field(i).Bytes()) != string(w.Field(i).Bytes()) {
						c.Fail(fmt.Sprintf("fields %09b", m), "ToCoreColors gives %s=%q, want %q", g.Type().Field(i).Name, g.Field(i).Bytes(), w.Field(i).Bytes())
					}
				}
				a, e1 := jc.Append(nil, value, jc.SortMapKeys, got, nil)
				b, e2 := jc.Append(nil, value, jc.SortMapKeys, &want, nil)
				if e1 != nil || e2 != nil || !bytes.Equal(a, b) {
					c.Fail(fmt.Sprintf("encode %09b", m), "encoding with the adapter's colors: %q %v, want %q %v", a, e1, b, e2)
				}
				c.Valid(1)
			}
		})
	}
	c.Case(func() string { return "the default colors" }, func() {
		d := fatihcolor.DefaultColors()
		for _, global := range []bool{true, false} {
			fcolor.NoColor = global
			got := reflect.ValueOf(fatihcolor.ToCoreColors(d)).Elem()
			v := reflect.ValueOf(d).Elem()
			for _, f := range fields {
				col := v.FieldByName(f[0]).Interface().(*fcolor.Color)
				c2 := *col
				c2.EnableColor()
				p := c2.Sprint("T")
				if g := string(got.FieldByName(f[1]).Bytes()); g != p[:strings.IndexByte(p, 'T')] {
					c.Fail("default "+f[0], "DefaultColors' %s is %q, fatih/color prints %q", f[0], g, p)
				}
			}
		}
		fcolor.NoColor = saved
	})
	c.Bound("all lists of up to %d of 108 attributes, up to %d of %d; all 512 subsets of the fields", c.Pick(2, 3), c.Pick(4, 5), len(named))
}

// ---------------------------------------------------------------------------
// C26

// pty opens a pseudo-terminal in raw mode.
func openPty() (master, slave *os.File, err error) {
	m, err := unix.Open("/dev/ptmx", unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	n, err := unix.IoctlGetInt(m, unix.TIOCGPTN)
	if err == nil {
		err = unix.IoctlSetPointerInt(m, unix.TIOCSPTLCK, 0)
	}
	var s int
	if err == nil {
		s, err = unix.Open(fmt.Sprintf("/dev/pts/%d", n), unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC, 0)
		if err != nil { // a devpts that is not mounted on /dev/pts
			r, _, e := unix.Syscall(unix.SYS_IOCTL, uintptr(m), unix.TIOCGPTPEER, unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC)
			if s = int(r); e != 0 {
				err = e
			} else {
				err = nil
			}
		}
	}
	if err != nil {
		unix.Close(m)
		return nil, nil, err
	}
	if t, e := unix.IoctlGetTermios(s, unix.TCGETS); e == nil {
		t.Oflag &^= unix.OPOST
		t.Lflag &^= unix.ECHO | unix.ICANON | unix.ISIG
		t.Iflag = 0
		unix.IoctlSetTermios(s, unix.TCSETS, t)
	}
	return os.NewFile(uintptr(m), "ptmx"), os.NewFile(uintptr(s), "pts"), nil
}

type embedsFile struct{ *os.File }
type hasFd struct{ f *os.File }

func (h hasFd) Write(b []byte) (int, error) { return h.f.Write(b) }
func (h hasFd) Fd() uintptr                 { return h.f.Fd() }

type namedFile os.File

func (n *namedFile) Write(b []byte) (int, error) { return len(b), nil }

type wkind struct {
	name string
	w    io.Writer
	tty  bool
	fd   int // of an open file, or -1
}

func writerKinds(c *C) (ws []wkind, done func()) {
	dir, _ := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c26")
	var open []*os.File
	file := func(name string, f *os.File, err error) *os.File {
		if err != nil || f == nil {
			c.Count("writer_kinds_not_available", 1)
			return nil
		}
		open = append(open, f)
		fd := -1
		if rc, e := f.SyscallConn(); e == nil {
			rc.Control(func(p uintptr) { fd = int(p) })
		}
		_, e := unix.IoctlGetTermios(fd, unix.TCGETS)
		ws = append(ws, wkind{name, f, e == nil, fd})
		return f
	}
	f, err := os.Create(filepath.Join(dir, "file"))
	file("regular file", f, err)
	f, err = os.Open(dir)
	file("directory", f, err)
	f, err = os.OpenFile("/dev/null", os.O_RDWR, 0)
	file("/dev/null", f, err)
	f, err = os.OpenFile("/dev/tty", os.O_RDWR, 0)
	file("/dev/tty", f, err)
	r, w, err := os.Pipe()
	file("pipe reader", r, err)
	file("pipe writer", w, err)
	if fds, e := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM|unix.SOCK_NONBLOCK, 0); e == nil {
		file("socket", os.NewFile(uintptr(fds[0]), "s"), nil)
		file("socket", os.NewFile(uintptr(fds[1]), "s"), nil)
	}
	m, s, err := openPty()
	file("pty master", m, err)
	file("pty slave", s, err)
	if err == nil {
		ws = append(ws, wkind{"type embedding a pty", embedsFile{s}, false, -1}, wkind{"pointer to such", &embedsFile{s}, false, -1}, wkind{"type with the Fd of a pty", hasFd{s}, false, -1}, wkind{"file type conversion", (*namedFile)(s), false, -1}, wkind{"MultiWriter of a pty", io.MultiWriter(s), false, -1})
		m2, s2, e := openPty()
		if e == nil { // nonblocking descriptor
			d, _ := unix.FcntlInt(s2.Fd(), unix.F_DUPFD_CLOEXEC, 0)
			unix.SetNonblock(d, true)
			file("nonblocking pty", os.NewFile(uintptr(d), "nb"), nil)
			s2.Close()
			ws = append(ws, wkind{"closed pty", s2, false, -1})
			open = append(open, m2)
		}
	}
	f, _ = os.Create(filepath.Join(dir, "closed"))
	f.Close()
	ws = append(ws, wkind{"closed file", f, false, -1}, wkind{"nil", nil, false, -1}, wkind{"nil *os.File", (*os.File)(nil), false, -1}, wkind{"buffer", &bytes.Buffer{}, false, -1}, wkind{"nil buffer", (*bytes.Buffer)(nil), false, -1}, wkind{"Discard", io.Discard, false, -1})
	return ws, func() {
		for _, f := range open {
			f.Close()
		}
		os.RemoveAll(dir)
	}
}

func runC26(c *C) {
	vals := [][]string{
		{"\x00", "", "0", "1", " ", "false"},
		{"\x00", "", "0", "1", " ", "true"},
		{"\x00", "", "dumb", "xterm", "DUMB", "dumb-256color", " dumb", "xterm-256color"},
	}
	names := []string{"NO_COLOR", "FORCE_COLOR", "TERM"}
	extra := [][]string{nil, {"COLORTERM", "truecolor"}, {"CLICOLOR", "0"}, {"CLICOLOR_FORCE", "1"}, {"no_color", "1"}, {"CI", "true"}}
	for v0 := range vals[0] {
		for v1 := range vals[1] {
			c.Case(func() string { return fmt.Sprintf("NO_COLOR=%q FORCE_COLOR=%q", vals[0][v0], vals[1][v1]) }, func() {
				ws, done := writerKinds(c)
				defer done()
				for v2 := range vals[2] {
					for _, ex := range extra {
						for i, v := range []int{v0, v1, v2} {
							if s := vals[i][v]; s == "\x00" {
								os.Unsetenv(names[i])
							} else {
								os.Setenv(names[i], s)
							}
						}
						if ex != nil {
							os.Setenv(ex[0], ex[1])
						}
						env := os.Environ()
						sort.Strings(env)
						on := func(i, v int) bool { return vals[i][v] != "\x00" && vals[i][v] != "" }
						for _, w := range ws {
							c.State(1)
							c.Trans(1)
							want := w.tty
							switch {
							case on(0, v0):
								want = false
							case on(1, v1):
								want = true
							case vals[2][v2] == "dumb":
								want = false
							}
							flags := -1
							if w.fd >= 0 {
								flags, _ = unix.FcntlInt(uintptr(w.fd), unix.F_GETFL, 0)
							}
							var got bool
							pan := catch(func() { got = jc.IsColorTerminal(w.w) })
							desc := fmt.Sprintf("NO_COLOR=%q FORCE_COLOR=%q TERM=%q %v, %s", vals[0][v0], vals[1][v1], vals[2][v2], ex, w.name)
							if pan != nil || got != want {
								c.Fail("answer "+desc, "IsColorTerminal with %s: %v %v, want %v", desc, got, pan, want)
							}
							if w.fd >= 0 {
								if fl, e := unix.FcntlInt(uintptr(w.fd), unix.F_GETFL, 0); e != nil || fl != flags {
									c.Fail("file "+w.name, "IsColorTerminal changes the file's status flags from %#x to %#x (%v): %s", flags, fl, e, desc)
								}
							}
							c.Valid(1)
						}
						env2 := os.Environ()
						sort.Strings(env2)
						if !reflect.DeepEqual(env, env2) {
							c.Fail("env", "IsColorTerminal changed the environment")
						}
						if ex != nil {
							os.Unsetenv(ex[0])
						}
					}
				}
				for _, n := range names {
					os.Unsetenv(n)
				}
			})
		}
	}
	c.Bound("%d x %d x %d values of the variables, 6 unrelated variables, every writer kind", len(vals[0]), len(vals[1]), len(vals[2]))
}

// ---------------------------------------------------------------------------
// C27

func buildJC() {
	out := filepath.Join(os.Getenv("VERIF_SCRATCH"), "jc")
	cmd := exec.Command("go", "build", "-o", out, "./cmd/jc")
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("building cmd/jc failed: %v\n%s\n", err, b)
		os.Exit(2)
	}
}

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;]*m")

// sameNumbers compares decoded documents, numbers by their exact value.
func sameNumbers(a, b any) bool {
	switch x := a.(type) {
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x) > 60 || len(y) > 60 || strings.ContainsAny(string(x+y), "eE") && (expOf(x) > 2000 || expOf(y) > 2000) {
			return false
		}
		p, ok1 := new(big.Rat).SetString(string(x))
		q, ok2 := new(big.Rat).SetString(string(y))
		return ok1 && ok2 && p.Cmp(q) == 0
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameNumbers(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !sameNumbers(x[k], v) {
				return false
			}
		}
		return true
	}
	return a == b
}

func expOf(n json.Number) int {
	i := strings.IndexAny(string(n), "eE")
	if i < 0 {
		return 0
	}
	e, err := strconv.Atoi(string(n[i+1:]))
	if err != nil {
		return 1 << 30
	}
	return max(e, -e)
}

func decodeNumbers(b []byte) (v any, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err = d.Decode(&v)
	if err == nil {
		if _, e := d.Token(); e != io.EOF {
			err = fmt.Errorf("trailing text")
		}
	}
	return
}

// keysSorted reports whether every object's keys ascend strictly.
func keysSorted(text []byte) bool {
	ts, err := tokenize(text)
	if err != nil {
		return false
	}
	var st []*string
	for _, t := range ts {
		switch t.k {
		case '{', '[':
			st = append(st, nil)
		case '}', ']':
			st = st[:len(st)-1]
		case 'K':
			var s string
			json.Unmarshal(text[t.s:t.e], &s)
			if p := st[len(st)-1]; p != nil && *p >= s {
				return false
			}
			st[len(st)-1] = &s
		}
	}
	return true
}

// docProblem checks uncolored output of jc for the document.
func docProblem(in string, out []byte, pretty bool) string {
	want, err := decodeNumbers([]byte(in))
	if err != nil {
		return "the input is not a document"
	}
	got, err := decodeNumbers(out)
	if err != nil {
		return "the output is not one JSON document: " + err.Error()
	}
	if !sameNumbers(want, got) {
		return "the output is a different document"
	}
	if !keysSorted(bytes.TrimSpace(out)) {
		return "the members are not sorted by key"
	}
	var compact, lay bytes.Buffer
	json.Compact(&compact, out)
	if pretty {
		json.Indent(&lay, compact.Bytes(), "", "  ")
	} else {
		lay = compact
	}
	if strings.TrimSuffix(string(out), "\n") != lay.String() {
		return fmt.Sprintf("the layout differs from %q", clip(lay.String(), 300))
	}
	return ""
}

type jcRun struct {
	code           int
	stdout, stderr []byte
	file           []byte
	fileExists     bool
}

func runC27(c *C) {
	bin := filepath.Join(os.Getenv("VERIF_SCRATCH"), "jc")
	envs := [][]string{{"TERM=xterm"}, {"TERM=xterm", "NO_COLOR=1"}, {"TERM=xterm", "FORCE_COLOR=1"}, {"TERM=dumb"}, {"TERM=dumb", "FORCE_COLOR=1"}, {"NO_COLOR=1", "FORCE_COLOR=1"}}
	// go runs jc: inMode 0 pipe, 1 regular file, 2 -i; outMode 0 pipe, 1 file, 2 terminal, 3 -o, 4 -o in a new directory
	_, probe, perr := openPty()
	havePty := perr == nil
	if havePty {
		probe.Close()
	} else {
		c.Count("no_pseudo_terminals", 1)
	}
	run := func(doc string, flags, env []string, inMode, outMode int) (r jcRun, err error) {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c27")
		if err != nil {
			return r, err
		}
		defer os.RemoveAll(dir)
		args := append([]string{}, flags...)
		cmd := exec.Command(bin)
		cmd.Dir = dir
		cmd.Env = append([]string{"HOME=" + dir, "PATH=/usr/bin:/bin"}, env...)
		var errb bytes.Buffer
		cmd.Stderr = &errb
		inFile := filepath.Join(dir, "in put.json")
		if inMode == 1 || inMode == 2 {
			os.WriteFile(inFile, []byte(doc), 0o644)
		}
		switch inMode {
		case 0:
			cmd.Stdin = strings.NewReader(doc)
		case 3: // in pieces, with pauses of the sender
			pr, pw, e := os.Pipe()
			if e != nil {
				return r, e
			}
			cmd.Stdin = pr
			defer pr.Close()
			go func() {
				defer pw.Close()
				for i := 0; i < len(doc); {
					n := min(len(doc), i+1+len(doc)/5)
					if _, e := pw.WriteString(doc[i:n]); e != nil {
						return
					}
					i = n
					time.Sleep(2 * time.Millisecond)
				}
			}()
		case 1:
			f, e := os.Open(inFile)
			if e != nil {
				return r, e
			}
			defer f.Close()
			cmd.Stdin = f
		case 2:
			args = append(args, "-i", inFile)
		}
		outFile := filepath.Join(dir, "out.json")
		var outb bytes.Buffer
		var master, slave, of *os.File
		var wg sync.WaitGroup
		switch outMode {
		case 0:
			cmd.Stdout = &outb
		case 1:
			of, err = os.Create(filepath.Join(dir, "stdout"))
			if err != nil {
				return r, err
			}
			cmd.Stdout = of
		case 2:
			master, slave, err = openPty()
			if err != nil {
				return r, err
			}
			cmd.Stdout = slave
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := make([]byte, 4096)
				for {
					n, e := master.Read(b)
					outb.Write(b[:n])
					if e != nil {
						return
					}
				}
			}()
		case 3:
			cmd.Stdout = &outb
			args = append(args, "-o", outFile)
		case 4:
			cmd.Stdout = &outb
			outFile = filepath.Join(dir, "sub", "dir", "out.json")
			args = append(args, "-o=sub/dir/out.json")
		case 5, 6, 7: // onto an existing file: shorter, longer, much longer
			cmd.Stdout = &outb
			args = append(args, "-o", outFile)
			os.WriteFile(outFile, bytes.Repeat([]byte("old contents\n"), []int{0, 3, 40000 + len(doc)/6}[outMode-5]), 0o644)
		case 8: // a link to an existing file
			cmd.Stdout = &outb
			args = append(args, "-o", outFile)
			os.WriteFile(filepath.Join(dir, "target"), bytes.Repeat([]byte("[1]\n"), 5000), 0o600)
			os.Symlink("target", outFile)
		}
		cmd.Args = append([]string{"jc"}, args...)
		timer := time.AfterFunc(60*time.Second, func() {
			if cmd.Process != nil {
				cmd.Process.Kill()
			}
		})
		err = cmd.Run()
		timer.Stop()
		if slave != nil {
			slave.Close()
			wg.Wait()
			master.Close()
		}
		r.code = cmd.ProcessState.ExitCode()
		if _, ok := err.(*exec.ExitError); ok {
			err = nil
		}
		r.stdout, r.stderr = outb.Bytes(), errb.Bytes()
		if of != nil {
			of.Close()
			r.stdout, _ = os.ReadFile(of.Name())
		}
		if b, e := os.ReadFile(outFile); e == nil && outMode >= 3 {
			r.file, r.fileExists = b, true
		}
		return r, err
	}
	ok := 0
	one := func(doc string, pretty, color int, env []string, inMode, outMode int) {
		var flags []string
		if s := []string{"", "-p=true", "-p=false"}[pretty]; s != "" {
			flags = append(flags, s)
		}
		if s := []string{"", "-c=true", "-c=false"}[color]; s != "" {
			flags = append(flags, s)
		}
		c.State(1)
		c.Trans(1)
		r, err := run(doc, flags, env, inMode, outMode)
		if err != nil {
			c.Count("runs_that_could_not_be_started", 1)
			return
		}
		key := fmt.Sprintf("%v %v in%d out%d %s", flags, env, inMode, outMode, clip(doc, 60))
		bad := func(f string, a ...any) {
			c.Fail(key, "jc %v with %v, input %d, output %d, document %q: exit %d, stdout %q, stderr %q, file %v %q: %s", flags, env, inMode, outMode, clip(doc, 200), r.code, clip(string(r.stdout), 300), clip(string(r.stderr), 200), r.fileExists, clip(string(r.file), 300), fmt.Sprintf(f, a...))
		}
		if !stdValid(doc) {
			switch {
			case r.code == 0:
				bad("exits 0 for something that is not a document")
			case len(r.stderr) == 0:
				bad("reports nothing on standard error")
			case len(r.stdout) != 0 || len(r.file) != 0:
				bad("writes something for what is not a document")
			}
			return
		}
		if r.code != 0 {
			bad("fails for a document")
			return
		}
		out := r.stdout
		if outMode >= 3 {
			if !r.fileExists || len(r.stdout) != 0 {
				bad("output must go to the file only")
				return
			}
			out = r.file
		}
		has := func(e string) bool {
			for _, x := range env {
				if x == e {
					return true
				}
			}
			return false
		}
		colored := color != 2 && outMode < 3 && !has("NO_COLOR=1") && (has("FORCE_COLOR=1") || outMode == 2 && !has("TERM=dumb"))
		if bytes.IndexByte(out, 0x1b) >= 0 != colored {
			bad("color codes: %v, want %v", !colored, colored)
			return
		}
		plain := ansiRE.ReplaceAll(out, nil)
		if p := docProblem(doc, plain, pretty != 2); p != "" {
			bad("%s", p)
			return
		}
		if colored {
			u, err := run(doc, append(flags, "-c=false"), env, inMode, outMode)
			if err == nil && !bytes.Equal(u.stdout, plain) {
				bad("without its color codes the output differs from the uncolored output %q", clip(string(u.stdout), 300))
			}
		}
		ok++
		c.Valid(1)
	}
	docs := []string{
		`{"b":1,"a":[true,false,null,"x<>&é\u0041\n",-1.5e3,{}],"":{"z":[],"y":{"k":[[]]}}}`, `[]`, ` {} `, `"s"`, `1`, `null`, "\n[1,\n2]\n", `{"a":1,"a":2}`, `12345678901234567890`, `[1.0,1e400,0.1000,-0,1E2]`, `"\ud83d\ude00\u2028<\b\f"`, `{"k":"\u001b[31m"}`,
	}
	badDocs := []string{``, ` `, `{`, `[1,]`, `1 2`, `{} x`, `tru`, `"a`, `{"a":1}}`, "\xff", `[1]]`, `nul`, `{'a':1}`}
	outs := []int{0, 1, 3, 4}
	if havePty {
		outs = []int{0, 1, 2, 3, 4}
	}
	for _, d := range append(append([]string{}, docs...), badDocs...) {
		for pretty := 0; pretty < 3; pretty++ {
			for color := 0; color < 3; color++ {
				c.Case(func() string { return fmt.Sprintf("%q with pretty %d, color %d", d, pretty, color) }, func() {
					for _, env := range envs {
						for inMode := 0; inMode < 3; inMode++ {
							for _, outMode := range outs {
								if stdValid(d) && d != docs[0] && !c.thorough && (inMode+outMode+pretty)%3 != 0 {
									continue
								}
								if !stdValid(d) && !c.thorough && (pretty != 0 || color == 1 || len(env) == 2) {
									continue
								}
								one(d, pretty, color, env, inMode, outMode)
							}
						}
					}
				})
			}
		}
	}
	// more documents, through one path
	more := []string{rep("[", 300) + rep("]", 300), rep(`{"a":`, 200) + "1" + rep("}", 200), "[" + rep("1,", 30000) + "1]", `"` + rep("long ", 40000) + `"`}
	for n := 1; n <= c.Pick(3, 4); n++ {
		seqs(9, n, func(ix []int) {
			s := ""
			for _, x := range ix {
				s += []string{`{`, `}`, `[`, `]`, `,`, `"a":`, `1`, `"<"`, `null`}[x]
			}
			if n < 3 || stdValid(s) {
				more = append(more, s)
			}
		})
	}
	for _, l := range leaves() {
		for _, d := range docsOf(l, 2, 2000) {
			more = append(more, d)
		}
	}
	for lo := 0; lo < len(more); lo += 10 {
		c.Case(func() string { return fmt.Sprintf("documents from %q", clip(more[lo], 100)) }, func() {
			for i := lo; i < lo+10 && i < len(more); i++ {
				one(more[i], 0, 0, envs[0], 0, 0)
				one(more[i], 2, 0, envs[2], 2, 0)
				if i%4 == 0 {
					one(more[i], 1, 1, envs[2], 1, 3)
				}
			}
		})
	}
	// documents of every size, through every path, onto files that exist
	for _, n := range ladder(1, c.Pick(1<<21+1, 1<<23+1)) {
		if n > 2 && n < 100 {
			continue
		}
		for si, doc := range []string{`"` + rep("s", n) + `"`, "[" + strings.TrimSuffix(rep("10,", n/3+1), ",") + "]", rep("\n", n) + `{"b":"<","a":1}` + rep(" ", n), `{"z":"` + rep(`\n`, n/2) + `","a":[{"c":null,"b":true}]}`} {
			c.Case(func() string { return fmt.Sprintf("a document of size %d, shape %d", n, si) }, func() {
				for inMode := 0; inMode < 4; inMode++ {
					for _, outMode := range []int{0, 1, 3, 5, 6, 7, 8} {
						if (inMode+outMode+si)%4 != 0 && n > 3000 && !c.thorough {
							continue
						}
						one(doc, (inMode+outMode)%3, 0, envs[(outMode+n)%2*2], inMode, outMode)
						if n > 4 && outMode < 5 {
							one(doc[:len(doc)-n/2-1]+"\x01", 0, 0, envs[0], inMode, outMode)
						}
						if outMode < 5 && n < 100000 {
							one(doc+" 1", 0, 0, envs[2], inMode, outMode)
						}
					}
				}
			})
		}
	}
	for _, d := range append(append([]string{}, docs...), badDocs...) {
		c.Case(func() string { return fmt.Sprintf("%q in pieces, onto existing files", d) }, func() {
			for inMode := 0; inMode < 4; inMode++ {
				for outMode := 3; outMode < 9; outMode++ {
					if !stdValid(d) && outMode > 4 {
						continue // what becomes of the old contents is not said
					}
					for pretty := 0; pretty < 3; pretty++ {
						one(d, pretty, 0, envs[(pretty+inMode)%3], inMode, outMode)
					}
				}
				one(d, 1, 1, envs[2], inMode, 0)
			}
		})
	}
	// files that cannot be read or written
	c.Case(func() string { return "unreadable input, unwritable output" }, func() {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c27")
		if err != nil {
			return
		}
		defer os.RemoveAll(dir)
		os.WriteFile(filepath.Join(dir, "doc"), []byte(`{"a":1}`), 0o644)
		os.WriteFile(filepath.Join(dir, "plain"), []byte("keep"), 0o644)
		type sc struct {
			name string
			args []string
			out  string // standard output
		}
		for _, s := range []sc{
			{"missing -i file", []string{"-i", "missing"}, ""},
			{"-i is a directory", []string{"-i", "."}, ""},
			{"-i missing with -o", []string{"-i", "missing", "-o", "out"}, ""},
			{"-o is a directory", []string{"-i", "doc", "-o", "."}, ""},
			{"-o below a file", []string{"-i", "doc", "-o", "plain/x"}, ""},
			{"unknown flag", []string{"-z", "-i", "doc"}, ""},
			{"-o full device", []string{"-i", "doc", "-o", "/dev/full"}, ""},
			{"full standard output", []string{"-i", "doc"}, "/dev/full"},
			{"terminal input", nil, ""},
		} {
			for _, extra := range [][]string{nil, {"-c=false"}, {"-p=false"}} {
				c.State(1)
				c.Trans(1)
				cmd := exec.Command(bin, append(append([]string{}, extra...), s.args...)...)
				cmd.Dir = dir
				cmd.Env = []string{"HOME=" + dir, "TERM=xterm", "FORCE_COLOR=1"}
				var outb, errb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &outb, &errb
				if s.out != "" {
					f, err := os.OpenFile(s.out, os.O_WRONLY, 0)
					if err != nil {
						c.Count("no_"+s.out, 1)
						continue
					}
					defer f.Close()
					cmd.Stdout = f
				}
				if st, e := os.Stat("/dev/full"); e != nil || st.Mode()&os.ModeCharDevice == 0 {
					if strings.Contains(strings.Join(s.args, " "), "/dev/full") {
						continue
					}
				}
				cmd.Run() // standard input is the null device
				if code := cmd.ProcessState.ExitCode(); code == 0 || errb.Len() == 0 || outb.Len() != 0 {
					c.Fail(s.name, "jc %v %v, %s: exit %d, stdout %q, stderr %q", extra, s.args, s.name, code, outb.String(), clip(errb.String(), 200))
					continue
				}
				if b, _ := os.ReadFile(filepath.Join(dir, "plain")); string(b) != "keep" {
					c.Fail(s.name+" file", "jc %v changed an unrelated file", s.args)
				}
				if b, e := os.ReadFile(filepath.Join(dir, "out")); e == nil && len(b) > 0 {
					c.Fail(s.name+" out", "jc %v wrote %q", s.args, b)
				}
				c.Valid(1)
			}
		}
	})
	c.Bound("%d documents and %d other texts x 9 flag settings x %d environments x 3 inputs x %d outputs; %d further documents", len(docs), len(badDocs), len(envs), len(outs), len(more))
}
