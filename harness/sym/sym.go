// Package sym is the vocabulary of the harnesses. Inside the symbolic machine its functions
// are replaced by the machine (variables become symbolic, Run executes the whole program in
// the machine); natively it replays one assignment of values against the real binary.
package sym

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Replay state (native only).
var (
	Values   map[string]uint64
	Params   map[string]int64
	Failures []string
	Covers   []string
	Observed []string // name, value, name, value...
	Binary   string   // gledger built from /repo
	Clocked  string   // gledger built with a settable clock
	Scratch  string   // directory for journals
	Repeat   = 1      // how often Run executes the binary (map order properties)
)

type abortT struct{}

// Byte is any value of [lo, hi].
func Byte(name string, lo, hi byte) byte {
	if lo == hi {
		return lo
	}
	v, ok := Values[key(name, uint64(lo), uint64(hi))]
	if !ok {
		return lo
	}
	return byte(v)
}

// Int is any value of [lo, hi].
func Int(name string, lo, hi int64) int64 {
	return lo + int64(Values[key(name, 0, uint64(hi)-uint64(lo))])
}

func key(name string, lo, hi uint64) string { return fmt.Sprintf("%s:%d-%d", name, lo, hi) }

// Choice is any of 0..n-1, explored one by one.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(Values[key(name, 0, uint64(n-1))])
}

// Conc makes the machine enumerate the values of x.
func Conc(x int) int { return x }

func Assume(c bool) {
	if !c {
		panic(abortT{})
	}
}

func Assert(c bool, label string) {
	if !c {
		Failures = append(Failures, label)
	}
}

func Cover(label string)         { Covers = append(Covers, label) }
func Observe(name, value string) { Observed = append(Observed, name, value) }

// MapOrder makes the machine iterate, from here on, the at-th hash map with more than one
// element (counted from 0) in any order: any of its elements is the first, any of the others
// the second and so on, for up to n. With at = -1 all maps are iterated in reverse.
func MapOrder(at, n int) {}

// MapRanges is how many such iterations there were since MapOrder(-1, 0).
func MapRanges() int { return 0 }

func InVM() bool { return false }
func Param(name string, def int) int {
	if v, ok := Params[name]; ok {
		return int(v)
	}
	return def
}

// Replay runs f natively; it reports the panic f ended with, if any.
func Replay(f func()) (crash string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortT); ok {
				Covers = append(Covers, "native: assumption not met")
				return
			}
			crash = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

// Catch calls f and returns the text of the panic it ends with, or "".
func Catch(f func()) (crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return ""
}

// Zone describes the host's time zone: Offset seconds east of UTC; if Trans is not 0, Offset
// applies from the instant Trans on and Before before it.
type Zone struct {
	Offset int
	Trans  int64
	Before int
}

type File struct{ Name, Data string }

// Cmd is one execution of gledger in a directory that holds Files.
type Cmd struct {
	Args  []string
	Files []File
	Env   []File // environment: name, value
	Zone  Zone
	Now   int64 // seconds since the epoch; 0: leave the clock alone
}

type Result struct {
	Out, Err string
	Code     int
	Crash    string // text of the panic, if it ended with one
	Hang     bool
	// Changed lists what the run did to the files: created, changed or removed NAME.
	Changed []string
}

// Ok says the program ended by itself.
func (r Result) Ok() bool { return r.Crash == "" && !r.Hang }

func tzif(z Zone) []byte {
	var b bytes.Buffer
	b.WriteString("TZif")
	b.WriteByte(0)
	b.Write(make([]byte, 15))
	be := func(v int32) { binary.Write(&b, binary.BigEndian, v) }
	types := []int{z.Offset}
	ntrans := 0
	if z.Trans != 0 {
		types = []int{z.Before, z.Offset}
		ntrans = 1
	}
	be(0) // isutc
	be(0) // isstd
	be(0) // leap
	be(int32(ntrans))
	be(int32(len(types)))
	be(4)
	if ntrans == 1 {
		be(int32(z.Trans))
		b.WriteByte(1)
	}
	for _, o := range types {
		be(int32(o))
		b.WriteByte(0)
		b.WriteByte(0)
	}
	b.WriteString("ZZZ\x00")
	return b.Bytes()
}

// state is the contents and attributes of the files of a directory.
type state map[string]string

func snapshot(dir string) state {
	s := state{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		n, _ := filepath.Rel(dir, p)
		i, err := d.Info()
		if err != nil {
			return nil
		}
		if d.IsDir() {
			s[n] = "directory"
			return nil
		}
		b, _ := os.ReadFile(p)
		s[n] = fmt.Sprint(i.Mode(), i.ModTime().UnixNano(), " ") + string(b)
		return nil
	})
	return s
}

func (s state) since(old state) (l []string) {
	for n, d := range s {
		if o, ok := old[n]; !ok {
			l = append(l, "created "+n)
		} else if o != d {
			l = append(l, "changed "+n)
		}
	}
	for n := range old {
		if _, ok := s[n]; !ok {
			l = append(l, "removed "+n)
		}
	}
	sort.Strings(l)
	return l
}

var runs int

// Run executes gledger.
func Run(c Cmd) Result {
	runs++
	dir := filepath.Join(Scratch, fmt.Sprintf("run%d", runs))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	for _, f := range c.Files {
		p := filepath.Join(dir, f.Name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(f.Data), 0o644); err != nil {
			panic(err)
		}
	}
	zf := filepath.Join(Scratch, fmt.Sprintf("zone%d", runs))
	os.WriteFile(zf, tzif(c.Zone), 0o644)
	bin := Binary
	env := []string{"TZ=" + zf, "PATH=/usr/bin:/bin", "HOME=" + dir}
	if c.Now != 0 {
		bin = Clocked
		env = append(env, fmt.Sprintf("VERIF_NOW=%d", c.Now))
	}
	for _, e := range c.Env {
		env = append(env, e.Name+"="+e.Data)
	}
	env = append(env, "TMPDIR="+filepath.Join(Scratch, fmt.Sprintf("tmp%d", runs)))
	os.MkdirAll(filepath.Join(Scratch, fmt.Sprintf("tmp%d", runs)), 0o755)
	before := snapshot(dir)
	one := func() Result {
		cmd := exec.Command(bin, c.Args...)
		cmd.Dir = dir
		cmd.Env = env
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var r Result
		select {
		case err := <-done:
			r = Result{Out: out.String(), Err: errb.String()}
			if err != nil {
				r.Code = cmd.ProcessState.ExitCode()
			}
			if r.Code == 2 && (strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "panic:")) {
				r.Crash = r.Err
			} else if r.Code < 0 {
				r.Crash = "killed by a signal: " + r.Err
			}
		case <-time.After(10 * time.Second):
			cmd.Process.Kill()
			<-done
			r = Result{Hang: true}
		}
		r.Changed = snapshot(dir).since(before)
		for n := range snapshot(filepath.Join(Scratch, fmt.Sprintf("tmp%d", runs))) {
			r.Changed = append(r.Changed, "created /tmp/"+n)
		}
		return r
	}
	r := one()
	for i := 1; i < Repeat; i++ {
		if pick != nil && pick(r) {
			break
		}
		r = one()
	}
	return r
}

// pick, when set by SameAs, says a run shows the difference looked for.
var pick func(Result) bool

// Differs makes the next Run natively repeat the execution (hash map order is random) until
// its output differs from that of r.
func Differs(r *Result) {
	if r == nil {
		pick, Repeat = nil, 1
		return
	}
	base := *r
	Repeat = 80
	pick = func(x Result) bool { return x.Out != base.Out || x.Code != base.Code || x.Crash != base.Crash }
}
