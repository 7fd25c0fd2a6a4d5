package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one property's exploration.
type Check struct {
	ID          string
	Run         func(c *Ctx)
	Rule        string   // what is enumerated, within which bounds, against which oracle
	Assumptions []string // what the verdict rests on
	Serial      bool     // one shard only
	Shards      int      // 0 = all cores
	QuickSec    int      // internal deadline of the quick tier (default 60)
	ThoroughSec int
	Setup       func(dir string) error // run once before the shards; dir becomes MC_SETUP
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Violation is one failing case.
type Violation struct {
	Case    int64    `json:"case"`
	Name    string   `json:"name"`
	Key     string   `json:"key"`
	Msg     string   `json:"msg"`
	History []string `json:"history"`
	Repro   string   `json:"reproduced"`
}

// Result is what one shard covered.
type Result struct {
	Cases, Transitions, Traces int64
	Outcomes                   map[string]int64
	Samples                    []string
	Violations                 []Violation
	Findings                   map[string]string
	Capped                     bool
	Notes                      []string
	Unreproduced               []Violation
	Done                       bool
}

// Ctx drives one shard.
type Ctx struct {
	ID             string
	Tier           string
	Seed           int64
	shard, nshards int
	idx            int64
	only           int64
	scratch        string
	deadline       time.Time
	res            *Result
	states         map[uint64]struct{}
	marker         []byte // mmap'ed: case index, tick
	tick           atomic.Int64
	known          map[string]bool
	stop           bool
	curName        func() string
	mu             sync.Mutex
	dirN           int
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier, th in the thorough one.
func Pick[X any](c *Ctx, q, th X) X {
	if c.Thorough() {
		return th
	}
	return q
}

type failure struct {
	key, msg string
	finding  bool
}

// T is one execution of one case.
type T struct {
	c    *Ctx
	hist []string
	fin  map[string]string
	tr   int64
	st   []uint64
	out  map[string]int64
	dirs []string
}

func (t *T) Log(format string, a ...any) { t.hist = append(t.hist, fmt.Sprintf(format, a...)) }
func (t *T) Reset()                      { t.hist = t.hist[:0] }
func (t *T) Mark() int                   { return len(t.hist) }
func (t *T) Cut(n int)                   { t.hist = t.hist[:n] }

// Fail reports a violation.
func (t *T) Fail(format string, a ...any) {
	panic(failure{key: "", msg: fmt.Sprintf(format, a...)})
}

// Finding reports a violation that may be listed as known under key.
func (t *T) Finding(key, format string, a ...any) {
	if t.c.known[key] {
		if _, ok := t.fin[key]; !ok {
			t.fin[key] = fmt.Sprintf(format, a...)
		}
		return
	}
	panic(failure{key: key, msg: fmt.Sprintf(format, a...)})
}

// Trans counts n executed transitions of the real code.
func (t *T) Trans(n int) { t.tr += int64(n); t.c.tick.Add(1); t.c.stampTick() }

// State counts a distinct state (canonical form s).
func (t *T) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	t.st = append(t.st, h.Sum64())
}

// Outcome counts distinct observed outcomes (small set).
func (t *T) Outcome(s string) { t.out[s]++ }

// Dir makes a fresh scratch directory, removed at the end of the case.
func (t *T) Dir() string {
	t.c.dirN++
	d := filepath.Join(t.c.scratch, fmt.Sprintf("d%d", t.c.dirN))
	must(os.MkdirAll(d, 0o755))
	t.dirs = append(t.dirs, d)
	return d
}

// must stops at a step that has to succeed. What the operating system refuses is
// the harness's trouble; anything else is an honest step through the code under
// test (making a key, signing, reading back what was written) that failed.
func must(err error) {
	if err == nil {
		return
	}
	var pe *fs.PathError
	var le *os.LinkError
	var se *os.SyscallError
	var en syscall.Errno
	if errors.As(err, &pe) || errors.As(err, &le) || errors.As(err, &se) || errors.As(err, &en) {
		panic(harnessError{err.Error()})
	}
	panic(stepFailed{err.Error()})
}

type harnessError struct{ msg string }

type stepFailed struct{ msg string }

func (s stepFailed) String() string { return "a step that has to succeed failed: " + s.msg }

func (c *Ctx) stampTick() {
	if c.marker != nil {
		binary.LittleEndian.PutUint64(c.marker[8:], uint64(c.tick.Load()))
	}
}

// Expired tells whether the shard's internal deadline is over.
func (c *Ctx) Expired() bool {
	if c.only >= 0 {
		return false
	}
	if realNow().After(c.deadline) {
		c.res.Capped = true
		return true
	}
	return false
}

// Case runs body if this shard owns it. name describes it.
func (c *Ctx) Case(name func() string, body func(t *T)) {
	i := c.idx
	c.idx++
	if c.stop {
		return
	}
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else if int(i%int64(c.nshards)) != c.shard {
		return
	}
	if c.Expired() {
		c.stop = true
		return
	}
	c.curName = name
	if c.marker != nil {
		binary.LittleEndian.PutUint64(c.marker, uint64(i)+1)
	}
	c.tick.Add(1)
	c.stampTick()
	t, f := c.exec(body)
	c.res.Cases++
	c.res.Traces++
	c.res.Transitions += t.tr
	for _, s := range t.st {
		c.states[s] = struct{}{}
	}
	for k, v := range t.out {
		c.res.Outcomes[k] += v
	}
	for k, v := range t.fin {
		if _, ok := c.res.Findings[k]; !ok {
			c.res.Findings[k] = v
		}
	}
	if len(c.res.Samples) < 3 && (c.res.Cases == 1 || c.res.Cases == 7 || c.res.Cases == 31) {
		c.res.Samples = append(c.res.Samples, name()+tail(t.hist, 6))
	}
	if f == nil {
		return
	}
	v := Violation{Case: i, Name: name(), Key: f.key, Msg: f.msg, History: append([]string{}, t.hist...)}
	n := 0
	for k := 0; k < 5; k++ {
		if _, g := c.exec(body); g != nil {
			n++
		}
	}
	v.Repro = fmt.Sprintf("%d/5", n)
	if n == 0 {
		c.res.Unreproduced = append(c.res.Unreproduced, v)
		return
	}
	c.res.Violations = append(c.res.Violations, v)
	c.stop = true
}

func tail(h []string, n int) string {
	if len(h) == 0 {
		return ""
	}
	if len(h) > n {
		h = h[len(h)-n:]
	}
	return " :: " + strings.Join(h, " ; ")
}

func (c *Ctx) exec(body func(t *T)) (t *T, f *failure) {
	t = &T{c: c, fin: map[string]string{}, out: map[string]int64{}}
	defer func() {
		hookOff()
		setClock(nil)
		mapOrder(false, 0)
		for _, d := range t.dirs {
			_ = os.RemoveAll(d)
		}
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failure:
				f = &x
			case harnessError:
				panic(x)
			case stepFailed:
				f = &failure{key: "setup", msg: x.String() + "\n" + trimStack(debug.Stack())}
			default:
				f = &failure{key: "panic", msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
			}
		}
	}()
	body(t)
	return t, nil
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-tuf-metadata") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// guard runs f and turns a panic of the code under test into an error string.
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, harnessError, stepFailed:
				panic(r)
			}
			p = fmt.Sprintf("panic: %v @ %s", r, strings.ReplaceAll(trimStack(debug.Stack()), "\n", " | "))
		}
	}()
	f()
	return ""
}

type knownFile struct {
	Findings []struct{ Property, Key, What string } `json:"findings"`
	Fixed    []string                               `json:"fixed"`
}

func loadKnown(path, id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	var k knownFile
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(2)
	}
	for _, f := range k.Findings {
		if f.Property == id {
			m[f.Key] = true
		}
	}
	return m
}

// hangSec is how long nothing may happen before the code under test counts as hanging.
func (c *Ctx) hangSec() int { return Pick(c, 40, 90) }

// rss is the resident memory of this process.
func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	_, _ = fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

// runShard runs in a child process.
func runShard(ch *Check, c *Ctx, outFile string) {
	if f, err := os.OpenFile(outFile+".mark", os.O_RDWR|os.O_CREATE, 0o644); err == nil {
		_ = f.Truncate(16)
		c.marker, _ = syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		f.Close()
	}
	write := func() {
		c.res.Done = true
		b, _ := json.Marshal(c.res)
		must(os.WriteFile(outFile, b, 0o644))
		sb := make([]byte, 0, 8*len(c.states))
		for s := range c.states {
			sb = binary.LittleEndian.AppendUint64(sb, s)
		}
		must(os.WriteFile(outFile+".states", sb, 0o644))
	}
	// watchdog: no progress at all for hangSec() seconds is a hang of the code under test
	go func() {
		last, since := int64(-1), 0
		for i := 0; ; i++ {
			time.Sleep(200 * time.Millisecond)
			// memory without bound is a hang too
			if rss() > 3500<<20 && c.curName != nil {
				fmt.Fprintf(os.Stderr, "HANG case %d %s: more than 3.5 GB of memory in use\n", c.idx-1, c.curName())
				os.Exit(3)
			}
			if i%5 != 4 {
				continue
			}
			if n := c.tick.Load(); n != last {
				last, since = n, 0
				continue
			}
			since++
			if since >= c.hangSec() && c.curName != nil {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG case %d %s\n%s\n", c.idx-1, c.curName(), trimStack(buf))
				os.Exit(3)
			}
		}
	}()
	ch.Run(c)
	hookOff()
	setClock(nil)
	write()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
