package main

import (
	"fmt"
	neturl "net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C24", Run: runC24, QuickSec: 240, Setup: setupC24,
		Rule:        "(1) two client sessions under a cooperative scheduler whose switching points are every file-system call and every download; every schedule with at most 2 (thorough: 3 for three pairs of states) preemptions; pairs of repository states x starting caches for a shared metadata directory, and different repositories with separate directories; each client's results must be those of running before or after the other, the cache afterwards holds only complete verified documents and no temporary files, and the next session behaves as the client-workflow model says. (2) nine different clients of separate repositories that use the same names for different things, in pairs: the library is rebuilt with a switching point before every statement, and one session runs whole at each of the points of the other (quick: the first two visits of each statement), or begins at a function call of the other and stops at a call of its own until that has ended (two switches; quick: first visit of each function, every 7th second point); everything seen of both must be what each gives alone. Supplement, not exhaustive: the same pairs really at the same time under the race detector",
		Assumptions: []string{"with a shared directory switches happen at file-system calls and downloads only; at every statement only for clients that share nothing but the process", "two clients at a time", "dependencies of the library run without interruption", "the repository does not publish two different documents of one role with one version"}})
}

// sched runs clients one at a time and decides at every point who goes on.
type sched struct {
	mu     sync.Mutex
	ids    map[uint64]int
	events chan int // a client stopped at a point (>= 0) or ended (-1-i)
	resume []chan struct{}
	where  []string // the point each client stopped at
}

func (s *sched) point(what string) {
	s.mu.Lock()
	i, mine := s.ids[goid()]
	s.mu.Unlock()
	if !mine {
		return
	}
	s.where[i] = what
	s.events <- i
	<-s.resume[i]
}

// step is one decision: who ran, who else could have.
type step struct {
	chose int
	could []int
	last  int // who ran before (-1: start)
	where string
}

// runSched runs the bodies under the given choices; afterwards the running client goes on.
// after, if given, is called whenever all clients are stopped, with the last point passed.
func runSched(t *T, prefix []int, bodies []func(s *sched), after func(passed string) string) (steps []step, fail string) {
	n := len(bodies)
	s := &sched{ids: map[uint64]int{}, events: make(chan int, n), where: make([]string, n)}
	done := make([]bool, n)
	parked := make([]bool, n)
	panics := make([]any, n)
	for range bodies {
		s.resume = append(s.resume, make(chan struct{}))
	}
	setFS(func(c fsCall) syscall.Errno {
		if c.Op == "close" || c.Op == "read" && c.N <= 2 || c.Op == "write" && c.N <= 2 {
			return 0
		}
		if c.A != "" && !strings.HasPrefix(c.A, t.c.scratch) {
			return 0
		}
		s.point(c.Op + " " + filepath.Base(c.A))
		return 0
	})
	defer hookOff()
	for i := range bodies {
		go func() {
			defer func() {
				panics[i] = recover()
				s.mu.Lock()
				delete(s.ids, goid())
				s.mu.Unlock()
				s.events <- -1 - i
			}()
			s.mu.Lock()
			s.ids[goid()] = i
			s.mu.Unlock()
			s.point("start")
			bodies[i](s)
		}()
	}
	// wait for one client to stop or end; false: nothing happens any more
	wait := func(d time.Duration) bool {
		select {
		case e := <-s.events:
			if e < 0 {
				done[-1-e] = true
				parked[-1-e] = true
			} else {
				parked[e] = true
			}
			return true
		case <-time.After(d):
			return false
		}
	}
	for k := 0; k < n; k++ {
		wait(time.Hour)
	}
	last := -1
	for {
		var could []int
		for i := range bodies {
			if parked[i] && !done[i] {
				could = append(could, i)
			}
		}
		if len(could) == 0 {
			all := true
			for i := range done {
				all = all && done[i]
			}
			if all {
				break
			}
			if !wait(20 * time.Second) {
				return steps, "the clients wait for each other"
			}
			continue
		}
		ch := could[0]
		for _, i := range could {
			if i == last {
				ch = i
			}
		}
		if k := len(steps); k < len(prefix) {
			ch = -1
			for _, i := range could {
				if i == prefix[k] {
					ch = i
				}
			}
			if ch < 0 { // waiting for a lock this time: let the other go on
				ch = could[0]
			}
		}
		steps = append(steps, step{ch, could, last, s.where[ch]})
		last = ch
		parked[ch] = false
		passed := s.where[ch]
		s.resume[ch] <- struct{}{}
		// a client that neither stops nor ends waits for a lock the other one holds
		if !wait(300 * time.Millisecond) {
			continue
		}
		if after != nil && fail == "" {
			fail = after(passed)
		}
	}
	if fail != "" {
		return steps, fail
	}
	for i, p := range panics {
		if p != nil {
			if f, is := p.(failure); is {
				return steps, f.msg
			}
			return steps, fmt.Sprintf("client %d: panic: %v", i, p)
		}
	}
	return steps, ""
}

// schedules visits every schedule with at most bound preemptions.
// The alternatives of the first execution are dealt out to parts.
func schedules(bound, part, parts int, run func(prefix []int) []step) {
	type item struct {
		prefix []int
		used   int
	}
	stack := []item{{nil, 0}}
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		steps := run(it.prefix)
		var chosen []int
		used := it.used
		nth := 0
		for k, s := range steps {
			if k >= len(it.prefix) {
				for _, o := range s.could {
					if o == s.chose {
						continue
					}
					cost := 0
					if s.last >= 0 {
						for _, i := range s.could {
							if i == s.last {
								cost = 1 // the running client could go on
							}
						}
					}
					if nth++; it.prefix == nil && nth%parts != part {
						continue
					}
					if used+cost <= bound {
						stack = append(stack, item{append(append([]int{}, chosen...), o), used + cost})
					}
				}
			}
			chosen = append(chosen, s.chose)
		}
	}
}

// csess is one client of a scenario.
type csess struct {
	world  string
	net    Net
	anchor *Doc
	cfg    SCfg
	script []call
	dir    string // "" the shared one
}

// run does the session in dir and tells what came out.
func (x csess) run(dir string, yield func(string)) string {
	var out []string
	f := &netFetcher{net: x.net, max: 200, yield: yield}
	r, err := newRClientF(x.anchor, dir, x.cfg, f)
	if err != nil {
		return "no client: " + err.Error()
	}
	for _, c := range x.script {
		if c == "refresh" {
			err := r.Up.Refresh()
			out = append(out, fmt.Sprint("refresh ", err == nil))
			if err == nil {
				set := r.Up.GetTrustedMetadataSet()
				out = append(out, fmt.Sprintf("root %d timestamp %d snapshot %d targets %d", set.Root.Signed.Version, set.Timestamp.Signed.Version, set.Snapshot.Signed.Version, set.Targets["targets"].Signed.Version))
			}
			continue
		}
		p, dl := strings.CutPrefix(string(c), "download ")
		if !dl {
			p = string(c)[4:]
		}
		ti, err := r.Up.GetTargetInfo(p)
		if err != nil {
			out = append(out, p+" not found")
			continue
		}
		out = append(out, p+" "+ti.Hashes["sha256"].String()[:8])
		if dl {
			_, cached, err := r.Up.FindCachedTarget(ti, "")
			if err != nil || cached != nil && sha256hex(cached) != ti.Hashes["sha256"].String() {
				out = append(out, fmt.Sprintf("WRONG cached target %q %v", cached, err))
			}
			_, data, err := r.Up.DownloadTarget(ti, "", baseURL+"targets/")
			out = append(out, fmt.Sprintf("%q %v", data, err))
		}
	}
	return strings.Join(out, "; ")
}

type cscen struct {
	name    string
	cache   MCache
	clients []csess
	next    []csess // sessions to run afterwards
	allowed map[string]bool
	shared  bool
	bound   int
	part    int
	parts   int
}

func copyCache(dir string, c MCache) {
	must(os.MkdirAll(filepath.Join(dir, "md"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "tg"), 0o755))
	c.fill(filepath.Join(dir, "md"))
}

func (k cscen) check(t *T, c *Ctx) {
	base := t.Dir()
	nd := 0
	fresh := func() []string {
		nd++
		var ds []string
		for i := range k.clients {
			d := filepath.Join(base, fmt.Sprint(nd))
			if !k.shared {
				d = filepath.Join(d, fmt.Sprint("client", i))
			}
			copyCache(d, k.cache)
			ds = append(ds, d)
		}
		return ds
	}
	seq := func(order []int) []string {
		ds := fresh()
		out := make([]string, len(k.clients))
		for _, i := range order {
			out[i] = k.clients[i].run(ds[i], nil)
		}
		for _, d := range ds {
			must(os.RemoveAll(d))
		}
		return out
	}
	mapOrder(true, 1)
	defer mapOrder(false, 0)
	okOut := make([]map[string]bool, len(k.clients))
	for i := range okOut {
		okOut[i] = map[string]bool{}
	}
	orders := [][]int{{0, 1}, {1, 0}}
	if len(k.clients) == 3 {
		orders = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	for _, o := range orders {
		for i, s := range seq(o) {
			okOut[i][s] = true
			if strings.Contains(s, "WRONG") {
				t.Fail("%s", s)
			}
		}
	}
	finals := map[string]bool{}
	nsched := 0
	schedules(k.bound, k.part, k.parts, func(prefix []int) []step {
		if c.Expired() {
			return nil
		}
		ds := fresh()
		out := make([]string, len(k.clients))
		var bodies []func(s *sched)
		for i := range k.clients {
			bodies = append(bodies, func(s *sched) {
				if p := guard(func() { out[i] = k.clients[i].run(ds[i], s.point) }); p != "" {
					panic(failure{msg: p})
				}
			})
		}
		// whenever the clients are stopped, each metadata file is complete: what a crash, or the next read, would find
		whole := func(passed string) string {
			if op, _, _ := strings.Cut(passed, " "); op == "read" || op == "stat" || op == "start" || op == "GET" {
				return ""
			}
			for n, b := range readDir(filepath.Join(ds[0], "md")) {
				if strings.HasSuffix(n, ".json") {
					if doc := docOf([]byte(b)); doc == nil || doc != k.cache[n] && !k.allowed[doc.Name] {
						return fmt.Sprintf("after %s: %s is not a complete verified document: %.60q", passed, n, b)
					}
				}
			}
			return ""
		}
		if !k.shared {
			whole = nil
		}
		steps, fail := runSched(t, prefix, bodies, whole)
		nsched++
		t.Trans(len(steps))
		t.Reset()
		for j, s := range steps {
			if j == 0 || s.chose != s.last {
				t.Log("client %d goes on at step %d: %s", s.chose, j, s.where)
			}
		}
		if fail != "" {
			t.Fail("%s", fail)
		}
		for i, o := range out {
			if !okOut[i][o] {
				t.Fail("client %d (%s) ends with %q, alone or in order it ends with one of %q", i, k.clients[i].world, o, sortedKeys(okOut[i]))
			}
		}
		key := ""
		var caches []MCache
		for i, d := range ds {
			m := MCache{}
			for n, b := range readDir(filepath.Join(d, "md")) {
				doc := docOf([]byte(b))
				if doc != nil && doc == k.cache[n] { // left alone
					m[n] = doc
					continue
				}
				if doc == nil || !k.allowed[doc.Name] {
					t.Fail("afterwards %s is not one of the verified documents: %.60q", n, b)
				}
				if want := strings.TrimSuffix(n, ".json"); doc.Kind != want && !(doc.Kind == "targets" && !topRole[want]) {
					t.Fail("afterwards %s holds %s", n, doc.Name)
				}
				m[n] = doc
			}
			for n, b := range readDir(filepath.Join(d, "tg")) {
				if p, _ := neturl.QueryUnescape(n); b != c24content(p) {
					t.Fail("afterwards the target file %s holds %q", n, b)
				}
			}
			caches = append(caches, m)
			key += m.key() + "|"
			if k.shared && i == 0 {
				break
			}
		}
		t.State(k.name + key + strings.Join(out, "|"))
		t.Outcome(fmt.Sprint("preempted ", len(prefix) > 0))
		if !finals[key] {
			finals[key] = true
			for i, m := range caches {
				for j, x := range k.next {
					if !k.shared && j != i {
						continue
					}
					hist := append([]string{}, t.hist...)
					session(t, x.anchor, m, x.cfg, x.net, time.Time{}, x.script)
					t.hist = hist
				}
			}
		}
		for _, d := range ds {
			must(os.RemoveAll(d))
		}
		return steps
	})
	c.mu.Lock()
	c.res.Traces += int64(nsched)
	c.mu.Unlock()
}

func c24targets(net Net) Net {
	return func(n int, p string) Reply {
		if r, is := strings.CutPrefix(p, "targets/"); is {
			return Reply{Doc: &Doc{Name: "target", Bytes: []byte(c24content(r))}}
		}
		return net(n, p)
	}
}

func c24content(p string) string { return map[string]string{"d/a": "a2", "t": "t2", "d/b": "b1"}[p] }

func runC24(c *Ctx) {
	if !hooked {
		panic(harnessError{"C24 needs the hooked build"})
	}
	regOn = true
	runC24Sides(c)
	bound := Pick(c, 2, 3)
	cfg := defCfg()
	u := stdUniverse(true, true)
	v := stdUniverse(false, false)
	honest := map[string]bool{}
	for _, x := range []*universe{u, v} {
		for _, w := range x.worlds {
			for _, d := range w {
				honest[d.Name] = true
			}
		}
		honest[x.anchor.Name] = true
	}
	caches := func(x *universe) map[string]MCache {
		m := map[string]MCache{"cold": {}}
		for _, w := range []string{"S1", "S2", "rotated", "freeze"} {
			m[w] = x.modelRun(&cnode{cache: MCache{}, anchor: x.anchor}, edge{w, nil}, cfg).Cache
		}
		bad := m["S1"].clone()
		for n, d := range bad {
			bad[n] = truncated(d)
		}
		m["damaged"] = bad
		return m
	}
	cl := func(x *universe, w string, script ...call) csess {
		if script == nil {
			script = []call{"refresh", "get d/a"}
		}
		return csess{world: w, net: c24targets(x.net(w, nil)), anchor: x.anchor, cfg: cfg, script: script}
	}
	type pair struct{ cache, a, b string }
	pairs := []pair{{"cold", "S1", "S1"}, {"S1", "S3", "S3"}, {"S1", "S2", "S3"}, {"cold", "S1", "S3"}, {"S1", "S1", "rotated"}, {"damaged", "S2", "S2"}, {"S2", "S2", "fast-forward-ts"}, {"S1", "freeze", "S3"}}
	if c.Thorough() {
		pairs = nil
		for _, ca := range []string{"cold", "S1", "S2", "rotated", "freeze", "damaged"} {
			for i, a := range []string{"S1", "S2", "S3", "rotated", "rotated-twice", "freeze", "targets-expired", "fast-forward-ts"} {
				for j, b := range []string{"S1", "S2", "S3", "rotated", "rotated-twice", "freeze", "targets-expired", "fast-forward-ts"} {
					if i <= j {
						pairs = append(pairs, pair{ca, a, b})
					}
				}
			}
		}
	}
	deep := map[pair]bool{{"S1", "S3", "S3"}: true, {"S1", "S2", "S3"}: true, {"cold", "S1", "rotated"}: true}
	for xi, x := range []*universe{u, v} {
		cs := caches(x)
		for pi, p := range pairs {
			if xi == 1 && !c.Thorough() && pi > 2 {
				continue
			}
			if !oneDocPerVersion(cs[p.cache], x.worlds[p.a], x.worlds[p.b]) {
				continue
			}
			b := 2
			if xi == 0 && deep[p] {
				b = bound
			}
			if xi == 1 && c.Thorough() && !deep[p] && pi%5 > 0 {
				continue
			}
			k := cscen{name: fmt.Sprint("universe ", xi, " cache ", p.cache, " clients ", p.a, " and ", p.b), cache: cs[p.cache], clients: []csess{cl(x, p.a), cl(x, p.b)}, next: []csess{cl(x, p.b), cl(x, "S3"), cl(x, "rotated")}, allowed: honest, shared: true, bound: b}
			c24parts(c, k)
		}
	}
	// targets downloaded side by side
	for _, ca := range []string{"cold", "S2"} {
		c24parts(c, cscen{name: "downloading side by side from " + ca, cache: caches(u)[ca], clients: []csess{cl(u, "S3", "download d/a"), cl(u, "S3", "download d/a")}, next: []csess{cl(u, "S3")}, allowed: honest, shared: true, bound: 2})
	}
	// different repositories, separate directories
	for _, p := range [][2]string{{"S1", "S3"}, {"rotated", "S2"}, {"freeze", "S1"}} {
		c24parts(c, cscen{name: "separate repositories " + p[0] + " and " + p[1], cache: MCache{}, clients: []csess{cl(u, p[0]), cl(v, p[1])}, next: []csess{cl(u, "S3"), cl(v, "S3")}, allowed: honest, bound: 2})
	}
	if c.Thorough() {
		c24parts(c, cscen{name: "three clients", cache: caches(u)["S1"], clients: []csess{cl(u, "S2"), cl(u, "S3"), cl(u, "S3")}, next: []csess{cl(u, "S3")}, allowed: honest, shared: true, bound: 2})
	}
}

// oneDocPerVersion tells whether role and version identify the documents a client may meet.
func oneDocPerVersion(ms ...map[string]*Doc) bool {
	seen := map[string]*Doc{}
	for _, m := range ms {
		for n, d := range m {
			if d.Kind == "junk" {
				continue
			}
			if i := strings.Index(n, "."); d.Kind == "targets" && i > 0 && n[0] >= '0' && n[0] <= '9' {
				n = n[i+1:]
			}
			if d.Kind != "targets" {
				n = ""
			}
			k := fmt.Sprint(d.Kind, n, d.Ver)
			if o := seen[k]; o != nil && o != d {
				return false
			}
			seen[k] = d
		}
	}
	return true
}

func c24parts(c *Ctx, k cscen) {
	k.parts = 1
	if k.bound > 2 {
		k.parts = 8
	}
	for i := 0; i < k.parts; i++ {
		c.Case(func() string { return fmt.Sprintf("%s, part %d of %d", k.name, i+1, k.parts) }, func(t *T) {
			k.part = i
			k.check(t, c)
		})
	}
}
