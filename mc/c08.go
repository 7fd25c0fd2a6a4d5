package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C08", Run: runC08,
		Rule:        "session histories (cold cache, up to date, one and two states behind, after an attack) x repository states; in the session the process stops before every mutating file operation, and in the middle of every write at 0, 1, half and all-but-one bytes; or that single operation fails (EIO, ENOSPC with and without a partial write, EACCES, EXDEV); or any read fails; thorough: a second stop in the following session. After each: every cached metadata file is the old or a newly verified version, failures of storing operations are reported and leave no further file, and the next session of a new client behaves as the reference client on exactly that cache",
		Assumptions: []string{"a process stop, not a power failure: completed system calls persist", "file-system calls are seen at package syscall; close failures are not injected"},
	})
}

type fsInject struct {
	at    int  // index of the mutating operation
	stop  bool // all later operations fail too, and the network is gone
	short int  // for writes: part of the data written first: 0 none, 1 one byte, 2 half, 3 all but one
	errno syscall.Errno
	read  bool // count reads instead
}

func (f fsInject) String() string {
	k := "fault"
	if f.stop {
		k = "stop"
	}
	if f.read {
		k += " read"
	}
	return fmt.Sprintf("%s at operation %d (%v, partial write %d)", k, f.at, f.errno, f.short)
}

type fsRun struct {
	ops  []string // mutating operations seen, in order
	isW  []bool
	hit  bool
	dead bool
	n    int
	call int // the call during which the fault hit
}

// injected runs body with the fault installed.
func injected(dir string, in *fsInject, body func(r *fsRun)) *fsRun {
	r := &fsRun{call: -1}
	setFS(func(x fsCall) syscall.Errno {
		mut := x.mutates()
		if in != nil && in.read {
			if x.Op == "open" && !mut || x.Op == "read" && x.N > 2 {
				if r.n++; r.n-1 == in.at {
					r.hit = true
					return in.errno
				}
			}
			return 0
		}
		if !mut {
			return 0
		}
		if r.dead {
			return syscall.EIO
		}
		i := r.n
		r.n++
		r.ops = append(r.ops, fmt.Sprintf("%s %s%s", x.Op, strings.TrimPrefix(x.A, dir), strings.TrimPrefix(x.B, dir)))
		r.isW = append(r.isW, x.Op == "write")
		if in == nil || i != in.at {
			return 0
		}
		r.hit = true
		if x.Op == "write" {
			k := map[int]int{0: 0, 1: 1, 2: len(x.P) / 2, 3: len(x.P) - 1}[in.short]
			rawWrite(x.N, x.P[:max(0, min(k, len(x.P)))])
		}
		r.dead = in.stop
		return in.errno
	})
	defer hookOff()
	body(r)
	return r
}

func runC08(c *Ctx) {
	if !hooked {
		panic(harnessError{"C08 needs the hooked build"})
	}
	regOn = true
	type start struct {
		name string
		via  []string
	}
	starts := []start{{"cold", nil}, {"S1", []string{"S1"}}, {"S2", []string{"S2"}}, {"S1 then freeze", []string{"S1", "freeze"}}, {"S3", []string{"S3"}}, {"fast-forward-ts", []string{"fast-forward-ts"}}, {"rotated", []string{"rotated"}}}
	worlds := []string{"S1", "S3", "rotated", "rotated-twice", "targets-expired", "freeze"}
	if c.Thorough() {
		worlds = stdUniverse(true, true).names
	}
	for _, v := range []struct{ cs, big bool }{{true, false}, {false, false}, {true, true}} {
		cs, big := v.cs, v.big
		if big {
			docPad = map[string]int{"root": 70000, "timestamp": 9000, "snapshot": 70000, "targets": 70000}
		}
		u := stdUniverse(cs, true)
		docPad = nil
		cfg := defCfg()
		for _, s := range starts {
			for _, w := range worlds {
				if big && (s.name != "cold" && s.name != "S1" || w != "S3" && w != "rotated") {
					continue
				}
				for _, chain := range []bool{false, true} {
					if chain && s.name != "rotated" && s.name != "S1" {
						continue
					}
					s, w, chain := s, w, chain
					n := &cnode{cache: MCache{}, anchor: u.anchor}
					for _, v := range s.via {
						n.cache = u.modelRun(n, edge{v, nil}, cfg).Cache
						if chain {
							n.anchor = n.cache["root.json"]
						}
					}
					c.Case(func() string {
						return fmt.Sprintf("cs=%v large documents=%v cache %s, session against %s, chained anchor=%v", cs, big, s.name, w, chain)
					}, func(t *T) {
						crashCase(t, c, u, n, w, cfg)
					})
				}
			}
		}
	}
}

// sessionUnder runs one real session with the injection and returns errors of the calls.
func sessionUnder(dir string, anchor *Doc, cfg SCfg, net Net, script []call, in *fsInject) (run *fsRun, errs []error, panicked string) {
	run = injected(dir, in, func(run *fsRun) {
		done := func(err error) {
			if run.hit && run.call < 0 {
				run.call = len(errs)
			}
			errs = append(errs, err)
		}
		r, err := newRClient(anchor, dir, cfg, func(n int, p string) Reply {
			if run.dead {
				return Reply{Err: "net"}
			}
			return net(n, p)
		})
		done(err)
		if err != nil {
			return
		}
		for _, s := range script {
			var err error
			if panicked = guard(func() {
				if s == "refresh" {
					err = r.Up.Refresh()
				} else {
					_, err = r.Up.GetTargetInfo(string(s)[4:])
				}
			}); panicked != "" {
				return
			}
			done(err)
		}
	})
	return
}

func crashCase(t *T, c *Ctx, u *universe, n *cnode, w string, cfg SCfg) {
	net := u.net(w, nil)
	// what the session may put into each file
	may := map[string]map[string]bool{}
	note := func(cache MCache) {
		for f, d := range cache {
			if may[f] == nil {
				may[f] = map[string]bool{}
			}
			may[f][string(d.Bytes)] = true
		}
	}
	note(n.cache)
	{
		m, _ := newMClient(n.anchor, n.cache, cfg, net, time.Now())
		note(m.Cache)
		for v := int64(2); v < 10; v++ {
			if d := u.worlds[w][fmt.Sprintf("%d.root.json", v)]; d != nil {
				note(MCache{"root.json": d})
			}
		}
		for _, s := range u.script {
			if s == "refresh" {
				m.Refresh()
			} else {
				m.Lookup(string(s)[4:])
			}
			note(m.Cache)
		}
	}
	// a read that fails hides a cached file: then the served version may be stored
	mayRead := map[string]map[string]bool{}
	prep := func() string {
		d := t.Dir()
		must(mkdirAll(filepath.Join(d, "md")))
		n.cache.fill(filepath.Join(d, "md"))
		return d
	}
	d0 := prep()
	plain, errs0, p := sessionUnder(d0, n.anchor, cfg, net, u.script, nil)
	if p != "" {
		t.Fail("session: %s", p)
	}
	t.Trans(len(errs0))
	files0 := readDir(filepath.Join(d0, "md"))
	_ = os.RemoveAll(d0)
	inspect := func(dir, what string, allow map[string]map[string]bool, extra bool) MCache {
		cache := MCache{}
		got := readDir(filepath.Join(dir, "md"))
		for f, b := range got {
			if strings.HasSuffix(f, "/") {
				t.Fail("%s: directory %s", what, f)
			}
			if !strings.HasSuffix(f, ".json") {
				if !extra {
					t.Fail("%s: left behind %s (%d bytes)", what, f, len(b))
				}
				continue
			}
			if !allow[f][b] && !mayRead[f][b] {
				t.Fail("%s: %s is neither the old nor a verified new version (%d bytes)", what, f, len(b))
			}
			d := docOf([]byte(b))
			if d == nil {
				panic(harnessError{"unregistered document in the cache"})
			}
			cache[f] = d
		}
		for f, d := range n.cache {
			if _, has := got[f]; !has {
				t.Fail("%s: %s, which held %s, is missing", what, f, d)
			}
		}
		return cache
	}
	// next runs the following session on the left-over directory and compares with the reference client
	next := func(dir, what string, cache MCache, worlds []string) {
		for i, w2 := range worlds {
			d2 := dir
			if i < len(worlds)-1 {
				d2 = t.Dir()
				must(mkdirAll(filepath.Join(d2, "md")))
				for f, b := range readDir(filepath.Join(dir, "md")) {
					must(os.WriteFile(filepath.Join(d2, "md", f), []byte(b), 0o644))
				}
			}
			mark := t.Mark()
			t.Log("next session against %s with cache %s", w2, cache)
			net2 := u.net(w2, nil)
			m, _ := newMClient(n.anchor, cache, cfg, net2, time.Now())
			r, err := newRClient(n.anchor, d2, cfg, net2)
			if err != nil {
				t.Fail("%s: next session: New: %v", what, err)
			}
			for _, s := range u.script {
				runCall(t, m, r, s)
			}
			got := readDir(r.Dir)
			for f, d := range m.Cache {
				if got[f] != string(d.Bytes) {
					t.Fail("%s: after the next session %s is not %s", what, f, d)
				}
			}
			for f := range got {
				if strings.HasSuffix(f, ".json") && m.Cache[f] == nil {
					t.Fail("%s: after the next session there is %s", what, f)
				}
			}
			t.Cut(mark)
			_ = os.RemoveAll(d2)
		}
	}
	nextWorlds := []string{w}
	if w != "S3" && c.Thorough() {
		nextWorlds = append(nextWorlds, "S3")
	}
	var ins []fsInject
	for i := range plain.ops {
		shorts := []int{0}
		if plain.isW[i] {
			shorts = []int{0, 1, 2, 3}
		}
		for _, s := range shorts {
			ins = append(ins, fsInject{at: i, stop: true, short: s, errno: syscall.EIO})
			for _, e := range []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EXDEV} {
				if (e == syscall.EIO || e == syscall.EACCES) && s > 0 || e == syscall.EXDEV && !strings.HasPrefix(plain.ops[i], "rename") {
					continue
				}
				ins = append(ins, fsInject{at: i, short: s, errno: e})
			}
		}
	}
	for _, in := range ins {
		in := in
		t.Reset()
		t.Log("operations of the undisturbed session: %d", len(plain.ops))
		t.Log("%s: %s", in, plain.ops[in.at])
		dir := prep()
		run, errs, p := sessionUnder(dir, n.anchor, cfg, net, u.script, &in)
		t.Trans(len(errs))
		if p != "" {
			t.Fail("%s: %s", in, p)
		}
		if !run.hit {
			// the number of operations may depend on chance (temporary names): not reached
			_ = os.RemoveAll(dir)
			continue
		}
		if errs[run.call] == nil {
			t.Fail("%s (%s) is not reported by call %d", in, run.ops[in.at], run.call)
		}
		cache := inspect(dir, in.String(), may, in.stop)
		t.State(fmt.Sprint(w, n.key(), cache.key(), len(readDir(dir))))
		t.Outcome(map[bool]string{true: "stopped", false: "fault reported"}[in.stop])
		next(dir, in.String(), cache, nextWorlds)
		// a second stop while recovering
		if c.Thorough() && in.stop && (in.at%3 == 0 || in.short == 2) {
			for j := 0; j < 40; j++ {
				t.Cut(2)
				d := prep()
				r1, _, _ := sessionUnder(d, n.anchor, cfg, net, u.script, &in)
				in2 := fsInject{at: j, stop: true, short: j % 4, errno: syscall.EIO}
				t.Log("then %s", in2)
				r2, _, p := sessionUnder(d, n.anchor, cfg, net, u.script, &in2)
				t.Trans(2)
				if p != "" {
					t.Fail("second session: %s", p)
				}
				if !r1.hit || !r2.hit {
					_ = os.RemoveAll(d)
					break
				}
				cache := inspect(d, "two stops", may, true)
				next(d, "two stops", cache, nextWorlds[:1])
			}
		}
	}
	// reads that fail
	for i := 0; ; i++ {
		in := fsInject{at: i, read: true, errno: syscall.EIO}
		t.Reset()
		t.Log("%s", in)
		dir := prep()
		run, errs, p := sessionUnder(dir, n.anchor, cfg, net, u.script, &in)
		t.Trans(len(errs))
		if p != "" {
			t.Fail("%s: %s", in, p)
		}
		if !run.hit {
			_ = os.RemoveAll(dir)
			break
		}
		// without a rollback reference the served version may be accepted
		allow := map[string]map[string]bool{}
		for f, m := range may {
			allow[f] = map[string]bool{}
			for b := range m {
				allow[f][b] = true
			}
			for p, d := range u.worlds[w] {
				if roleOfPath(p)+".json" == f {
					allow[f][string(d.Bytes)] = true
				}
			}
		}
		cache := inspect(dir, in.String(), allow, false)
		next(dir, in.String(), cache, nextWorlds[:1])
	}
	_ = files0
}
