package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// side is a client with its own repository and directory.
type side struct {
	name  string
	cache MCache
	x     csess
}

// c24sides are clients of repositories that use the same role names and target paths for different things.
func c24sides() []side {
	mk := func(cs bool, keys map[string]string, thr int, order string, tgts map[string]map[string]TF, exp string, badA bool, succ bool) (*Doc, World) {
		k := func(r string) []*Key { return Ks(keys[r]) }
		s := func(r string) []SigOpt { return good(k(r)) }
		roles := map[string]RoleSpec{}
		for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
			roles[r] = RoleSpec{k(r), thr}
		}
		root := MkRoot(RootOpt{Ver: 1, Roles: roles, CS: cs})
		root2 := MkRoot(RootOpt{Ver: 2, Roles: roles, CS: cs})
		dl := &Deleg{}
		if succ {
			dl.Succ = &Succ{Keys: k("A"), Thr: 1, Bits: 1, Prefix: "bin"}
		} else {
			for _, n := range strings.Fields(order) {
				dl.Roles = append(dl.Roles, DRole{Name: n, Keys: k(n), Thr: 1, Paths: []string{"d/*"}})
			}
		}
		w := World{}
		w.put(cs, "root", root).put(cs, "root", root2)
		meta := map[string]Meta{}
		put := func(n string, d *Doc) {
			w.put(cs, n, d)
			meta[n+".json"] = metaOf(d, cs, true)
		}
		put("targets", MkTG("targets", 3, tgts["targets"], dl, expValid, s("targets")))
		if succ {
			for _, n := range []string{"bin-0", "bin-1"} {
				put(n, MkTG(n, 2, tgts["A"], nil, expValid, s("A")))
			}
		} else {
			sa := s("A")
			if badA {
				sa = []SigOpt{{Key: k("A")[0], Corrupt: true}}
			}
			sub := &Deleg{Roles: []DRole{{Name: "C", Keys: k("C"), Thr: 1, Paths: []string{"d/*"}}}}
			put("A", MkTG("A", 4, tgts["A"], sub, expValid, sa))
			put("B", MkTG("B", 5, tgts["B"], nil, expValid, s("B")))
			put("C", MkTG("C", 6, tgts["C"], nil, expValid, s("C")))
		}
		sn := MkSN(7, meta, expValid, s("snapshot"))
		w.put(cs, "snapshot", sn)
		w.put(cs, "timestamp", MkTS(8, metaOf(sn, true, cs), exp, s("timestamp")))
		return root, w
	}
	k1 := map[string]string{"root": "a b", "timestamp": "ts ts2", "snapshot": "sn sn2", "targets": "tg tg2", "A": "A", "B": "B", "C": "C"}
	k2 := map[string]string{"root": "b c", "timestamp": "sn", "snapshot": "ts", "targets": "A", "A": "B", "B": "tg", "C": "A"}
	t1 := map[string]map[string]TF{"targets": {"t": TFof("t one")}, "A": {"d/a": TFof("one")}, "B": {"d/a": TFof("not this"), "d/z": TFof("z of B")}, "C": {"d/c": TFof("c one")}}
	t2 := map[string]map[string]TF{"targets": {"d/t": TFof("t2")}, "A": {"d/z": TFof("not this")}, "B": {"d/a": TFof("two, longer"), "d/z": TFof("z of B in two")}, "C": {"t": TFof("not delegated"), "d/c": TFof("c two")}}
	content := map[string]map[string]string{"one": {"d/a": "one", "t": "t one"}, "two": {"d/a": "two, longer", "t": "t2"}}
	script := []call{"refresh", "download d/a", "get d/z", "get d/c", "get none", "get d/none"}
	net := func(w World, who string) Net {
		return func(n int, p string) Reply {
			if r, is := strings.CutPrefix(p, "targets/"); is {
				if i := strings.LastIndex(r, "/"); i >= 0 && len(r)-i > 60 {
					r = r[:i+1] + r[i+66:]
				}
				return Reply{Doc: &Doc{Name: "target", Bytes: []byte(content[who][r])}}
			}
			return w.net(n, p)
		}
	}
	var r []side
	add := func(name string, root *Doc, w World, who string, cache MCache, f func(*SCfg)) {
		cfg := defCfg()
		if f != nil {
			f(&cfg)
		}
		r = append(r, side{name, cache, csess{world: name, net: net(w, who), anchor: root, cfg: cfg, script: script}})
	}
	ra, wa := mk(true, k1, 2, "A B", t1, expValid, false, false)
	rb, wb := mk(false, k2, 1, "B A", t2, expValid, false, false)
	rx, wx := mk(false, k1, 2, "A B", t1, expExpired, false, false)
	rbad, wbad := mk(true, k2, 1, "A B", t2, expValid, true, false)
	rs, ws := mk(true, k2, 1, "", t2, expValid, false, true)
	files := func(w World, cs bool) MCache {
		m := MCache{}
		for n, d := range w {
			if cs && n[0] >= '0' && n[0] <= '9' {
				n = n[strings.Index(n, ".")+1:]
			}
			m[n] = d
		}
		delete(m, "root.json")
		for n := range m {
			if strings.HasSuffix(n, "root.json") {
				delete(m, n)
			}
		}
		return m
	}
	add("one", ra, wa, "one", MCache{}, nil)
	add("two", rb, wb, "two", MCache{}, nil)
	add("one without cache", ra, wa, "one", MCache{}, func(c *SCfg) { c.NoCache = true })
	add("two, everything cached", rb, wb, "two", files(wb, false), nil)
	add("expired", rx, wx, "one", MCache{}, nil)
	add("badly signed role", rbad, wbad, "two", MCache{}, nil)
	add("bins", rs, ws, "two", MCache{}, func(c *SCfg) { c.NoCache = true })
	add("two, one delegation", rb, wb, "two", MCache{}, func(c *SCfg) { c.MaxDeleg, c.NoCache = 1, true })
	add("local mode", rb, wb, "two", files(wb, false), func(c *SCfg) { c.Unsafe = true })
	return r
}

// full runs the session and tells everything that can be seen of it.
func (s side) full(dir string) string {
	f := &netFetcher{net: s.x.net, max: 200}
	var out []string
	r, err := newRClientF(s.x.anchor, dir, s.x.cfg, f)
	if err != nil {
		return "no client: " + err.Error()
	}
	for _, c := range s.x.script {
		if c == "refresh" {
			err := r.Up.Refresh()
			out = append(out, fmt.Sprint("refresh ", err == nil))
			continue
		}
		verb, p, _ := strings.Cut(string(c), " ")
		ti, err := r.Up.GetTargetInfo(p)
		if err != nil {
			out = append(out, p+" not found")
			continue
		}
		out = append(out, fmt.Sprint(p, " ", ti.Path, ti.Length, ti.Hashes["sha256"]))
		if verb == "download" {
			_, cached, err := r.Up.FindCachedTarget(ti, "")
			out = append(out, fmt.Sprintf("cached %q %v", cached, err))
			_, data, err := r.Up.DownloadTarget(ti, "", baseURL+"targets/")
			out = append(out, fmt.Sprintf("%q %v", data, err == nil))
			_, cached, err = r.Up.FindCachedTarget(ti, "")
			out = append(out, fmt.Sprintf("cached %q %v", cached, err))
		}
	}
	set := r.Up.GetTrustedMetadataSet()
	out = append(out, "root "+docNameOf(set.Root))
	if set.Timestamp != nil {
		out = append(out, "timestamp "+docNameOf(set.Timestamp))
	}
	if set.Snapshot != nil {
		out = append(out, "snapshot "+docNameOf(set.Snapshot))
	}
	for _, n := range sortedKeys(set.Targets) {
		out = append(out, n+" "+docNameOf(set.Targets[n]))
	}
	out = append(out, fmt.Sprint("requests ", f.reqs), fmt.Sprint("top ", sortedKeys(r.Up.GetTopLevelTargets())))
	if !s.x.cfg.NoCache {
		files := readDir(dir)
		for _, n := range sortedKeys(files) {
			out = append(out, n+" "+sha256hex([]byte(files[n]))[:12])
		}
	}
	return strings.Join(out, "\n")
}

func docNameOf(m libDoc) string {
	b, err := m.ToBytes(false)
	if err != nil {
		return err.Error()
	}
	return sha256hex(b)[:12]
}

// sideRun runs a; at its k-th point b runs (to its j-th point, or all of it if j is 0) and the rest of a follows, then the rest of b.
// Points are the statements (entries: only those functions begin with), each counted the first occ times it is reached.
// It returns how many points a and b have.
func sideRun(a, b func() string, k, j int64, entries bool, occ int) (oa, ob string, na, nb int64) {
	me := goid()
	var bid atomic.Uint64
	var other atomic.Int64
	parked, resume, done := make(chan struct{}), make(chan struct{}), make(chan struct{})
	started, stopped := false, false
	startB := func() {
		started = true
		go func() {
			defer close(done)
			bid.Store(goid())
			if p := guard(func() { ob = b() }); p != "" {
				ob = p
			}
		}()
		last := int64(-1)
		for {
			select {
			case <-done:
				return
			case <-parked:
				stopped = true
				return
			case <-time.After(300 * time.Millisecond):
				if n := other.Load(); n == last {
					return // it waits for something a holds
				} else {
					last = n
				}
			}
		}
	}
	seenA, seenB := map[int]int{}, map[int]int{}
	setStmt(func(site int, entry bool) {
		switch goid() {
		case me:
			if seenA[site]++; entries && !entry || seenA[site] > occ {
				return
			}
			if na++; na == k && !started {
				startB()
			}
		case bid.Load():
			other.Add(1)
			if seenB[site]++; entries && !entry || seenB[site] > occ {
				return
			}
			if nb++; nb == j {
				parked <- struct{}{}
				<-resume
			}
		}
	})
	defer setStmt(nil)
	if p := guard(func() { oa = a() }); p != "" {
		oa = p
	}
	if !started {
		startB()
	}
	if stopped {
		close(resume)
	}
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		return oa, "never ends", na, nb
	}
	return oa, ob, na, nb
}

func runC24Sides(c *Ctx) {
	sides := c24sides()
	base := func(t *T) (func(i int, s side) func() string, func()) {
		d := t.Dir()
		n := 0
		var used []string
		return func(i int, s side) func() string {
				n++
				dir := filepath.Join(d, fmt.Sprint(n, i))
				if !s.x.cfg.NoCache {
					copyCache(dir, s.cache)
					used = append(used, dir)
				}
				return func() string { return s.full(dir) }
			}, func() {
				for _, u := range used {
					must(os.RemoveAll(u))
				}
				used = nil
			}
	}
	pairs := [][2]int{}
	for i := range sides {
		for j := range sides {
			if c.Thorough() || i+j < 4 || (i+2*j)%5 == 0 {
				pairs = append(pairs, [2]int{i, j})
			}
		}
	}
	parts := 4
	occ, occ2 := Pick(c, 2, 1<<30), Pick(c, 1, 4)
	for _, p := range pairs {
		a, b := sides[p[0]], sides[p[1]]
		for part := 0; part < parts; part++ {
			c.Case(func() string {
				return fmt.Sprintf("%s beside %s, at every statement, part %d of %d", a.name, b.name, part+1, parts)
			}, func(t *T) {
				mapOrder(true, 1)
				defer mapOrder(false, 0)
				run, clean := base(t)
				wa, wb, n, _ := sideRun(run(0, a), run(1, b), -1, 0, false, occ)
				clean()
				t.Log("%d statements", n)
				if strings.Contains(wa+wb, "no client") || n < 300 {
					t.Fail("%s: %d statements\n%s\n%s", a.name, n, wa, wb)
				}
				for k := int64(1 + part); k <= n; k += int64(parts) {
					if c.Expired() {
						return
					}
					oa, ob, _, _ := sideRun(run(0, a), run(1, b), k, 0, false, occ)
					clean()
					t.Trans(1)
					if oa != wa || ob != wb {
						t.Reset()
						t.Log("%s runs whole at statement %d of %d of %s", b.name, k, n, a.name)
						t.Fail("clients of separate repositories disturb each other: %s; %s", firstDiff(oa, wa), firstDiff(ob, wb))
					}
					if k%64 == 1 {
						t.State(fmt.Sprint(a.name, b.name, k))
					}
				}
			})
		}
		if !c.Thorough() && p[0]+p[1] > 2 {
			continue
		}
		// two switches, at the first statements of functions
		for part := 0; part < 8; part++ {
			c.Case(func() string {
				return fmt.Sprintf("%s beside %s, two switches at calls, part %d", a.name, b.name, part+1)
			}, func(t *T) {
				mapOrder(true, 1)
				defer mapOrder(false, 0)
				run, clean := base(t)
				wa, wb, n, _ := sideRun(run(0, a), run(1, b), -1, 0, true, occ2)
				_, _, nb, _ := sideRun(run(0, b), run(1, a), -1, 0, true, occ2)
				clean()
				step := int64(Pick(c, 7, 1))
				for k := int64(1 + part); k <= n; k += 8 {
					for j := 1 + k%step; j <= nb; j += step {
						if c.Expired() {
							return
						}
						oa, ob, _, _ := sideRun(run(0, a), run(1, b), k, j, true, occ2)
						clean()
						t.Trans(1)
						if oa != wa || ob != wb {
							t.Reset()
							t.Log("%s begins at call %d of %d of %s and stops at its call %d until that has ended", b.name, k, n, a.name, j)
							t.Fail("clients of separate repositories disturb each other: %s; %s", firstDiff(oa, wa), firstDiff(ob, wb))
						}
					}
				}
				t.State(fmt.Sprint("calls", a.name, b.name, part))
			})
		}
	}
	for i := range sides {
		c.Case(func() string {
			return "really at the same time, watched for unordered accesses: " + sides[i].name
		}, func(t *T) {
			exe := raceExe(t)
			if exe == "" {
				return
			}
			cmd := exec.Command(exe, "-sides", fmt.Sprint(i))
			cmd.Dir = t.Dir()
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "MC_SIDES="+t.Dir())
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			must(cmd.Start())
			end := make(chan error, 1)
			go func() { end <- cmd.Wait() }()
			var err error
			for waiting := true; waiting; {
				select {
				case err = <-end:
					waiting = false
				case <-time.After(time.Second):
					t.Trans(1)
				}
			}
			t.State(fmt.Sprint("race", i))
			if err != nil {
				t.Fail("clients of separate repositories in one process: %v\n%.3000s", err, out.String())
			}
		})
	}
}

func firstDiff(a, b string) string {
	if a == b {
		return "as alone"
	}
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			w := "nothing"
			if i < len(y) {
				w = y[i]
			}
			return fmt.Sprintf("%.300q instead of %.300q", x[i], w)
		}
	}
	return "less than alone"
}

// setupC24 builds the harness again with the race detector, while the rest runs.
func setupC24(dir string) error {
	go func() {
		args := []string{"build", "-race", "-o", filepath.Join(dir, "race.part")}
		if m := filepath.Join(os.Getenv("MC_BUILD_DIR"), "go.mod"); os.Getenv("MC_BUILD_DIR") != "" {
			if _, err := os.Stat(m); err == nil {
				args = append(args, "-modfile="+m)
			}
		}
		cmd := exec.Command("go", append(args, ".")...)
		cmd.Dir = filepath.Join(verifDir, "mc")
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1", "GOFLAGS=-mod=mod")
		if out, err := cmd.CombinedOutput(); err != nil {
			_ = os.WriteFile(filepath.Join(dir, "race.failed"), append([]byte(err.Error()+"\n"), out...), 0o644)
			return
		}
		_ = os.Rename(filepath.Join(dir, "race.part"), filepath.Join(dir, "race"))
	}()
	return nil
}

// raceExe waits for the build (no result: there is no race detector here).
func raceExe(t *T) string {
	dir := os.Getenv("MC_SETUP")
	for i := 0; i < 300; i++ {
		if _, err := os.Stat(filepath.Join(dir, "race")); err == nil {
			return filepath.Join(dir, "race")
		}
		if b, err := os.ReadFile(filepath.Join(dir, "race.failed")); err == nil {
			t.c.mu.Lock()
			t.c.res.Notes = append(t.c.res.Notes, "no build with the race detector: "+string(b))
			t.c.mu.Unlock()
			return ""
		}
		t.Trans(1)
		time.Sleep(time.Second)
	}
	return ""
}

// sidesMain is the body of the race-detecting process: side i beside every other, at the same time, many times.
func sidesMain(i int) int {
	sides := c24sides()
	base := os.Getenv("MC_SIDES")
	n := 0
	for j := range sides {
		for rep := 0; rep < 12; rep++ {
			ss := []side{sides[i], sides[j], sides[(j+1)%len(sides)]}
			outs := make([]string, len(ss))
			want := make([]string, len(ss))
			for round := 0; round < 2; round++ {
				var wg sync.WaitGroup
				start := make(chan struct{})
				for k, s := range ss {
					n++
					dir := filepath.Join(base, fmt.Sprint(n))
					copyCache(dir, s.cache)
					if round == 0 {
						want[k] = s.full(dir)
						continue
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						outs[k] = s.full(dir)
					}()
				}
				close(start)
				wg.Wait()
			}
			for k := range ss {
				if outs[k] != want[k] {
					fmt.Println(ss[k].name, "beside others:", firstDiff(outs[k], want[k]))
					return 1
				}
			}
		}
	}
	return 0
}
