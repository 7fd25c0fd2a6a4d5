package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

func init() {
	register(&Check{ID: "C16", Run: runC16,
		Rule:        "every combination of answers of three repositories (no such target, version 1, version 1 with a further hash, version 2, other length, unreachable) x every map file of up to two (thorough: three) mappings over the stated patterns, repository lists (orders, repetitions, subsets), thresholds 0..3 and terminating flags; looked up on the real multi-repository client and compared with the TAP 4 rule; up to forty repositories in a mapping; repositories that fail in every way (expired, badly signed, missing, unreachable, at refresh or at the lookup)",
		Assumptions: []string{"all versions carry a SHA-256 hash, so sameness is transitive"},
	})
	register(&Check{ID: "C29", Run: runC29,
		Rule: "repository names and map files (well-formed, malformed, hostile) x root assignments with directory comparison; every assignment of download answers of three repositories x order x pre-existing files x destination; the combined target list for every combination of answers and mappings against the lookup itself; repositories with several locations; a base URL given by the caller, repositories with and without consistent snapshots; the requests each client makes",
	})
}

// mrAnswers are what a repository may say about target t.
var mrAnswers = []string{"none", "v1", "v1+", "v2", "len", "down"}

func mrTF(ans, path string) J {
	v1 := "content of " + path
	switch ans {
	case "v1":
		return J{"length": len(v1), "hashes": J{"sha256": sha256hex([]byte(v1))}}
	case "v1+":
		return J{"length": len(v1), "hashes": J{"sha256": sha256hex([]byte(v1)), "sha512": sha512hex([]byte(v1))}}
	case "v2":
		return J{"length": len(v1), "hashes": J{"sha256": sha256hex([]byte(strings.ToUpper(v1)))}}
	case "len":
		return J{"length": len(v1) + 1, "hashes": J{"sha256": sha256hex([]byte(v1))}}
	}
	return nil
}

// version identifies what counts as the same target.
func mrVersion(ans string) string {
	if ans == "v1+" {
		return "v1"
	}
	return ans
}

// mkTGraw builds targets metadata from raw target entries.
func mkTGraw(ver int64, tgts J, sigs []SigOpt) *Doc {
	signed := J{"_type": "targets", "spec_version": "1.0.31", "version": ver, "expires": expValid, "targets": tgts}
	return finish("targets raw", "targets", signed, ver, expValid, sigs)
}

// mrWorld is a repository whose keys are named after repo.
func mrWorld(repo string, tgts J) (root *Doc, w World) {
	k := func(s string) []SigOpt { return good(Ks(repo + s)) }
	roles := map[string]RoleSpec{"root": {Ks(repo + "r"), 1}, "timestamp": {Ks(repo + "ts"), 1}, "snapshot": {Ks(repo + "sn"), 1}, "targets": {Ks(repo + "tg"), 1}}
	root = MkRoot(RootOpt{Ver: 1, Roles: roles})
	tg := mkTGraw(1, tgts, k("tg"))
	w = World{"targets.json": tg, "snapshot.json": MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, expValid, k("sn")), "timestamp.json": MkTS(1, Meta{Ver: 1}, expValid, k("ts"))}
	return
}

// mrUpdater is a cache-less client of a repository that answers ans for each path.
func mrUpdater(repo string, answers map[string]string, down bool) (*updater.Updater, *Doc) {
	tg := J{}
	for p, a := range answers {
		if e := mrTF(a, p); e != nil {
			tg[p] = e
		}
	}
	root, w := mrWorld(repo, tg)
	net := w.net
	if down {
		net = func(n int, p string) Reply { return Reply{Err: "net"} }
	}
	cfg := defCfg()
	cfg.NoCache = true
	r, err := newRClient(root, "/nonexistent", cfg, net)
	must(err)
	r.F.max = 0
	return r.Up, root
}

type mrMap struct {
	Paths, Repos []string
	Thr          int
	Term         bool
}

func (m mrMap) String() string {
	return fmt.Sprintf("{%v %v thr=%d term=%v}", m.Paths, m.Repos, m.Thr, m.Term)
}

func mrJSON(repos []string, maps []mrMap) []byte {
	rm := J{}
	for _, r := range repos {
		rm[r] = []string{"https://" + r + ".example/"}
	}
	ml := []any{}
	for _, m := range maps {
		ml = append(ml, J{"paths": m.Paths, "repositories": m.Repos, "threshold": m.Thr, "terminating": m.Term})
	}
	b, err := json.Marshal(J{"repositories": rm, "mapping": ml})
	must(err)
	return b
}

// tap4 is the reference search: the version, the repositories and whether there is a result.
func tap4(maps []mrMap, ans map[string]string, path string) (string, []string, bool) {
	for _, m := range maps {
		hit := false
		for _, p := range m.Paths {
			hit = hit || globMatch(p, path)
		}
		if !hit {
			continue
		}
		votes := map[string][]string{}
		seen := map[string]bool{}
		for _, r := range m.Repos {
			if a := ans[r]; !seen[r] && a != "none" && a != "down" {
				votes[mrVersion(a)] = append(votes[mrVersion(a)], r)
			}
			seen[r] = true
		}
		var win []string
		for v, rs := range votes {
			if len(rs) >= m.Thr {
				win = append(win, v)
			}
		}
		if len(win) > 1 {
			return "", nil, false
		}
		if len(win) == 1 {
			return win[0], votes[win[0]], true
		}
		if m.Term {
			return "", nil, false
		}
	}
	return "", nil, false
}

func mrCheck(t *T, cl *multirepo.MultiRepoClient, maps []mrMap, ans map[string]string, path string) {
	ver, repos, found := tap4(maps, ans, path)
	var got *metadata.TargetFiles
	var gr []string
	var err error
	if x := guard(func() { got, gr, err = cl.GetTargetInfo(path) }); x != "" {
		t.Fail("GetTargetInfo: answers %v: %s", ans, x)
	}
	t.Trans(1)
	if (err == nil) != found {
		t.Fail("answers %v, target %q: %s, expected found=%v %s from %v", ans, path, refused(err), found, ver, repos)
	}
	if !found {
		return
	}
	w := mrTF(ver, path)
	if got == nil || fmt.Sprint(got.Length) != fmt.Sprint(w["length"]) || got.Hashes["sha256"].String() != w["hashes"].(J)["sha256"] {
		t.Fail("answers %v, target %q: got %+v, expected %s", ans, path, got, ver)
	}
	a, b := append([]string{}, gr...), append([]string{}, repos...)
	sort.Strings(a)
	sort.Strings(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		t.Fail("answers %v, target %q: repositories %v, expected %v", ans, path, gr, repos)
	}
}

func runC16(c *Ctx) {
	const path = "t"
	repos := []string{"a", "b", "c"}
	ups := map[string]*updater.Updater{}
	roots := map[string][]byte{}
	for _, r := range repos {
		for _, a := range mrAnswers {
			u, root := mrUpdater(r, map[string]string{path: a, "d/t": "v1"}, a == "down")
			ups[r+a] = u
			roots[r] = root.Bytes
		}
	}
	var combos []map[string]string
	for _, x := range mrAnswers {
		for _, y := range mrAnswers {
			for _, z := range mrAnswers {
				combos = append(combos, map[string]string{"a": x, "b": y, "c": z})
			}
		}
	}
	lists := [][]string{{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "a"}, {"a", "a", "b"}, {"a", "b", "c"}, {"c", "b", "a"}, {"b", "c"}, {"a", "b", "a"}, {"c", "a"}}
	pats := [][]string{{"t"}, {"x"}, {"x", "*"}, {"?", "t"}, {"*/t"}, {}}
	thrs := []int{1, 2, 3}
	mk := func(pats [][]string, lists [][]string, thrs []int) []mrMap {
		var r []mrMap
		for _, p := range pats {
			for _, l := range lists {
				for _, th := range thrs {
					for _, tm := range []bool{false, true} {
						r = append(r, mrMap{p, l, th, tm})
					}
				}
			}
		}
		return r
	}
	run := func(name string, first mrMap, rest func(f func(maps []mrMap))) {
		c.Case(func() string { return name + " " + first.String() }, func(t *T) {
			rest(func(maps []mrMap) {
				t.Reset()
				t.Log("mappings %v", maps)
				t.State(fmt.Sprint(maps))
				cfg, err := multirepo.NewConfig(mrJSON(repos, maps), roots)
				if err != nil {
					t.Fail("NewConfig: %v", err)
				}
				cl := &multirepo.MultiRepoClient{Config: cfg, TUFClients: map[string]*updater.Updater{}}
				for _, ans := range combos {
					for _, r := range repos {
						cl.TUFClients[r] = ups[r+ans[r]]
					}
					mrCheck(t, cl, maps, ans, path)
				}
			})
		})
	}
	ones := append(mk(pats, lists, []int{0, 1, 2, 3}), mk(pats[:1], append(lists, []string{"a", "b", "c", "a"}, []string{"c", "c", "c", "c", "b"}), []int{4, 5, 1 << 20, 1 << 40})...)
	for _, m := range ones {
		m := m
		run("one", m, func(f func([]mrMap)) { f([]mrMap{m}) })
	}
	firsts := mk(pats, lists, thrs)
	seconds := mk(pats[:1], lists, thrs[:2])
	for _, m := range firsts {
		m := m
		run("two", m, func(f func([]mrMap)) {
			for _, n := range seconds {
				f([]mrMap{m, n})
			}
		})
	}
	if c.Thorough() {
		thirds := mk(pats[:1], lists, []int{1, 2})
		for _, m := range mk(pats[:2], [][]string{{"a", "b", "c"}, {"c", "b"}, {"a", "a", "b"}}, thrs) {
			m := m
			run("three", m, func(f func([]mrMap)) {
				for _, n := range mk(pats[:2], [][]string{{"b", "a", "c"}, {"c", "a"}}, thrs) {
					for _, o := range thirds {
						f([]mrMap{m, n, o})
					}
				}
			})
		}
	}
	runC16Many(c)
	runC16Broken(c)
	// patterns and nested paths
	c.Case(func() string { return "patterns" }, func(t *T) {
		all := words([]string{"a", "*", "?", "/"}, 4)
		u := map[string]*updater.Updater{}
		answers := map[string]string{}
		for _, p := range words([]string{"a", "b", "/"}, 3) {
			answers[p] = "v1"
		}
		u["a"], _ = mrUpdater("a", answers, false)
		for _, p := range all {
			maps := []mrMap{{[]string{p}, []string{"a"}, 1, true}}
			cfg, err := multirepo.NewConfig(mrJSON([]string{"a"}, maps), map[string][]byte{"a": roots["a"]})
			must(err)
			cl := &multirepo.MultiRepoClient{Config: cfg, TUFClients: u}
			for path := range answers {
				mrCheck(t, cl, maps, map[string]string{"a": "v1"}, path)
			}
			t.State("pattern" + p)
		}
	})
}

// runC16Many: more repositories, every combination of their answers, every threshold.
func runC16Many(c *Ctx) {
	const path = "t"
	ups := map[string]*updater.Updater{}
	roots := map[string][]byte{}
	var names []string
	for i := 0; i < 40; i++ {
		r := fmt.Sprintf("r%d", i)
		names = append(names, r)
		for _, a := range []string{"none", "v1", "v1+", "v2", "down"} {
			if i > 5 && a == "v1+" {
				continue
			}
			u, root := mrUpdater(r, map[string]string{path: a}, a == "down")
			ups[r+a] = u
			roots[r] = root.Bytes
		}
	}
	run := func(what string, n int, list []string, ans []map[string]string, thrs []int) {
		for _, thr := range thrs {
			c.Case(func() string { return fmt.Sprintf("%d repositories %s, threshold %d", n, what, thr) }, func(t *T) {
				for _, maps := range [][]mrMap{{{[]string{"t"}, list, thr, true}}, {{[]string{"t"}, list, thr, false}, {[]string{"*"}, list[:1], 1, false}}} {
					cfg, err := multirepo.NewConfig(mrJSON(names[:n], maps), roots)
					if err != nil {
						t.Fail("NewConfig: %v", err)
					}
					t.State(fmt.Sprint(maps))
					cl := &multirepo.MultiRepoClient{Config: cfg, TUFClients: map[string]*updater.Updater{}}
					for _, a := range ans {
						for _, r := range names[:n] {
							cl.TUFClients[r] = ups[r+a[r]]
						}
						mrCheck(t, cl, maps, a, path)
					}
				}
			})
		}
	}
	for _, n := range []int{4, 5, Pick(c, 5, 6)} {
		combos := []map[string]string{{}}
		for _, r := range names[:n] {
			var next []map[string]string
			for _, m := range combos {
				for _, a := range []string{"none", "v1", "v1+", "v2", "down"} {
					if n == 6 && a == "down" || n > 4 && !c.Thorough() && a == "down" {
						continue
					}
					x := map[string]string{r: a}
					for k, v := range m {
						x[k] = v
					}
					next = append(next, x)
				}
			}
			combos = next
		}
		rev := append([]string{}, names[:n]...)
		slices.Reverse(rev)
		for th := 1; th <= n+1; th++ {
			run("in order", n, names[:n], combos, []int{th})
			run("in reverse", n, rev, combos, []int{th})
		}
	}
	// long lists: runs of one answer followed by another
	for _, n := range []int{9, 10, 11, 17, 40} {
		var combos []map[string]string
		for i := 0; i <= n; i++ {
			for _, ab := range [][2]string{{"v1", "none"}, {"none", "v1"}, {"v1", "v2"}, {"v2", "v1"}, {"down", "v2"}} {
				m := map[string]string{}
				for j, r := range names[:n] {
					m[r] = ab[0]
					if j >= i {
						m[r] = ab[1]
					}
				}
				combos = append(combos, m)
			}
		}
		run("in two runs", n, names[:n], combos, []int{1, 2, n/2 - 1, n / 2, n/2 + 1, n - 1, n, n + 1})
	}
}

// mrBroken are ways in which a repository that lists the target does not vouch for it.
func mrBroken(repo string) (root *Doc, ws map[string]func(n int, p string) Reply) {
	k := func(s string) []SigOpt { return good(Ks(repo + s)) }
	roles := map[string]RoleSpec{"root": {Ks(repo + "r"), 1}, "timestamp": {Ks(repo + "ts"), 1}, "snapshot": {Ks(repo + "sn"), 1}, "targets": {Ks(repo + "tg"), 1}}
	root = MkRoot(RootOpt{Ver: 1, Roles: roles})
	dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks(repo + "A"), Thr: 1, Paths: []string{"*"}}}}
	entry := J{"t": mrTF("v1", "t")}
	a := mkTGraw(1, entry, k("A"))
	tg := MkTG("targets", 1, nil, dl, expValid, k("tg"))
	meta := map[string]Meta{"targets.json": {Ver: 1}, "A.json": {Ver: 1}}
	sn := MkSN(1, meta, expValid, k("sn"))
	good := World{"targets.json": tg, "A.json": a, "snapshot.json": sn, "timestamp.json": MkTS(1, Meta{Ver: 1}, expValid, k("ts"))}
	ws = map[string]func(n int, p string) Reply{"works": good.net}
	with := func(what, file string, d *Doc) {
		w := World{}
		for f, x := range good {
			w[f] = x
		}
		if w[file] = d; d == nil {
			delete(w, file)
		}
		ws[what] = w.net
	}
	with("expired timestamp", "timestamp.json", MkTS(1, Meta{Ver: 1}, expExpired, k("ts")))
	with("expired snapshot", "snapshot.json", MkSN(1, meta, expExpired, k("sn")))
	with("expired targets", "targets.json", MkTG("targets", 1, nil, dl, expExpired, k("tg")))
	with("expired delegated targets", "A.json", MkTG("A", 1, map[string]TF{"t": TFof("content of t")}, nil, expExpired, k("A")))
	with("expired root", "2.root.json", MkRoot(RootOpt{Ver: 2, Roles: roles, Exp: expExpired}))
	with("root without its signatures", "2.root.json", MkRoot(RootOpt{Ver: 2, Roles: roles, Sigs: k("tg")}))
	with("timestamp without its signatures", "timestamp.json", MkTS(1, Meta{Ver: 1}, expValid, k("sn")))
	with("snapshot without its signatures", "snapshot.json", MkSN(1, meta, expValid, k("ts")))
	with("targets without its signatures", "targets.json", MkTG("targets", 1, nil, dl, expValid, k("sn")))
	with("delegated targets without its signatures", "A.json", mkTGraw(1, entry, k("tg")))
	with("snapshot of another version", "snapshot.json", MkSN(2, meta, expValid, k("sn")))
	with("targets of another version", "targets.json", MkTG("targets", 2, nil, dl, expValid, k("tg")))
	with("delegated targets of another version", "A.json", mkTGraw(2, entry, k("A")))
	with("snapshot with another length", "timestamp.json", MkTS(1, Meta{Ver: 1, Len: int64(len(sn.Bytes)) + 1}, expValid, k("ts")))
	with("no delegated role in the snapshot", "snapshot.json", MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, expValid, k("sn")))
	for f := range good {
		with("no "+f, f, nil)
		with("cut "+f, f, reg(&Doc{Name: "cut " + f, Kind: good[f].Kind, Bytes: good[f].Bytes[:len(good[f].Bytes)/2]}))
		with("other type of "+f, f, root)
	}
	for _, f := range append(sortedKeys(good), "2.root.json") {
		for _, e := range []string{"403", "404", "500", "302", "net", "download", "toolong", "eof", "deadline"} {
			if f == "2.root.json" && (e == "403" || e == "404") {
				continue
			}
			ws[e+" for "+f] = func(n int, p string) Reply {
				if p == f {
					return Reply{Err: e}
				}
				return good.net(n, p)
			}
		}
	}
	return
}

// runC16Broken: a repository that fails in any way does not count, and keeps nobody else from counting.
func runC16Broken(c *Ctx) {
	names := []string{"a", "b", "c"}
	roots := map[string][]byte{}
	nets := map[string]map[string]func(n int, p string) Reply{}
	anchors := map[string]*Doc{}
	for _, r := range names {
		anchors[r], nets[r] = mrBroken(r)
		roots[r] = anchors[r].Bytes
	}
	for _, kind := range sortedKeys(nets["a"]) {
		c.Case(func() string { return "repository that fails: " + kind }, func(t *T) {
			dir := t.Dir()
			n := 0
			fresh := func(r, kind string, caching bool) *updater.Updater {
				cfg := defCfg()
				cfg.NoCache = !caching
				n++
				x, err := newRClient(anchors[r], filepath.Join(dir, fmt.Sprint(n)), cfg, nets[r][kind])
				must(err)
				x.F.max = 0
				return x.Up
			}
			for _, caching := range []bool{false, true} {
				for bad := range names {
					ans := map[string]string{}
					for i, r := range names {
						ans[r] = "v1"
						if i == bad && kind != "works" {
							ans[r] = "down"
						}
					}
					for _, list := range [][]string{names, {"c", "b", "a"}, {names[bad]}} {
						for thr := 1; thr <= 3; thr++ {
							for _, term := range []bool{false, true} {
								maps := []mrMap{{[]string{"*"}, list, thr, term}, {[]string{"t"}, []string{"b", "c"}, 1, true}}
								cfg, err := multirepo.NewConfig(mrJSON(names, maps), roots)
								must(err)
								cl := &multirepo.MultiRepoClient{Config: cfg, TUFClients: map[string]*updater.Updater{}}
								for i, r := range names {
									k := "works"
									if i == bad {
										k = kind
									}
									cl.TUFClients[r] = fresh(r, k, caching)
								}
								t.Reset()
								t.Log("%s in repository %s, caching %v, %v", kind, names[bad], caching, maps)
								t.State(fmt.Sprint(kind, caching, bad, maps))
								// twice: a client that failed once fails again
								mrCheck(t, cl, maps, ans, "t")
								mrCheck(t, cl, maps, ans, "t")
								mrCheck(t, cl, maps, map[string]string{"a": "none", "b": "none", "c": "none"}, "nothing")
							}
						}
					}
				}
			}
		})
	}
}

// ---- C29 ----

func runC29(c *Ctx) {
	names := []string{"a", "b", "a b", "é", "targets", "metadata", "a.json", "%2e%2e", "...", "..a", "A", "a:b", "~", "-", "root.json",
		"..", ".", "", "a/b", "../x", "/abs", "a\\b", "..\\x", "a/../../x", "./a", "a/", "a\x00b", strings.Repeat("x", 300), "../md2", "../../x"}
	tg := func(p string) J { return J{p: mrTF("v1", p)} }
	ra, _ := mrWorld("a", tg("t"))
	rb, _ := mrWorld("b", tg("t"))
	// names
	for _, n1 := range names {
		for _, n2 := range names {
			for _, common := range []bool{false, true} {
				n1, n2, common := n1, n2, common
				if n1 == n2 && n1 != "a" {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("names %q %q common targets dir=%v", n1, n2, common) }, func(t *T) {
					d := t.Dir()
					base := filepath.Join(d, "p", "q", "md")
					must(mkdirAll(filepath.Dir(base)))
					b, err := json.Marshal(J{"repositories": J{n1: []string{"https://one.example/"}, n2: []string{"https://two.example/"}}, "mapping": []any{}})
					must(err)
					rm := J{n1: ra, n2: rb}
					roots := map[string][]byte{}
					for k := range rm {
						roots[k] = rm[k].(*Doc).Bytes
					}
					var cfg *multirepo.MultiRepoConfig
					var cl *multirepo.MultiRepoClient
					if x := guard(func() { cfg, err = multirepo.NewConfig(b, roots) }); x != "" {
						t.Fail("NewConfig: %s", x)
					}
					t.Trans(1)
					if err == nil {
						cfg.LocalMetadataDir = base
						if common {
							cfg.LocalTargetsDir = filepath.Join(d, "p", "q", "tg")
						}
						if x := guard(func() { cl, err = multirepo.New(cfg) }); x != "" {
							t.Fail("New: %s", x)
						}
						t.Trans(1)
					}
					plain := func(s string) bool {
						return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\\\x00") && len(s) < 256
					}
					t.Outcome(fmt.Sprint("names ", err == nil))
					if (err == nil) != (plain(n1) && plain(n2)) {
						t.Fail("repository names %q and %q: %s", n1, n2, refused(err))
					}
					got := readDir(d)
					// nothing outside the configured directories
					for f := range got {
						if f != "p/" && f != "p/q/" && !strings.HasPrefix(f, "p/q/md/") && !(common && strings.HasPrefix(f, "p/q/tg/")) {
							t.Fail("names %q %q: %s was created", n1, n2, f)
						}
					}
					if err != nil {
						return
					}
					if len(cl.TUFClients) != len(rm) {
						t.Fail("names %q %q: %d clients", n1, n2, len(cl.TUFClients))
					}
					for k := range rm {
						if got["p/q/md/"+k+"/root.json"] != string(rm[k].(*Doc).Bytes) {
							t.Fail("names %q %q: no root of %q in its own directory: %v", n1, n2, k, sortedKeys(got))
						}
						if _, has := got["p/q/md/"+k+"/targets/"]; has == common {
							t.Fail("names %q %q: own targets directory of %q present=%v, common=%v", n1, n2, k, has, common)
						}
						delete(got, "p/q/md/"+k+"/root.json")
					}
					for f := range got {
						if !strings.HasSuffix(f, "/") {
							t.Fail("names %q %q: unexpected file %s", n1, n2, f)
						}
					}
				})
			}
		}
	}
	runC29Maps(c, ra, rb)
	runC29Roots(c)
	runC29Download(c)
	runC29TopLevel(c)
	runC29More(c)
}

// runC29Maps offers malformed map files; whatever is accepted must work without crashing.
func runC29Maps(c *Ctx, ra, rb *Doc) {
	good := J{"repositories": J{"a": []any{"https://a.example/"}, "b": []any{"https://b.example/"}},
		"mapping": []any{J{"paths": []any{"t*"}, "repositories": []any{"a", "b"}, "threshold": 1, "terminating": false}, J{"paths": []any{"*"}, "repositories": []any{"b"}, "threshold": 1, "terminating": true}}}
	repl := []any{nil, true, 0, -1, "", "x", "a", []any{}, []any{nil}, []any{""}, []any{"nosuch"}, []any{"["}, J{}, J{"x": nil}}
	roots := map[string][]byte{"a": ra.Bytes, "b": rb.Bytes}
	use := func(t *T, b []byte, roots map[string][]byte) {
		var cfg *multirepo.MultiRepoConfig
		var cl *multirepo.MultiRepoClient
		var err error
		t.Log("map file %s", b)
		if x := guard(func() { cfg, err = multirepo.NewConfig(b, roots) }); x != "" {
			t.Fail("NewConfig: %s", x)
		}
		t.Trans(1)
		if err == nil {
			cfg.DisableLocalCache = true
			if x := guard(func() { cl, err = multirepo.New(cfg) }); x != "" {
				t.Fail("New: %s", x)
			}
			t.Trans(1)
		}
		t.Outcome(fmt.Sprint("map ", err == nil))
		if err != nil {
			return
		}
		// replace the default network by one that is down
		for n := range cl.TUFClients {
			root := ra
			if string(roots[n]) == string(rb.Bytes) {
				root = rb
			}
			cf := defCfg()
			cf.NoCache = true
			r, err := newRClient(root, "/nonexistent", cf, func(int, string) Reply { return Reply{Err: "net"} })
			must(err)
			r.F.max = 0
			cl.TUFClients[n] = r.Up
		}
		for _, f := range []func(){
			func() { _, _, err = cl.GetTargetInfo("t") },
			func() { _, _, err = cl.GetTargetInfo("") },
			func() { _, err = cl.GetTopLevelTargets() },
			func() { _ = cl.Refresh() },
			func() {
				tf := &metadata.TargetFiles{Path: "t", Length: 1, Hashes: metadata.Hashes{"sha256": []byte{1}}}
				for _, l := range [][]string{{"a"}, {"nosuch", "a"}, {"nosuch"}, {""}, nil} {
					if _, _, err = cl.DownloadTarget(l, tf, "", ""); err == nil {
						t.Fail("DownloadTarget from %v succeeds without a network", l)
					}
				}
			},
		} {
			if x := guard(f); x != "" {
				t.Fail("using the client: %s", x)
			}
			t.Trans(1)
		}
	}
	paths := nodePaths(good, nil)
	for _, p := range paths {
		p := p
		c.Case(func() string { return fmt.Sprintf("map file, node %v", p) }, func(t *T) {
			for i := -1; i < len(repl); i++ {
				x := cloneJ(good)
				if i < 0 {
					x = delNode(x, p)
				} else {
					x = setNode(x, p, repl[i])
				}
				t.Reset()
				use(t, plainJSON(x), roots)
			}
		})
	}
	c.Case(func() string { return "map file, whole" }, func(t *T) {
		for _, s := range []string{"null", "{}", "[]", "1", "\"x\"", "", "{", "{\"mapping\":[null]}", "{\"repositories\":{\"a\":[]}}", "{\"repositories\":{\"a\":null}}", "{\"repositories\":null,\"mapping\":null}", string(plainJSON(good))} {
			t.Reset()
			use(t, []byte(s), roots)
			use(t, []byte(s), nil)
			use(t, []byte(s), map[string][]byte{"a": ra.Bytes})
			use(t, []byte(s), map[string][]byte{"a": ra.Bytes, "b": nil})
			use(t, []byte(s), map[string][]byte{"a": ra.Bytes, "b": []byte("junk")})
		}
	})
}

// runC29Roots: a repository is verified against its own root only.
func runC29Roots(c *Ctx) {
	tg := J{"t": mrTF("v1", "t")}
	srv := newHTTP(c)
	for _, roots := range [][2]string{{"a", "b"}, {"b", "a"}, {"a", "a"}, {"b", "b"}} {
		for _, v := range [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}} {
			caching, mirrors := v[0], v[1]
			c.Case(func() string { return fmt.Sprintf("roots %v caching=%v more locations=%v", roots, caching, mirrors) }, func(t *T) {
				d := t.Dir()
				docs := map[string]*Doc{}
				worlds := map[string]World{}
				for _, r := range []string{"a", "b"} {
					docs[r], worlds[r] = mrWorld(r, tg)
				}
				srv.set(func(p string) (int, []byte) {
					parts := strings.SplitN(strings.TrimPrefix(p, "/"), "/", 2)
					if len(parts) == 2 && worlds[parts[0]] != nil && parts[1] == "targets/t" {
						return 200, []byte("content of t")
					}
					if len(parts) == 2 && worlds[parts[0]] != nil && worlds[parts[0]][parts[1]] != nil {
						return 200, worlds[parts[0]][parts[1]].Bytes
					}
					return 404, nil
				})
				ua, ub := []any{srv.url + "/a"}, []any{srv.url + "/b"}
				if mirrors {
					ua, ub = append(ua, srv.url+"/b", srv.url+"/none"), append(ub, srv.url+"/a", "")
				}
				b := plainJSON(J{"repositories": J{"a": ua, "b": ub},
					"mapping": []any{J{"paths": []any{"*"}, "repositories": []any{"a", "b"}, "threshold": 1, "terminating": true}}})
				cfg, err := multirepo.NewConfig(b, map[string][]byte{"a": docs[roots[0]].Bytes, "b": docs[roots[1]].Bytes})
				must(err)
				cfg.LocalMetadataDir = filepath.Join(d, "md")
				cfg.DisableLocalCache = !caching
				cl, err := multirepo.New(cfg)
				if err != nil {
					t.Fail("New: %v", err)
				}
				want := roots == [2]string{"a", "b"}
				err = cl.Refresh()
				t.Trans(2)
				if (err == nil) != want {
					t.Fail("Refresh with roots %v: %s", roots, refused(err))
				}
				info, repos, err := cl.GetTargetInfo("t")
				var exp []string
				for i, r := range []string{"a", "b"} {
					if roots[i] == r {
						exp = append(exp, r)
					}
				}
				if (err == nil) != (len(exp) > 0) || err == nil && fmt.Sprint(repos) != fmt.Sprint(exp) {
					t.Fail("GetTargetInfo with roots %v: %v %s, expected repositories %v", roots, repos, refused(err), exp)
				}
				if err == nil && caching {
					p, data, err := cl.DownloadTarget(repos, info, "", "")
					if err != nil || string(data) != "content of t" || p != filepath.Join(d, "md", exp[0], "targets", "t") {
						t.Fail("DownloadTarget from %v: %q %q %s", repos, p, data, refused(err))
					}
				}
				got := readDir(d)
				for _, r := range []string{"a", "b"} {
					if tsx, has := got["md/"+r+"/timestamp.json"]; has && (!caching || tsx != string(worlds[r]["timestamp.json"].Bytes)) {
						t.Fail("cached timestamp of %s is not that repository's", r)
					}
				}
				if !caching && len(got) != 0 {
					t.Fail("files without caching: %v", sortedKeys(got))
				}
				t.State(fmt.Sprint(roots, caching))
			})
		}
	}
}

// runC29Download: repositories are tried in order.
func runC29Download(c *Ctx) {
	answers := []string{"good", "404", "bad", "long", "net"}
	orders := [][]string{{"a", "b", "c"}, {"c", "a"}, {"b"}, {}, {"nosuch", "b", "a"}, {"a", "a", "b"}}
	const content = "content of t"
	pre := []string{"none", "right", "wrong", "same length"}
	for _, x := range answers {
		for _, y := range answers {
			x, y := x, y
			c.Case(func() string { return fmt.Sprintf("download a=%s b=%s", x, y) }, func(t *T) {
				for _, z := range answers {
					ans := map[string]string{"a": x, "b": y, "c": z}
					for _, order := range orders {
						for _, dest := range []string{"default", "common", "explicit"} {
							for _, p := range pre {
								for _, cache := range []bool{true, false} {
									mrDownload(t, ans, order, dest, p, cache, content, "")
									if p == "none" || p == "wrong" && !cache {
										mrDownload(t, ans, order, dest, p, cache, content, "https://given.example/x")
									}
								}
							}
						}
					}
				}
			})
		}
	}
}

type tgtFetcher struct {
	reply func(url string) ([]byte, string)
	urls  []string
	lim   []int64
}

func (f *tgtFetcher) DownloadFile(u string, maxLength int64, timeout time.Duration) ([]byte, error) {
	f.urls = append(f.urls, u)
	f.lim = append(f.lim, maxLength)
	b, e := f.reply(u)
	if e != "" {
		return nil, netErr(e, u)
	}
	return append([]byte{}, b...), nil
}

func mrDownload(t *T, ans map[string]string, order []string, dest, pre string, cache bool, content, base string) {
	d := t.Dir()
	defer os.RemoveAll(d)
	t.Reset()
	t.Log("answers %v order %v destination %s pre-existing %s cache %v base URL %q", ans, order, dest, pre, cache, base)
	cl := &multirepo.MultiRepoClient{Config: &multirepo.MultiRepoConfig{}, TUFClients: map[string]*updater.Updater{}}
	fs := map[string]*tgtFetcher{}
	paths := map[string]string{}
	filePath := ""
	if dest == "explicit" {
		filePath = filepath.Join(d, "out")
	}
	for _, r := range []string{"a", "b", "c"} {
		r := r
		root, _ := mrRoot(r)
		cfg := defCfg()
		cfg.NoCache = !cache
		f := &tgtFetcher{reply: func(string) ([]byte, string) {
			switch ans[r] {
			case "good":
				return []byte(content), ""
			case "bad":
				return []byte(strings.ToUpper(content)), ""
			case "long":
				return []byte(content + "x"), ""
			}
			return nil, ans[r]
		}}
		fs[r] = f
		rc := cfg.real(root.Bytes, filepath.Join(d, r), &netFetcher{})
		rc.Fetcher = f
		rc.RemoteTargetsURL = "https://" + r + ".example/"
		if dest == "common" {
			rc.LocalTargetsDir = filepath.Join(d, "common")
		}
		up, err := updater.New(rc)
		must(err)
		cl.TUFClients[r] = up
		paths[r] = filepath.Join(rc.LocalTargetsDir, "t")
		if filePath != "" {
			paths[r] = filePath
		}
	}
	// a file is there before for the first known repository of the order
	first := ""
	for _, r := range order {
		if cl.TUFClients[r] != nil {
			first = r
			break
		}
	}
	if pre != "none" && first != "" {
		must(mkdirAll(filepath.Dir(paths[first])))
		must(os.WriteFile(paths[first], []byte(map[string]string{"right": content, "wrong": "old", "same length": strings.ToLower(strings.Replace(content, "t", "u", 1))}[pre]), 0o644))
	}
	before := readDir(d)
	tf, err := metadata.TargetFile().FromBytes("t", []byte(content))
	must(err)
	got, data, err := cl.DownloadTarget(order, tf, filePath, base)
	t.Trans(1)
	// the model
	winner, wantReq := "", map[string]int{}
	files := map[string]string{}
	for k, v := range before {
		files[k] = v
	}
	cur := func(p string) (string, bool) {
		rel, _ := filepath.Rel(d, p)
		v, has := files[rel]
		return v, has
	}
	for _, r := range order {
		if cl.TUFClients[r] == nil {
			continue
		}
		if v, has := cur(paths[r]); cache && has && v == content {
			winner = r
			break
		}
		wantReq[r]++
		if ans[r] == "good" {
			winner = r
			if cache {
				rel, _ := filepath.Rel(d, paths[r])
				files[rel] = content
			}
			break
		}
	}
	if (err == nil) != (winner != "") {
		t.Fail("DownloadTarget: %s, expected a copy from %q", refused(err), winner)
	}
	if winner != "" && string(data) != content {
		t.Fail("DownloadTarget returned %q", data)
	}
	if winner != "" && got != paths[winner] {
		t.Fail("DownloadTarget returned path %s, expected %s", got, paths[winner])
	}
	for r, f := range fs {
		if len(f.urls) != wantReq[r] {
			t.Fail("requests to %s: %v, expected %d", r, f.urls, wantReq[r])
		}
		for _, u := range f.urls {
			want := "https://" + r + ".example/t"
			if base != "" {
				want = base + "/t"
			}
			if u != want {
				t.Fail("request for %s, expected %s", u, want)
			}
		}
	}
	after := readDir(d)
	if fmt.Sprint(after) != fmt.Sprint(files) {
		t.Fail("files afterwards: %v, expected %v", after, files)
	}
	t.Outcome(fmt.Sprint("download ", winner != ""))
}

var mrRoots = map[string]*Doc{}

func mrRoot(r string) (*Doc, World) {
	if mrRoots[r] == nil {
		mrRoots[r], _ = mrWorld(r, J{})
	}
	return mrRoots[r], nil
}

// runC29TopLevel: the combined list is what the lookup accepts.
func runC29TopLevel(c *Ctx) {
	repos := []string{"a", "b", "c"}
	var maps [][]mrMap
	pats := [][]string{{"*"}, {"t1"}, {"t1", "t2"}}
	lists := [][]string{{"a"}, {"a", "b"}, {"a", "b", "c"}, {"c", "b"}}
	for _, p := range pats {
		for _, l := range lists {
			for _, th := range []int{1, 2, 3} {
				for _, tm := range []bool{false, true} {
					m := mrMap{p, l, th, tm}
					maps = append(maps, []mrMap{m}, []mrMap{m, {[]string{"*"}, []string{"c", "a"}, 1, true}})
				}
			}
		}
	}
	few := []string{"none", "v1", "v2"}
	var shapes []map[string]map[string]string // repo -> target -> answer
	for _, x := range few {
		for _, y := range few {
			for _, z := range few {
				for _, w := range Pick(c, []string{"v1", "none"}, few) {
					shapes = append(shapes, map[string]map[string]string{
						"a": {"t1": x, "t2": y, "t3": "v1"}, "b": {"t1": y, "t2": w, "t4": "v2"}, "c": {"t1": z, "t2": w, "t5": x}})
				}
			}
		}
	}
	for si, shape := range shapes {
		shape := shape
		c.Case(func() string { return fmt.Sprintf("top-level targets, shape %d %v", si, shape) }, func(t *T) {
			ups := map[string]*updater.Updater{}
			roots := map[string][]byte{}
			union := map[string]bool{}
			for _, r := range repos {
				u, root := mrUpdater(r, shape[r], false)
				ups[r], roots[r] = u, root.Bytes
				for n, a := range shape[r] {
					if a != "none" {
						union[n] = true
					}
				}
			}
			for _, m := range maps {
				t.Reset()
				t.Log("shape %v mappings %v", shape, m)
				cfg, err := multirepo.NewConfig(mrJSON(repos, m), roots)
				must(err)
				cl := &multirepo.MultiRepoClient{Config: cfg, TUFClients: ups}
				if err := cl.Refresh(); err != nil {
					// the updaters are shared: only the first refresh is defined
					_ = err
				}
				var got map[string]*metadata.TargetFiles
				if x := guard(func() { got, err = cl.GetTopLevelTargets() }); x != "" {
					t.Fail("GetTopLevelTargets: %s", x)
				}
				t.Trans(1)
				if err != nil {
					t.Fail("GetTopLevelTargets: %v", err)
				}
				for n := range union {
					ans := map[string]string{}
					for _, r := range repos {
						ans[r] = orStr(shape[r][n], "none")
					}
					ver, _, found := tap4(m, ans, n)
					if (got[n] != nil) != found {
						t.Fail("combined list contains %s: %v, the mappings accept it: %v", n, got[n] != nil, found)
					}
					if found {
						w := mrTF(ver, n)
						if got[n].Hashes["sha256"].String() != w["hashes"].(J)["sha256"] {
							t.Fail("combined list has another version of %s than %s", n, ver)
						}
					}
				}
				for n := range got {
					if !union[n] {
						t.Fail("combined list contains %s, which no repository lists", n)
					}
				}
				t.State(fmt.Sprint(shape, m))
			}
		})
	}
}

func orStr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}
