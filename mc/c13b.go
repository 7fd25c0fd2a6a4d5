package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

// tgtRepo is a repository with one targets file of the given entries, and a client of it.
func tgtClient(d string, cs bool, tg J, f func(cfg *SCfg), g func(*config.UpdaterConfig)) (*updater.Updater, *config.UpdaterConfig, *tgtFetcher) {
	root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: cs})
	w := World{}
	w.put(cs, "targets", mkTGraw(1, tg, good(Ks("tg"))))
	w.put(cs, "snapshot", MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, expValid, good(Ks("sn"))))
	w.put(cs, "timestamp", MkTS(1, Meta{Ver: 1}, expValid, good(Ks("ts"))))
	cfg := defCfg()
	if f != nil {
		f(&cfg)
	}
	rc := cfg.real(root.Bytes, d, nil)
	tf := &tgtFetcher{}
	rc.Fetcher = &switchFetcher{&netFetcher{net: w.net}, tf}
	rc.RemoteTargetsURL = "https://targets.example/x/"
	if g != nil {
		g(rc)
	}
	up, err := updater.New(rc)
	must(err)
	return up, rc, tf
}

// c13decoys: the right content under any other name is not the target's file.
func c13decoys(c *Ctx) {
	const data = "the content"
	obj := J{"length": len(data), "hashes": J{"sha256": sha256hex([]byte(data))}}
	paths := []string{"t", "d/t", "d/e/t", "d%2Ft", "D/t", "a b", "a+b", "é", "t.json", "timestamp.json", "d/", "./t", "x?y"}
	for _, p := range paths {
		for _, caching := range []bool{true, false} {
			c.Case(func() string { return fmt.Sprintf("files elsewhere with the content of %q, caching %v", p, caching) }, func(t *T) {
				tg := J{}
				for _, q := range paths {
					tg[q] = obj
				}
				d := t.Dir()
				up, rc, tf := tgtClient(d, false, tg, func(cfg *SCfg) { cfg.NoCache = !caching }, nil)
				must(mkdirAll(rc.LocalTargetsDir))
				must(mkdirAll(rc.LocalMetadataDir))
				wd, err := os.Getwd()
				must(err)
				defer func() { must(os.Chdir(wd)) }()
				must(mkdirAll(filepath.Join(d, "cwd")))
				must(os.Chdir(filepath.Join(d, "cwd")))
				ti, err := up.GetTargetInfo(p)
				must(err)
				want := filepath.Join(rc.LocalTargetsDir, escaped(p))
				h := sha256hex([]byte(data))
				var decoys []string
				for _, dir := range []string{rc.LocalTargetsDir, rc.LocalMetadataDir, d, filepath.Join(d, "cwd"), filepath.Join(rc.LocalTargetsDir, "targets")} {
					for _, n := range []string{p, filepath.Base(p), escaped(p), strings.ToLower(escaped(p)), strings.ToUpper(escaped(p)), escaped(escaped(p)), strings.ReplaceAll(p, "/", "_"), h, h + "." + filepath.Base(p), h + "." + escaped(p), escaped(p) + ".tmp", escaped(p) + ".json", "." + escaped(p)} {
						if f := filepath.Join(dir, n); f != want && strings.HasPrefix(f, d) {
							decoys = append(decoys, f)
						}
					}
				}
				find := func(what, dest string, hit bool) {
					fp, fb, err := up.FindCachedTarget(ti, dest)
					t.Trans(1)
					w := want
					if dest != "" {
						w = dest
					}
					if err != nil || hit && (fp != w || string(fb) != data) || !hit && (fp != "" || len(fb) != 0) {
						t.Fail("%s: FindCachedTarget(%q, %q) = %q, %q, %v, expected found=%v", what, p, dest, fp, fb, err, hit)
					}
				}
				explicit := filepath.Join(d, "mine")
				put := func(f, s string) bool {
					if i, err := os.Lstat(f); err == nil && i.IsDir() {
						return false
					}
					return mkdirAll(filepath.Dir(f)) == nil && os.WriteFile(f, []byte(s), 0o644) == nil
				}
				seen := map[string]bool{}
				for _, f := range decoys {
					if seen[f] || strings.HasPrefix(want+"/", f+"/") || strings.HasPrefix(f, want+"/") || !put(f, data) {
						continue
					}
					seen[f] = true
					t.Reset()
					t.Log("the content is in %s", f)
					find("its own file is missing", "", false)
					find("the destination is missing", explicit, false)
					put(want, "other")
					find("its own file has other content", "", false)
					must(os.Remove(want))
					put(want, data)
					find("its own file is right", "", caching)
					find("the destination is missing", explicit, false)
					put(explicit, data)
					must(os.Remove(want))
					find("the destination is right", explicit, caching)
					find("its own file is missing", "", false)
					must(os.Remove(explicit))
					// a failed download neither uses nor touches it
					for _, served := range []string{"", "bad"} {
						tf.reply = func(string) ([]byte, string) {
							if served == "" {
								return nil, "404"
							}
							return []byte(served), ""
						}
						for _, dest := range []string{"", explicit} {
							_, b, err := up.DownloadTarget(ti, dest, "")
							t.Trans(1)
							if err == nil || len(b) > 0 {
								t.Fail("DownloadTarget(%q, %q) without the target being served: %q, %v", p, dest, b, err)
							}
						}
					}
					if b, err := os.ReadFile(f); err != nil || string(b) != data {
						t.Fail("the file changed: %q %v", b, err)
					}
					if _, err := os.Lstat(want); err == nil {
						t.Fail("the target's own file appeared")
					}
					if os.Remove(f) == nil {
						for x := filepath.Dir(f); x != d && x != rc.LocalTargetsDir && x != rc.LocalMetadataDir && x != filepath.Join(d, "cwd"); x = filepath.Dir(x) {
							if os.Remove(x) != nil {
								break
							}
						}
					}
					t.State(fmt.Sprint(p, caching, f[len(d):]))
				}
				// all together
				for f := range seen {
					put(f, data)
				}
				find("all of them, its own file missing", "", false)
			})
		}
	}
	// destinations of every kind, with and without directories and caching
	for _, caching := range []bool{true, false} {
		for _, noDir := range []bool{true, false} {
			c.Case(func() string { return fmt.Sprintf("destinations, caching %v, no targets directory %v", caching, noDir) }, func(t *T) {
				d := t.Dir()
				up, rc, tf := tgtClient(d, true, J{"d/t": obj}, func(cfg *SCfg) { cfg.NoCache = !caching }, nil)
				ti, err := up.GetTargetInfo("d/t")
				must(err)
				wd, err := os.Getwd()
				must(err)
				defer func() { must(os.Chdir(wd)) }()
				must(mkdirAll(filepath.Join(d, "cwd", "sub")))
				must(mkdirAll(rc.LocalTargetsDir))
				must(os.Chdir(filepath.Join(d, "cwd")))
				if noDir {
					rc.LocalTargetsDir = ""
				}
				for _, dest := range []string{filepath.Join(d, "abs"), "rel", "./rel", "sub/rel", "../up", "sub/../other", filepath.Join(d, "a b%2F"), "d%2Ft", filepath.Join(d, "no", "such", "dir"), "nosuch/x", "."} {
					for _, before := range []string{"", "old content, longer than the new one", data} {
						for _, serve := range []string{data, "bad", "404", data + "x"} {
							t.Reset()
							t.Log("destination %q, before %q, served %q", dest, before, serve)
							abs := dest
							if !filepath.IsAbs(dest) {
								abs = filepath.Join(d, "cwd", dest)
							}
							possible := !strings.Contains(dest, "such") && dest != "."
							if possible {
								_ = os.Remove(abs)
								if before != "" {
									must(os.WriteFile(abs, []byte(before), 0o644))
								}
							}
							files := readDir(d)
							fp, fb, err := up.FindCachedTarget(ti, dest)
							if hit := caching && before == data && possible; err != nil || hit && (fp != dest || string(fb) != data) || !hit && fp != "" {
								t.Fail("FindCachedTarget = %q %q %v, expected found=%v", fp, fb, err, hit)
							}
							tf.reply = func(string) ([]byte, string) {
								if serve == "404" {
									return nil, serve
								}
								return []byte(serve), ""
							}
							fp, fb, err = up.DownloadTarget(ti, dest, "")
							t.Trans(2)
							okd := serve == data && (possible || !caching)
							if (err == nil) != okd || okd && string(fb) != data || !okd && len(fb) > 0 || okd && caching && fp != dest {
								t.Fail("DownloadTarget = %q %q %s, expected success=%v", fp, fb, refused(err), okd)
							}
							if okd && caching {
								rel, _ := filepath.Rel(d, abs)
								files[rel] = data
							}
							if a, b := fmt.Sprint(readDir(d)), fmt.Sprint(files); a != b {
								t.Fail("files afterwards %s, expected %s", a, b)
							}
							t.State(fmt.Sprint(caching, noDir, dest, before, serve))
						}
					}
				}
			})
		}
	}
}

// runC26More: no directories configured, destinations of every kind, and multi-repository clients.
// c13notFiles: what is at the destination is no regular file that can be read.
func c13notFiles(c *Ctx) {
	for _, n := range []int{0, 1, 30} {
		for _, cs := range []bool{true, false} {
			c.Case(func() string {
				return fmt.Sprintf("target of %d bytes, something else at its place, hash prefix %v", n, cs)
			}, func(t *T) {
				data := mkBody(n)
				for _, kind := range []string{"directory", "directory with a file of that name", "dangling link", "link to a directory", "parent is a file", "link to itself"} {
					for _, explicit := range []bool{false, true} {
						t.Reset()
						t.Log("%s, explicit destination %v", kind, explicit)
						up, rc, tf := tgtClient(t.Dir(), cs, J{"d/t": J{"length": n, "hashes": J{"sha256": sha256hex(data)}}}, nil, nil)
						tf.reply = func(string) ([]byte, string) { return append([]byte{}, data...), "" }
						ti, err := up.GetTargetInfo("d/t")
						must(err)
						want := filepath.Join(rc.LocalTargetsDir, escaped("d/t"))
						dest := ""
						if explicit {
							want = filepath.Join(rc.LocalTargetsDir, "there", "file")
							dest = want
						}
						must(mkdirAll(filepath.Dir(want)))
						works := false
						switch kind {
						case "directory":
							must(mkdirAll(want))
						case "directory with a file of that name":
							must(mkdirAll(want))
							must(os.WriteFile(filepath.Join(want, filepath.Base(want)), data, 0o644))
						case "dangling link":
							must(os.Symlink(filepath.Join(rc.LocalTargetsDir, "nothing"), want))
							works = true
						case "link to a directory":
							must(mkdirAll(filepath.Join(rc.LocalTargetsDir, "nothing")))
							must(os.Symlink(filepath.Join(rc.LocalTargetsDir, "nothing"), want))
						case "link to itself":
							must(os.Symlink(want, want))
						case "parent is a file":
							if !explicit {
								continue
							}
							must(os.RemoveAll(filepath.Dir(want)))
							must(os.WriteFile(filepath.Dir(want), data, 0o644))
						}
						for i := 0; i < 2; i++ {
							var fp string
							var fb []byte
							if x := guard(func() { fp, fb, err = up.FindCachedTarget(ti, dest) }); x != "" || err != nil || fp != "" || len(fb) > 0 {
								t.Fail("FindCachedTarget = %q, %d bytes, %v %s", fp, len(fb), err, x)
							}
							if i == 1 {
								break
							}
							if x := guard(func() { fp, fb, err = up.DownloadTarget(ti, dest, "") }); x != "" {
								t.Fail("DownloadTarget: %s", x)
							}
							t.Trans(2)
							got, rerr := os.ReadFile(want)
							if err == nil && (rerr != nil || !bytes.Equal(got, data) || fp != want || !bytes.Equal(fb, data)) {
								t.Fail("DownloadTarget reports success, at the destination: %d bytes, %v", len(got), rerr)
							}
							if err != nil && (works || len(fb) > 0) {
								t.Fail("DownloadTarget: %v, %d bytes returned", err, len(fb))
							}
							if err == nil {
								break
							}
						}
						t.State(fmt.Sprint(n, cs, kind, explicit))
					}
				}
			})
		}
	}
}

func runC26More(c *Ctx) {
	const data = "the content"
	obj := J{"length": len(data), "hashes": J{"sha256": sha256hex([]byte(data))}}
	watch := func(t *T, d string, f func()) {
		var bad []string
		before := fmt.Sprint(readDir(d))
		setFS(func(x fsCall) syscall.Errno {
			if x.mutates() {
				bad = append(bad, fmt.Sprintf("%s %s %s %o", x.Op, x.A, x.B, x.N))
			}
			return 0
		})
		func() {
			defer hookOff()
			f()
		}()
		if len(bad) > 0 {
			t.Fail("file-system changes with caching disabled: %v", bad)
		}
		if now := fmt.Sprint(readDir(d)); now != before {
			t.Fail("files afterwards %s, before %s", now, before)
		}
	}
	for mask := 0; mask < 16; mask++ {
		c.Case(func() string { return fmt.Sprintf("directories given, existing %04b", mask) }, func(t *T) {
			var up *updater.Updater
			var rc *config.UpdaterConfig
			var tf *tgtFetcher
			d := t.Dir()
			wd, err := os.Getwd()
			must(err)
			defer func() { must(os.Chdir(wd)) }()
			must(os.Chdir(d))
			dirs := [2]string{filepath.Join(d, "x", "md"), filepath.Join(d, "x", "tg")}
			for i := range dirs {
				if mask>>i&1 == 1 {
					must(mkdirAll(dirs[i]))
				}
				if mask>>(2+i)&1 == 1 {
					dirs[i] = ""
				}
			}
			hit := filepath.Join(d, "have")
			must(os.WriteFile(hit, []byte(data), 0o644))
			watch(t, d, func() {
				up, rc, tf = tgtClient(d, true, J{"d/t": obj, "": obj, "..": obj}, func(cfg *SCfg) { cfg.NoCache = true }, func(rc *config.UpdaterConfig) {
					rc.LocalMetadataDir, rc.LocalTargetsDir = dirs[0], dirs[1]
				})
				if err := rc.EnsurePathsExist(); err != nil {
					t.Fail("EnsurePathsExist: %v", err)
				}
				if err := up.Refresh(); err != nil {
					t.Fail("Refresh: %v", err)
				}
				for _, p := range []string{"d/t", ".."} {
					ti, err := up.GetTargetInfo(p)
					if err != nil {
						t.Fail("GetTargetInfo: %v", err)
					}
					for _, dest := range []string{"", "rel", hit, filepath.Join(d, "new"), filepath.Join(d, "no", "dir"), "./x/y"} {
						for _, serve := range []string{data, "bad"} {
							tf.reply = func(string) ([]byte, string) { return []byte(serve), "" }
							if fp, fb, err := up.FindCachedTarget(ti, dest); fp != "" || len(fb) > 0 || err != nil {
								t.Fail("FindCachedTarget(%q, %q) = %q %q %v", p, dest, fp, fb, err)
							}
							_, fb, err := up.DownloadTarget(ti, dest, "")
							t.Trans(2)
							if (err == nil) != (serve == data) || err == nil && string(fb) != data {
								t.Fail("DownloadTarget(%q, %q) = %q %v", p, dest, fb, err)
							}
						}
					}
				}
				_ = up.GetTopLevelTargets()
			})
			t.State(fmt.Sprint("dirs", mask))
		})
	}
	// several repositories
	for mask := 0; mask < 16; mask++ {
		c.Case(func() string { return fmt.Sprintf("multi-repository, directories given, existing %04b", mask) }, func(t *T) {
			d := t.Dir()
			wd, err := os.Getwd()
			must(err)
			defer func() { must(os.Chdir(wd)) }()
			must(os.Chdir(d))
			ra, wa := mrWorld("a", J{"t": obj})
			rb, wb := mrWorld("b", J{"t": obj})
			cfg, err := multirepo.NewConfig(mrJSON([]string{"a", "b"}, []mrMap{{[]string{"*"}, []string{"a", "b"}, 2, true}}), map[string][]byte{"a": ra.Bytes, "b": rb.Bytes})
			must(err)
			cfg.DisableLocalCache = true
			dirs := [2]string{filepath.Join(d, "x", "md"), filepath.Join(d, "x", "tg")}
			for i := range dirs {
				if mask>>i&1 == 1 {
					must(mkdirAll(dirs[i]))
				}
				if mask>>(2+i)&1 == 1 {
					dirs[i] = ""
				}
			}
			cfg.LocalMetadataDir, cfg.LocalTargetsDir = dirs[0], dirs[1]
			if dirs[1] != "" && mask&2 != 0 {
				must(os.WriteFile(filepath.Join(dirs[1], "t"), []byte(data), 0o644))
			}
			watch(t, d, func() {
				if err := cfg.EnsurePathsExist(); err != nil {
					t.Fail("EnsurePathsExist: %v", err)
				}
				cl, err := multirepo.New(cfg)
				if err != nil {
					t.Fail("New: %v", err)
				}
				t.Trans(2)
				for n, w := range map[string]World{"a": wa, "b": wb} {
					// the same client, but with a fetcher of ours
					root := map[string]*Doc{"a": ra, "b": rb}[n]
					sc := defCfg()
					sc.NoCache = true
					rc := sc.real(root.Bytes, d, nil)
					rc.LocalMetadataDir = filepath.Join(dirs[0], n)
					rc.LocalTargetsDir = dirs[1]
					if dirs[1] == "" {
						rc.LocalTargetsDir = filepath.Join(rc.LocalMetadataDir, "targets")
					}
					rc.RemoteTargetsURL = "https://targets.example/x/"
					rc.Fetcher = &switchFetcher{&netFetcher{net: w.net}, &tgtFetcher{reply: func(string) ([]byte, string) {
						if n == "a" {
							return []byte("bad"), ""
						}
						return []byte(data), ""
					}}}
					up, err := updater.New(rc)
					must(err)
					cl.TUFClients[n] = up
				}
				if err := cl.Refresh(); err != nil {
					t.Fail("Refresh: %v", err)
				}
				ti, repos, err := cl.GetTargetInfo("t")
				if err != nil || len(repos) != 2 {
					t.Fail("GetTargetInfo: %v %v", repos, err)
				}
				if m, err := cl.GetTopLevelTargets(); err != nil || len(m) != 1 {
					t.Fail("GetTopLevelTargets: %v %v", m, err)
				}
				for _, dest := range []string{"", "rel", filepath.Join(d, "new")} {
					_, b, err := cl.DownloadTarget([]string{"a", "b"}, ti, dest, "")
					t.Trans(1)
					if err != nil || !bytes.Equal(b, []byte(data)) {
						t.Fail("DownloadTarget to %q: %q %v", dest, b, err)
					}
				}
			})
			t.State(fmt.Sprint("multi", mask))
		})
	}
}

// runC29More: many and unusual targets and mappings, similar names, empty targets.
func runC29More(c *Ctx) {
	// similar repository names have directories of their own
	names := []string{"a", " a", "a ", "A", "a\t", "Ａ", "a.", ".a", "á", "a\u0301", "a b", "a  b", "a%20b", "a+b", "metadata", "targets", "A.", "a\n", "*", "~"}
	for i := range names {
		c.Case(func() string { return fmt.Sprintf("repository names like %q", names[i]) }, func(t *T) {
			d := t.Dir()
			md := filepath.Join(d, "md")
			roots := map[string][]byte{}
			rm := J{}
			for j, n := range names {
				if j != i {
					r, _ := mrWorld(fmt.Sprint("n", j%3), J{})
					roots[n] = r.Bytes
					rm[n] = []string{"https://x.example/"}
				}
			}
			cfg, err := multirepo.NewConfig(plainJSON(J{"repositories": rm, "mapping": []any{}}), roots)
			must(err)
			cfg.LocalMetadataDir = md
			cl, err := multirepo.New(cfg)
			t.Trans(1)
			if err != nil || len(cl.TUFClients) != len(names)-1 {
				t.Fail("New: %v", err)
			}
			got := readDir(md)
			n := 0
			for f, b := range got {
				if strings.HasSuffix(f, "/") {
					continue
				}
				n++
				r, rest, _ := strings.Cut(f, "/")
				if roots[r] == nil || rest != "root.json" || b != string(roots[r]) {
					t.Fail("file %q is not the root of repository %q", f, r)
				}
			}
			if n != len(names)-1 {
				t.Fail("%d roots of %d repositories: %q", n, len(names)-1, sortedKeys(got))
			}
			t.State("similar" + names[i])
		})
	}
	// many targets, of unusual names, listed by some of three repositories
	odd := []string{"t/", "a//b", "/", "t ", " t", "T", "é", "e\u0301", "..", "../t", "a?b", "[x]", "*", "a\\b", ".", "t\n", "a/b/c/d", "%2F", "t.json", "timestamp.json", "root", "0", strings.Repeat("x", 300)}
	for _, n := range []int{0, 1, 5, 63, 64, 65, 100, 257} {
		for _, thr := range []int{1, 2, 3} {
			c.Case(func() string {
				return fmt.Sprintf("top-level list of %d targets and unusual ones, threshold %d", n, thr)
			}, func(t *T) {
				repos := []string{"a", "b", "c"}
				ans := map[string]map[string]string{"a": {}, "b": {}, "c": {}}
				all := append([]string{}, odd...)
				for i := 0; i < n; i++ {
					all = append(all, fmt.Sprintf("f%03d", i))
				}
				for i, p := range all {
					for j, r := range repos {
						ans[r][p] = []string{"v1", "v1", "none", "v2", "v1+"}[(i/(1+2*j)+j)%5]
					}
				}
				ups := map[string]*updater.Updater{}
				roots := map[string][]byte{}
				for _, r := range repos {
					u, root := mrUpdater(r, ans[r], false)
					ups[r], roots[r] = u, root.Bytes
				}
				for _, maps := range [][]mrMap{{{[]string{"*", "*/*", "*/*/*/*"}, repos, thr, true}}, {{[]string{"*"}, repos, thr, false}, {[]string{"*", "*/"}, []string{"c", "b"}, 1, false}}} {
					cfg, err := multirepo.NewConfig(mrJSON(repos, maps), roots)
					must(err)
					cl := &multirepo.MultiRepoClient{Config: cfg, TUFClients: ups}
					_ = cl.Refresh()
					got, err := cl.GetTopLevelTargets()
					if err != nil {
						t.Fail("GetTopLevelTargets: %v", err)
					}
					for _, p := range all {
						a := map[string]string{}
						listed := false
						for _, r := range repos {
							a[r] = ans[r][p]
							listed = listed || a[r] != "none"
						}
						ver, _, found := tap4(maps, a, p)
						t.Trans(1)
						if (got[p] != nil) != (found && listed) {
							t.Fail("mappings %v, target %q, answers %v: in the list %v, accepted %v", maps, p, a, got[p] != nil, found)
						}
						if got[p] != nil && got[p].Hashes["sha256"].String() != mrTF(ver, p)["hashes"].(J)["sha256"] {
							t.Fail("target %q: another version than %s", p, ver)
						}
						mrCheck(t, cl, maps, a, p)
						delete(got, p)
					}
					if len(got) > 0 {
						t.Fail("targets nobody lists: %q", sortedKeys(got))
					}
				}
				t.State(fmt.Sprint("many", n, thr))
			})
		}
	}
	// map files with many mappings and repositories, one of them wrong somewhere
	for _, n := range []int{1, 2, 7, 8, 9, 20, 70} {
		c.Case(func() string { return fmt.Sprintf("map file with %d mappings", n) }, func(t *T) {
			root, _ := mrWorld("a", J{})
			mk := func(at int, what string) []byte {
				rm, ml := J{}, []any{}
				for i := 0; i < n; i++ {
					rm[fmt.Sprint("r", i)] = []any{"https://x.example/"}
					ml = append(ml, J{"paths": []any{fmt.Sprint("p", i)}, "repositories": []any{"r0", fmt.Sprint("r", i)}, "threshold": 1, "terminating": i%2 == 0})
				}
				if at >= 0 {
					m := ml[at].(J)
					switch what {
					case "null":
						ml[at] = nil
					case "unknown repository":
						m["repositories"] = []any{"r0", "nosuch"}
					case "unknown repository first":
						m["repositories"] = []any{"nosuch", "r0"}
					case "no URL":
						rm[fmt.Sprint("r", at)] = []any{}
					case "bad name":
						rm[fmt.Sprint("r", at, "/x")] = []any{"https://x.example/"}
					}
				}
				return plainJSON(J{"repositories": rm, "mapping": ml})
			}
			roots := map[string][]byte{"nosuch": root.Bytes}
			for i := 0; i < n; i++ {
				roots[fmt.Sprint("r", i)] = root.Bytes
				roots[fmt.Sprint("r", i, "/x")] = root.Bytes
			}
			offer := func(b []byte, roots map[string][]byte, want bool, what string) {
				cfg, err := multirepo.NewConfig(b, roots)
				t.Trans(1)
				if err == nil {
					cfg.DisableLocalCache = true
					var cl *multirepo.MultiRepoClient
					cl, err = multirepo.New(cfg)
					if err == nil && len(cl.TUFClients) != n && want {
						t.Fail("%s: %d clients for %d repositories", what, len(cl.TUFClients), n)
					}
				}
				if (err == nil) != want {
					t.Fail("%s: %s, expected accepted=%v", what, refused(err), want)
				}
			}
			offer(mk(-1, ""), roots, true, "right")
			for at := 0; at < n; at++ {
				for _, what := range []string{"null", "unknown repository", "unknown repository first", "no URL", "bad name"} {
					offer(mk(at, what), roots, false, fmt.Sprintf("mapping %d: %s", at, what))
				}
				less := map[string][]byte{}
				junk := map[string][]byte{}
				for k, v := range roots {
					if k != fmt.Sprint("r", at) {
						less[k] = v
						junk[k] = v
					} else {
						junk[k] = []byte("junk")
					}
				}
				offer(mk(-1, ""), less, false, fmt.Sprintf("no root of r%d", at))
				offer(mk(-1, ""), junk, false, fmt.Sprintf("junk for the root of r%d", at))
				t.State(fmt.Sprint("map", n, at))
			}
		})
	}
	// empty and large targets, fallback through many repositories
	for _, content := range []string{"", "x", strings.Repeat("large ", 30000)} {
		for _, n := range []int{1, 2, 5, 12} {
			c.Case(func() string {
				return fmt.Sprintf("fallback over %d repositories, target of %d bytes", n, len(content))
			}, func(t *T) {
				tf, err := metadata.TargetFile().FromBytes("t", []byte(content))
				must(err)
				for good := -1; good < n; good++ {
					for _, bad := range []string{"404", "net", "download", "toolong", "deadline", "wrong", "long", "mixed"} {
						for _, cache := range []bool{true, false} {
							d := t.Dir()
							cl := &multirepo.MultiRepoClient{Config: &multirepo.MultiRepoConfig{}, TUFClients: map[string]*updater.Updater{}}
							var order []string
							asked := make([]int, n)
							for i := 0; i < n; i++ {
								r := fmt.Sprint("r", i)
								order = append(order, r)
								root, _ := mrRoot("a")
								cfg := defCfg()
								cfg.NoCache = !cache
								rc := cfg.real(root.Bytes, filepath.Join(d, r), &netFetcher{})
								rc.Fetcher = &tgtFetcher{reply: func(string) ([]byte, string) {
									asked[i]++
									b := bad
									if bad == "mixed" {
										b = []string{"404", "wrong", "net", "long", "download"}[i%5]
									}
									switch {
									case i == good:
										return []byte(content), ""
									case b == "wrong" && content != "":
										return []byte(strings.ToUpper(content)), ""
									case b == "wrong", b == "long":
										return []byte(content + "x"), ""
									}
									return nil, b
								}}
								rc.RemoteTargetsURL = "https://" + r + ".example/"
								up, err := updater.New(rc)
								must(err)
								cl.TUFClients[r] = up
							}
							_, b, err := cl.DownloadTarget(order, tf, "", "")
							t.Trans(1)
							if (err == nil) != (good >= 0) || err == nil && string(b) != content {
								t.Fail("repository %d of %d delivers, the others answer %s, caching %v: %d bytes, %s", good, n, bad, cache, len(b), refused(err))
							}
							for i, k := range asked {
								if want := good < 0 || i <= good; (k == 1) != want {
									t.Fail("repository %d of %d delivers, the others answer %s: requests %v", good, n, bad, asked)
								}
							}
							must(os.RemoveAll(d))
						}
					}
				}
				t.State(fmt.Sprint("fallback", n, len(content)))
			})
		}
	}
}
