package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

func init() {
	register(&Check{ID: "C13", Run: runC13,
		Rule: "every configuration (consistent snapshots x hash prefixes x caching x default or explicit destination x base URL from the configuration or the call, with and without trailing slash) x target paths x declared length and hashes (SHA-256, SHA-512, both, one of them wrong, unknown algorithm, none, wrong length) taken from verified metadata x served bytes (right, altered at either end, cut, extended, empty, other target, download errors) x file at the destination before; result, returned and stored bytes, requested URL and untouched files compared with a delivery model; two downloads in a row and FindCachedTarget before and after; targets of every size class altered, cut or extended at every boundary",
	})
}

type c13cfg struct {
	cs, prefix, cache bool
	dest              string // default explicit
	base              string // cfg cfg/ arg arg/
}

func runC13(c *Ctx) {
	const data = "The target file's content.\n"
	other := strings.ToUpper(data)
	s256, s512 := sha256hex([]byte(data)), sha512hex([]byte(data))
	type info struct {
		name string
		obj  J
		good bool // the right data matches
		read bool // the metadata can be read at all
		hs   []string
	}
	L := len(data)
	infos := []info{
		{"sha256", J{"length": L, "hashes": J{"sha256": s256}}, true, true, []string{s256}},
		{"sha512", J{"length": L, "hashes": J{"sha512": s512}}, true, true, []string{s512}},
		{"both", J{"length": L, "hashes": J{"sha256": s256, "sha512": s512}}, true, true, []string{s256, s512}},
		{"wrong sha512", J{"length": L, "hashes": J{"sha256": s256, "sha512": sha512hex([]byte(other))}}, false, true, []string{s256, sha512hex([]byte(other))}},
		{"wrong sha256", J{"length": L, "hashes": J{"sha256": sha256hex([]byte(other)), "sha512": s512}}, false, true, []string{sha256hex([]byte(other)), s512}},
		{"unknown too", J{"length": L, "hashes": J{"sha256": s256, "md5": "00"}}, false, true, []string{s256, "00"}},
		{"unknown only", J{"length": L, "hashes": J{"md5": "00"}}, false, true, []string{"00"}},
		{"short hash", J{"length": L, "hashes": J{"sha256": s256[:62]}}, false, true, []string{s256[:62]}},
		{"empty hash", J{"length": L, "hashes": J{"sha256": ""}}, false, true, []string{""}},
		{"length-1", J{"length": L - 1, "hashes": J{"sha256": s256}}, false, true, []string{s256}},
		{"length+1", J{"length": L + 1, "hashes": J{"sha256": s256}}, false, true, []string{s256}},
		{"length 0", J{"length": 0, "hashes": J{"sha256": s256}}, false, true, []string{s256}},
		{"no hashes", J{"length": L, "hashes": J{}}, false, false, nil},
		{"hashes absent", J{"length": L}, false, false, nil},
		{"custom", J{"length": L, "hashes": J{"sha256": s256}, "custom": J{"x": 1}}, true, true, []string{s256}},
	}
	served := map[string]string{"right": data, "first": "X" + data[1:], "last": data[:L-1] + "X", "middle": data[:L/2] + "~" + data[L/2+1:], "cut": data[:L-1], "extended": data + "x",
		"empty": "", "other": other, "doubled": data + data, "CR": strings.ReplaceAll(data, "\n", "\r\n")}
	sKeys := append(sortedKeys(served), "404", "403", "500", "net", "download", "toolong", "eof", "deadline", "wrapped404")
	paths := []string{"t", "d/t", "d/e/t", "é x", "a#b?c", "d/", "t.json", "/abs"}
	pre := []string{"none", "right", "old", "samelen", "cut"}
	var cfgs []c13cfg
	for _, cs := range []bool{false, true} {
		for _, p := range []bool{false, true} {
			for _, ca := range []bool{false, true} {
				for _, d := range []string{"default", "explicit"} {
					for _, b := range []string{"cfg", "cfg/", "arg", "arg/"} {
						cfgs = append(cfgs, c13cfg{cs, p, ca, d, b})
					}
				}
			}
		}
	}
	// the repository: one version of the targets metadata per info
	type repo struct {
		root *Doc
		w    World
	}
	mk := func(cs bool, in info) repo {
		tg := J{}
		for _, p := range paths {
			tg[p] = in.obj
		}
		root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: cs})
		w := World{}
		w.put(cs, "targets", mkTGraw(1, tg, good(Ks("tg"))))
		w.put(cs, "snapshot", MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, expValid, good(Ks("sn"))))
		w.put(cs, "timestamp", MkTS(1, Meta{Ver: 1}, expValid, good(Ks("ts"))))
		return repo{root, w}
	}
	for _, cf := range cfgs {
		for _, in := range infos {
			cf, in := cf, in
			full := c.Thorough() || in.name == "sha256" || in.name == "both"
			c.Case(func() string { return fmt.Sprintf("%+v %s", cf, in.name) }, func(t *T) {
				r := mk(cf.cs, in)
				d := t.Dir()
				md := &netFetcher{net: r.w.net}
				cfg := defCfg()
				cfg.NoCache = !cf.cache
				rc := cfg.real(r.root.Bytes, d, md)
				tf := &tgtFetcher{}
				sw := &switchFetcher{md, tf}
				rc.Fetcher = sw
				rc.PrefixTargetsWithHash = cf.prefix
				base := "https://targets.example/x/"
				arg := ""
				switch cf.base {
				case "cfg":
					rc.RemoteTargetsURL = base[:len(base)-1]
				case "cfg/":
					rc.RemoteTargetsURL = base
				case "arg":
					arg = base[:len(base)-1]
				case "arg/":
					arg = base
				}
				up, err := updater.New(rc)
				must(err)
				for _, p := range paths {
					var ti *metadata.TargetFiles
					ti, err = up.GetTargetInfo(p)
					t.Trans(1)
					if (err == nil) != in.read {
						t.Fail("target information %s: GetTargetInfo: %s", in.name, refused(err))
					}
					if err != nil {
						continue
					}
					for _, sk := range sKeys {
						if !full && sk != "right" && sk != "other" && sk != "extended" && sk != "404" {
							continue
						}
						for _, pr := range pre {
							if !full && pr != "none" && pr != "old" {
								continue
							}
							t.Reset()
							t.Log("path %q, info %s, served %s, before %s", p, in.name, sk, pr)
							dest := ""
							want := filepath.Join(rc.LocalTargetsDir, escaped(p))
							if cf.dest == "explicit" {
								dest = filepath.Join(d, "my file")
								want = dest
							}
							// the file before
							_ = os.Remove(want)
							before := map[string]string{"right": data, "old": "old content", "samelen": other, "cut": data[:3]}[pr]
							if pr != "none" {
								must(mkdirAll(filepath.Dir(want)))
								must(os.WriteFile(want, []byte(before), 0o644))
							}
							// cached?
							find := func(now string, has bool) {
								var fp string
								var fb []byte
								var err error
								if x := guard(func() { fp, fb, err = up.FindCachedTarget(ti, dest) }); x != "" {
									t.Fail("FindCachedTarget: %s", x)
								}
								t.Trans(1)
								hit := cf.cache && has && in.good && now == data
								if err != nil {
									t.Fail("FindCachedTarget: %v", err)
								}
								if hit && (fp != want || string(fb) != data) || !hit && (fp != "" || len(fb) != 0) {
									t.Fail("FindCachedTarget = %q (%d bytes), expected found=%v at %s", fp, len(fb), hit, want)
								}
							}
							find(before, pr != "none")
							dir0 := readDir(d)
							// download
							tf.urls, tf.lim = nil, nil
							tf.reply = func(string) ([]byte, string) {
								if b, has := served[sk]; has {
									return []byte(b), ""
								}
								return nil, sk
							}
							var fp string
							var fb []byte
							if x := guard(func() { fp, fb, err = up.DownloadTarget(ti, dest, arg) }); x != "" {
								t.Fail("DownloadTarget: %s", x)
							}
							t.Trans(1)
							okd := in.good && served[sk] == data && sk == "right"
							if (err == nil) != okd {
								t.Fail("DownloadTarget: %s, expected success=%v", refused(err), okd)
							}
							if okd && !bytes.Equal(fb, []byte(data)) {
								t.Fail("DownloadTarget returned other bytes: %q", fb)
							}
							if okd && cf.cache && fp != want {
								t.Fail("DownloadTarget returned path %s, expected %s", fp, want)
							}
							if !okd && len(fb) != 0 {
								t.Fail("failed DownloadTarget returned bytes: %q", fb)
							}
							rel, _ := filepath.Rel(d, want)
							if okd && cf.cache {
								dir0[rel] = data
							}
							if a, b := fmt.Sprint(readDir(d)), fmt.Sprint(dir0); a != b {
								t.Fail("files afterwards %s, expected %s", a, b)
							}
							// the request
							if len(tf.urls) != 1 {
								t.Fail("requests: %v", tf.urls)
							}
							hit := false
							for _, u := range targetURLs(base, p, in.hs, cf.cs && cf.prefix) {
								hit = hit || u == tf.urls[0]
							}
							if !hit {
								t.Fail("requested %s for %q (prefix=%v)", tf.urls[0], p, cf.cs && cf.prefix)
							}
							if tf.lim[0] != ti.Length {
								t.Fail("size limit %d, expected %d", tf.lim[0], ti.Length)
							}
							if okd {
								find(data, cf.cache)
							} else {
								find(before, pr != "none")
							}
							t.Outcome(fmt.Sprint("delivered ", okd))
							t.State(fmt.Sprint(cf, in.name, p, sk, pr))
						}
					}
				}
			})
		}
	}
	c13sizes(c)
	c13decoys(c)
	c13notFiles(c)
	// no base URL, no targets directory
	c.Case(func() string { return "incomplete configuration" }, func(t *T) {
		r := mk(false, infos[0])
		d := t.Dir()
		md := &netFetcher{net: r.w.net}
		for _, noDir := range []bool{false, true} {
			for _, noBase := range []bool{false, true} {
				cfg := defCfg()
				rc := cfg.real(r.root.Bytes, d, md)
				tf := &tgtFetcher{reply: func(string) ([]byte, string) { return []byte(data), "" }}
				rc.Fetcher = &switchFetcher{md, tf}
				up, err := updater.New(rc)
				must(err)
				ti, err := up.GetTargetInfo("t")
				must(err)
				if noDir {
					rc.LocalTargetsDir = ""
				}
				rc.RemoteTargetsURL = "https://targets.example"
				if noBase {
					rc.RemoteTargetsURL = ""
				}
				_, b, err := up.DownloadTarget(ti, "", "")
				t.Trans(1)
				if (err == nil) != (!noDir && !noBase) || err != nil && (len(b) != 0 || len(tf.urls) != 0) {
					t.Fail("targets directory unset=%v, base URL unset=%v: %s, %d bytes, %d requests", noDir, noBase, refused(err), len(b), len(tf.urls))
				}
			}
		}
	})
}

// c13sizes: targets of every size class, altered in one place.
func c13sizes(c *Ctx) {
	sizes := []int{0, 1, 2, 8, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 1 << 20, 1<<20 + 1}
	if c.Thorough() {
		sizes = append(sizes, 16, 64, 1000, 16384, 1<<17, 3<<20, 1<<23, 5_000_001, 16<<20+3)
	}
	for _, n := range sizes {
		for _, cs := range []bool{true, false} {
			n, cs := n, cs
			c.Case(func() string { return fmt.Sprintf("target of %d bytes, hash prefix %v", n, cs) }, func(t *T) {
				data := mkBody(n)
				obj := map[string]J{"t256": {"length": n, "hashes": J{"sha256": sha256hex(data)}}, "t512": {"length": n, "hashes": J{"sha512": sha512hex(data)}},
					"both": {"length": n, "hashes": J{"sha256": sha256hex(data), "sha512": sha512hex(data)}},
					// entries that nothing matches
					"w256": {"length": n, "hashes": J{"sha256": sha256hex([]byte("something else"))}}, "w512": {"length": n, "hashes": J{"sha256": sha256hex(data), "sha512": sha512hex([]byte("something else"))}},
					"longer": {"length": n + 1, "hashes": J{"sha256": sha256hex(data)}}, "shorter": {"length": max(n-1, 0), "hashes": J{"sha256": sha256hex(data)}},
					"wempty": {"length": n, "hashes": J{"sha256": sha256hex(nil) + "00"}}}
				if n == 0 {
					delete(obj, "shorter")
				}
				tg := J{}
				for k, o := range obj {
					tg[k] = o
				}
				root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: cs})
				w := World{}
				w.put(cs, "targets", mkTGraw(1, tg, good(Ks("tg"))))
				w.put(cs, "snapshot", MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, expValid, good(Ks("sn"))))
				w.put(cs, "timestamp", MkTS(1, Meta{Ver: 1}, expValid, good(Ks("ts"))))
				cfg := defCfg()
				d := t.Dir()
				rc := cfg.real(root.Bytes, d, nil)
				tf := &tgtFetcher{}
				rc.Fetcher = &switchFetcher{&netFetcher{net: w.net}, tf}
				rc.RemoteTargetsURL = "https://targets.example/x/"
				up, err := updater.New(rc)
				must(err)
				alts := map[string][]byte{"right": data, "extended": append(append([]byte{}, data...), 0), "extended by a line": append(append([]byte{}, data...), '\n')}
				flip := func(i int, bit byte) {
					if i >= 0 && i < n {
						b := append([]byte{}, data...)
						b[i] ^= bit
						alts[fmt.Sprintf("bit %d of byte %d", bit, i)] = b
					}
				}
				cut := func(i int) {
					if i >= 0 && i < n {
						alts[fmt.Sprintf("first %d bytes", i)] = data[:i]
						alts[fmt.Sprintf("last %d bytes", i)] = data[n-i:]
						alts[fmt.Sprintf("zeros from %d", i)] = append(append([]byte{}, data[:i]...), make([]byte, n-i)...)
					}
				}
				if n <= 8 {
					for i := 0; i < n; i++ {
						for b := 0; b < 8; b++ {
							flip(i, 1<<b)
						}
						cut(i)
					}
				} else {
					for _, i := range []int{0, 1, n / 2, n - 2, n - 1, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8192, 32767, 32768, 65535, 65536, 1<<20 - 1} {
						flip(i, 1)
						cut(i)
					}
				}
				for _, name := range sortedKeys(obj) {
					ti, err := up.GetTargetInfo(name)
					must(err)
					want := filepath.Join(rc.LocalTargetsDir, name)
					for _, k := range sortedKeys(alts) {
						t.Reset()
						t.Log("target %s, served: %s", name, k)
						b := alts[k]
						same := bytes.Equal(b, data)
						if (name[0] == 'w' || name == "longer" || name == "shorter") && k != "right" && n > 8 && !c.Thorough() {
							continue
						}
						if same && k != "right" {
							continue
						}
						same = same && (name[0] == 't' || name == "both")
						// such a file already there is the target or not
						_ = os.Remove(want)
						must(mkdirAll(rc.LocalTargetsDir))
						must(os.WriteFile(want, b, 0o644))
						fp, fb, err := up.FindCachedTarget(ti, "")
						if err != nil || (fp != "") != same || same && !bytes.Equal(fb, data) {
							t.Fail("FindCachedTarget = %q, %d bytes, %v with a file that is %s", fp, len(fb), err, k)
						}
						_ = os.Remove(want)
						tf.reply = func(string) ([]byte, string) { return append([]byte{}, b...), "" }
						fp, fb, err = up.DownloadTarget(ti, "", "")
						t.Trans(2)
						if (err == nil) != same {
							t.Fail("DownloadTarget: %s, expected success=%v", refused(err), same)
						}
						got, rerr := os.ReadFile(want)
						if same && (fp != want || !bytes.Equal(fb, data) || !bytes.Equal(got, data)) {
							t.Fail("DownloadTarget delivered %d bytes and stored %d bytes (%v) that are not the target", len(fb), len(got), rerr)
						}
						if !same && (rerr == nil || len(fb) > 0) {
							t.Fail("failed DownloadTarget left a file of %d bytes, returned %d", len(got), len(fb))
						}
						t.State(fmt.Sprint(n, cs, name, k))
					}
				}
			})
		}
	}
}

// switchFetcher sends metadata requests to one fetcher and the others to another.
type switchFetcher struct {
	md *netFetcher
	tg *tgtFetcher
}

func targetURLs(base, p string, hs []string, prefixed bool) []string {
	if !prefixed {
		return []string{base + p}
	}
	var r []string
	i := strings.LastIndex(p, "/") + 1
	for _, h := range hs {
		r = append(r, base+p[:i]+h+"."+p[i:])
	}
	return r
}
