package main

import (
	"crypto/sha256"
	"errors"
	"fmt"
	neturl "net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

func init() {
	register(&Check{ID: "C14", Run: runC14,
		Rule:        "every pair (thorough: every triple of a smaller set) of delegated role names and every pair of target paths out of alphabets of hostile names, each name in every directory configuration (odd characters, relative, nested, symbolic links) with the working directory elsewhere; every file-system call of the sessions is observed and changes outside the allowed directories are refused and reported; a second session without the role files on the server must find them in the cache; surrounding files must stay as they were; paths and names that are not valid UTF-8, built in memory and taken from metadata; things other than a regular file standing where a name would go",
		Assumptions: []string{"the metadata and targets directories are different directories", "observation through an instrumented standard library, plus a comparison of the whole scratch tree", "the file system distinguishes upper and lower case"}})
}

// names that only have to be handled safely, names that must work are in tameRoles.
var tameRoles = map[string]bool{"A": true, "B": true, "role-1": true, "a": true, "x.y": true, "A.json": true, "a b": true, "a+b": true, "a/b": true, "é": true}

func c14roles() []string {
	long := strings.Repeat("n", 300)
	return []string{"A", "B", "a", "role-1", "x.y", "", ".", "..", "...", "../A", "../../A", "../root", "../tg/A", "x/../A", "./A", "/A", "//A", "/tmp/verif-escape", "a/b", "a//b", "a\\b", "..\\A", "A.json", "A.json.json", ".json", "root", "root.json", "timestamp", "snapshot", "targets", "targets.json", "timestamp.json",
		"Root", "ROOT", "root ", " root", "root\u0000", "%2e%2e%2fA", "..%2FA", "%2E", "A%2ejson", "%41", "%", "%zz", "a b", "a+b", "a%20b", "a%2Bb", "é", "e\u0301", "A\u0000", "\n", "\t", "*", "?", "[A]", "A?x=1", "A#f", "a&b=c", "1.root", "1.A", "2.targets", "~", "~/A", "$HOME", "`A`", "-A", "tuf_tmp", "tuf_tmp1", "COM1", "A:", "file:A", "http://x/A", "\u202eA", "\ufeffA", "😀", long, long + "x", strings.Repeat("../", 20) + "A",
		longRole(70, "a"), longRole(70, "b"), longRole(150, "a"), longRole(150, "b"), longRole(230, "a"), longRole(230, "b"), strings.Repeat("d/", 50) + "a", strings.Repeat("d/", 50) + "b"}
}

func longRole(n int, tail string) string { return strings.Repeat("m", n-1) + tail }

func init() {
	for _, n := range []int{70, 150, 230} {
		tameRoles[longRole(n, "a")], tameRoles[longRole(n, "b")] = true, true
	}
	tameRoles[strings.Repeat("d/", 50)+"a"], tameRoles[strings.Repeat("d/", 50)+"b"] = true, true
}

func c14paths() []string {
	long := strings.Repeat("p", 300)
	return []string{"a", "b", "A", "d/a", "d/a/b", "d", "d/", "", "/", ".", "..", "./a", "../a", "../md/root.json", "../md/A.json", "d/../a", "d/..", "d/../../a", "/a", "//a", "/tmp/verif-escape", "d//a", "d/./a", "d\\a", "..\\a", "%61", "%2e%2e", "..%2fa", "%2E%2E%2Fa", "%", "%2", "a b", "a+b", "a%20b", "a%2Bb", "d%2Fa", "d%252Fa", "é", "e\u0301", "a\u0000", "\u0000", "\n", "a\n", "a.", "a ", " a", "...", "*", "?", "a?x=1", "a#f", "root.json", "md/root.json", "timestamp.json", "~/a", "$HOME/a", "-a", "a:", "file:a", "http://x/a", "\u202ea", "😀", long, long + "x", longRole(70, "a"), longRole(70, "b"), longRole(150, "a"), longRole(150, "b"), longRole(230, "a"), longRole(230, "b"), strings.Repeat("../", 20) + "a", strings.Repeat("d/", 100) + "a"}
}

// c14dirs are directory configurations, as templates over the scratch directory S; the working directory is S/cwd.
type c14cfg struct{ name, md, tg string }

func c14dirs() []c14cfg {
	r := []c14cfg{{"plain", "S/md", "S/tg"}, {"targets below metadata", "S/md", "S/md/tg"}, {"metadata below targets", "S/tg/md", "S/tg"}, {"relative", "md", "tg"}, {"relative with dots", "./md", "../tg"}, {"trailing slashes", "S/md//", "S/tg/"}, {"dots inside", "S/x/../md", "S/./tg"},
		{"working directory", ".", "../tg"}, {"symbolic links", "S/lmd", "S/ltg"}, {"common prefix", "S/d", "S/d2"}, {"deep", "S/p/q/r/md", "S/p/q/tg"}}
	for _, n := range []string{"m d", "m%20d", "m+d", "%2e%2e", "...", "m?d", "m#d", "é", "m\\d", "m:d", "m*d", "m&d", "-d", "%", "$HOME", "~"} {
		r = append(r, c14cfg{n, "S/" + n, "S/t" + n})
	}
	return r
}

func (k c14cfg) at(s string) (md, tg string) {
	f := func(p string) string {
		if strings.HasPrefix(p, "S/") {
			return s + p[1:]
		}
		return p
	}
	return f(k.md), f(k.tg)
}

type c14run struct {
	t        *T
	s        string // scratch
	md, tg   string // as configured
	rmd, rtg string // real places
	dest     string // destination given by the caller ("" none)
	before   map[string]string
	bad      []string
	calls    int
}

func under(dir, p string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

// newC14 prepares a scratch directory with surrounding files.
func newC14(t *T, k c14cfg) *c14run {
	r := &c14run{t: t, s: t.Dir()}
	cwd := filepath.Join(r.s, "cwd")
	must(os.MkdirAll(cwd, 0o755))
	must(os.Chdir(cwd))
	r.md, r.tg = k.at(r.s)
	if k.name == "symbolic links" {
		for _, l := range []string{"md", "tg"} {
			must(os.MkdirAll(filepath.Join(r.s, "real", l), 0o755))
			must(os.Symlink(filepath.Join(r.s, "real", l), filepath.Join(r.s, "l"+l)))
		}
	}
	if k.name == "dots inside" {
		must(os.MkdirAll(filepath.Join(r.s, "x"), 0o755))
	}
	must(os.MkdirAll(r.md, 0o755))
	must(os.MkdirAll(r.tg, 0o755))
	abs := func(p string) string {
		a, err := filepath.Abs(p)
		must(err)
		return a
	}
	r.rmd, r.rtg = abs(r.md), abs(r.tg)
	for _, d := range []string{r.s, cwd, filepath.Dir(r.rmd), filepath.Dir(r.rtg)} {
		if d == r.rmd || d == r.rtg {
			continue
		}
		for _, f := range []string{"root.json", "A.json", "a", "b", "A", "verif-escape"} {
			if fi, err := os.Lstat(filepath.Join(d, f)); err == nil && fi.IsDir() {
				continue
			}
			must(os.WriteFile(filepath.Join(d, f), []byte("surrounding"), 0o644))
		}
	}
	r.before = c14tree(r.s)
	return r
}

// c14tree lists everything below a directory, links not followed.
func c14tree(s string) map[string]string {
	m := map[string]string{}
	must(filepath.Walk(s, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		switch {
		case fi.IsDir():
			m[p] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[p] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			m[p] = "file " + string(b)
		}
		return nil
	}))
	return m
}

// inside tells whether a path is in one of the client's own directories.
func (r *c14run) inside(p string) bool {
	if r.dest != "" && p == r.dest {
		return true
	}
	return under(r.rmd, p) || under(r.rtg, p)
}

// watch runs f with every file-system call checked.
func (r *c14run) watch(what string, f func()) {
	setFS(func(c fsCall) syscall.Errno {
		if c.A == "" && c.B == "" {
			return 0
		}
		r.calls++
		for _, p := range []string{c.A, c.B} {
			if p == "" {
				continue
			}
			if c.Op == "open" && !c.mutates() && (under("/proc", p) || under("/sys", p) || under("/etc", p) || under("/usr", p) || p == "/dev/urandom" || p == "/dev/null") {
				continue // the runtime's own
			}
			if !r.inside(p) {
				r.bad = append(r.bad, c.Op+" "+p)
				return syscall.EACCES
			}
		}
		return 0
	})
	p := func() string { defer hookOff(); return guard(f) }()
	if p != "" {
		r.t.Fail("%s: %s", what, p)
	}
	if len(r.bad) > 0 {
		r.t.Fail("%s: outside the client's directories (%s, %s): %v", what, r.md, r.tg, r.bad)
	}
}

// around checks that nothing outside the directories changed, and no rubbish is left inside.
func (r *c14run) around(what string) {
	after := c14tree(r.s)
	for _, p := range sortedKeys(after) {
		if under(r.rmd, p) || under(r.rtg, p) || p == r.dest || strings.HasPrefix(p, filepath.Join(r.s, "real")+"/") {
			if strings.Contains(filepath.Base(p), "tuf_tmp") && !strings.HasSuffix(p, ".json") {
				r.t.Fail("%s leaves %s behind", what, p)
			}
			continue
		}
		if after[p] != r.before[p] {
			r.t.Fail("%s changed %s: %.60q, was %.60q", what, p, after[p], r.before[p])
		}
	}
	for p := range r.before {
		if _, there := after[p]; !there && !under(r.rmd, p) && !under(r.rtg, p) {
			r.t.Fail("%s removed %s", what, p)
		}
	}
	if _, err := os.Lstat("/tmp/verif-escape"); err == nil {
		_ = os.Remove("/tmp/verif-escape")
		_ = os.Remove("/tmp/verif-escape.json")
		r.t.Fail("%s made /tmp/verif-escape", what)
	}
}

type c14fetcher struct {
	md *netFetcher
	tg func(u string) ([]byte, bool)
}

func (f *c14fetcher) DownloadFile(u string, maxLength int64, timeout time.Duration) ([]byte, error) {
	if strings.HasPrefix(u, baseURL) {
		return f.md.DownloadFile(u, maxLength, timeout)
	}
	b, found := f.tg(u)
	if !found {
		return nil, metadata.ErrDownloadHTTP{StatusCode: 404, URL: u}
	}
	return b, nil
}

func (r *c14run) client(anchor *Doc, net Net, tgt func(u string) ([]byte, bool), prefix bool) *updater.Updater {
	c, err := config.New(baseURL, anchor.Bytes)
	must(err)
	c.LocalMetadataDir, c.LocalTargetsDir = r.md, r.tg
	c.PrefixTargetsWithHash = prefix
	f := &netFetcher{net: net, max: 200}
	c.Fetcher = &c14fetcher{md: f, tg: tgt}
	c.RemoteTargetsURL = "https://repo.example/targets/"
	up, err := updater.New(c)
	if err != nil {
		r.t.Fail("client over %q and %q: %v", r.md, r.tg, err)
	}
	return up
}

func runC14(c *Ctx) {
	if !hooked {
		panic(harnessError{"C14 needs the hooked build"})
	}
	roles := c14roles()
	paths := c14paths()
	plain := c14dirs()[0]
	for i := range roles {
		c.Case(func() string { return fmt.Sprintf("role %.40q with every other", roles[i]) }, func(t *T) {
			for j := range roles {
				if i == j {
					continue
				}
				c14roleCase(t, plain, true, []string{roles[i], roles[j]})
				if c.Thorough() {
					c14roleCase(t, plain, false, []string{roles[i], roles[j]})
				}
			}
		})
		c.Case(func() string { return fmt.Sprintf("role %.40q in every directory configuration", roles[i]) }, func(t *T) {
			for _, k := range c14dirs() {
				for _, cs := range []bool{true, false} {
					c14roleCase(t, k, cs, []string{roles[i]})
				}
			}
		})
	}
	for i := range paths {
		c.Case(func() string { return fmt.Sprintf("target %.40q with every other", paths[i]) }, func(t *T) {
			for j := range paths {
				if i != j {
					c14pathCase(t, plain, j%2 == 0, j%4 < 2, []string{paths[i], paths[j]})
					if c.Thorough() {
						for n := 1; n < 4; n++ {
							c14pathCase(t, plain, (j+n)%2 == 0, (j+n)%4 < 2, []string{paths[i], paths[j]})
						}
					}
				}
			}
		})
		c.Case(func() string { return fmt.Sprintf("target %.40q in every directory configuration", paths[i]) }, func(t *T) {
			for _, k := range c14dirs() {
				for n := 0; n < 4; n++ {
					c14pathCase(t, k, n&1 == 0, n&2 == 0, []string{paths[i]})
				}
			}
		})
		c.Case(func() string { return fmt.Sprintf("target %.40q at a given destination", paths[i]) }, func(t *T) {
			for _, n := range []string{"out", "out dir/f", "%41", "a+b", "..f", "é", "f?x", "root.json"} {
				c14destCase(t, paths[i], n)
			}
		})
	}
	// target information made by the caller can have any path
	c.Case(func() string { return "paths that are not UTF-8" }, func(t *T) { c14rawCase(t, plain) })
	// three roles over two levels
	var few []string
	for _, r := range roles {
		if len(r) < 12 && (strings.ContainsAny(r, "./%+ ") || tameRoles[r] || r == "root" || r == "targets") {
			few = append(few, r)
		}
	}
	if c.Thorough() {
		for i := range few {
			for j := range few {
				c.Case(func() string { return fmt.Sprintf("roles %q, %q and every third", few[i], few[j]) }, func(t *T) {
					for k := range few {
						if i != j && j != k && i != k {
							c14roleCase(t, plain, (i+j+k)%2 == 0, []string{few[i], few[j], few[k]})
						}
					}
				})
			}
		}
	}
}

func c14rawCase(t *T, k c14cfg) {
	defer c14home()()
	anchor := MkRoot(RootOpt{Ver: 1, Roles: map[string]RoleSpec{"root": {Ks("a"), 1}, "timestamp": {Ks("b"), 1}, "snapshot": {Ks("b"), 1}, "targets": {Ks("b"), 1}}})
	paths := append([]string{"\xff", "\xfe", "\ufffd", "a\xff", "a\xfe", "a\xff\xfe", "a\xfe\xff", "%ff", "%FF", "a%ff", "\xc3", "\xc3\xa9", "\xed\xa0\x80", "a\xc0\x80", "a\x00\xff"}, "a", "b", "a?", "?", "a\ufffd", "a\u0000")
	r := newC14(t, k)
	up := r.client(anchor, World{}.net, func(u string) ([]byte, bool) {
		p, _ := neturl.QueryUnescape(strings.TrimPrefix(u, "https://tgt.example/"))
		return []byte("content of " + p), true
	}, false)
	info := func(p string) *metadata.TargetFiles {
		b := []byte("content of " + p)
		sum := sha256.Sum256(b)
		return &metadata.TargetFiles{Length: int64(len(b)), Hashes: metadata.Hashes{"sha256": sum[:]}, Path: p}
	}
	stored := map[string]string{}
	r.watch("downloads of raw paths", func() {
		for _, p := range paths {
			f, _, err := up.DownloadTarget(info(p), "", "https://tgt.example/")
			t.Trans(1)
			t.State("raw" + p)
			if err != nil {
				continue
			}
			for _, q := range sortedKeys(stored) {
				if stored[q] == f {
					t.Fail("target paths %q and %q share the file %s", p, q, f)
				}
			}
			stored[p] = f
		}
		for _, p := range paths {
			f, b, err := up.FindCachedTarget(info(p), "")
			if _, is := stored[p]; is && (err != nil || f != stored[p] || string(b) != "content of "+p) {
				t.Fail("target path %q was stored as %s, later found: %q %q %v", p, stored[p], f, b, err)
			}
		}
	})
	if len(stored) < 10 {
		t.Fail("only %d of the paths could be stored", len(stored))
	}
	r.around("downloads of raw paths")
}

var topRole = map[string]bool{"root": true, "timestamp": true, "snapshot": true, "targets": true}

func c14roleCase(t *T, k c14cfg, cs bool, roles []string) {
	defer c14home()()
	t.Reset()
	t.State(fmt.Sprint(k.name, cs, roles))
	std := map[string]RoleSpec{"root": {Ks("a"), 1}, "timestamp": {Ks("b"), 1}, "snapshot": {Ks("b"), 1}, "targets": {Ks("b"), 1}}
	anchor := MkRoot(RootOpt{Ver: 1, Exp: expValid, CS: cs, Roles: std, Sigs: good(Ks("a"))})
	meta := map[string]Meta{"targets.json": {Ver: 1}}
	dl := &Deleg{}
	w := World{}
	put := func(ver int64, role string, d *Doc) {
		n := neturl.QueryEscape(role) + ".json"
		if cs && role != "timestamp" {
			n = fmt.Sprintf("%d.%s", ver, n)
		}
		w[n] = d
	}
	for i, r := range roles {
		ver := int64(i + 7)
		meta[r+".json"] = Meta{Ver: ver}
		if r == "targets" {
			meta[r+".json"] = Meta{Ver: 1}
		}
		dl.Roles = append(dl.Roles, DRole{Name: r, Keys: Ks("c"), Thr: 1, Paths: []string{"*"}})
		put(ver, r, MkTG(fmt.Sprint("role", i), ver, map[string]TF{fmt.Sprint("t", i): TFof(fmt.Sprint("content", i))}, nil, expValid, good(Ks("c"))))
	}
	tg := MkTG("top", 1, map[string]TF{"top": TFof("top")}, dl, expValid, good(Ks("b")))
	sn := MkSN(1, meta, expValid, good(Ks("b")))
	ts := MkTS(1, Meta{Ver: 1}, expValid, good(Ks("b")))
	put(1, "targets", tg)
	put(1, "snapshot", sn)
	put(1, "timestamp", ts)
	w["1.root.json"] = anchor
	r := newC14(t, k)
	found, tooLong := map[int]bool{}, false
	look := func(n int, up *updater.Updater) {
		for i := range roles {
			p := fmt.Sprint("t", i)
			ti, err := up.GetTargetInfo(p)
			t.Trans(1)
			t.Log("session %d, %s of role %.60q: %s", n, p, roles[i], refused(err))
			good := err == nil && ti != nil && ti.Hashes["sha256"].String() == sha256hex([]byte(fmt.Sprint("content", i)))
			if err == nil && !good {
				t.Fail("looking up %s gives the entry of another role: %+v", p, ti)
			}
			if tameRoles[roles[i]] && !good {
				tame := true
				for _, o := range roles[:i] {
					tame = tame && tameRoles[o]
				}
				if tame {
					t.Fail("%s of role %q is not found: %v", p, roles[i], err)
				}
			}
			if n == 2 && found[i] && !good {
				t.Fail("session 2 does not find %s of role %.60q in the cache: %v", p, roles[i], err)
			}
			tooLong = tooLong || errors.Is(err, syscall.ENAMETOOLONG)
			if good && (!tooLong || len(neturl.QueryEscape(roles[i])) < 250) { // a longer name may not be storable, it is then known to the running client only
				found[i] = true
			}
		}
	}
	r.watch("the first session", func() {
		up := r.client(anchor, w.net, nil, false)
		if err := up.Refresh(); err != nil {
			r.t.Fail("refresh: %v", err)
		}
		look(1, up)
	})
	t.Outcome(fmt.Sprint("found=", len(found)))
	r.around("the first session")
	// the cache holds the documents, one file per role
	want := map[string]*Doc{"root.json": anchor, "timestamp.json": ts, "snapshot.json": sn, "targets.json": tg}
	for n, d := range want {
		b, err := os.ReadFile(filepath.Join(r.rmd, n))
		if err != nil || string(b) != string(d.Bytes) {
			t.Fail("with roles %.60q, %s in the cache is not the verified one (%v): %.80s", roles, n, err, b)
		}
	}
	var left []string
	ents, err := os.ReadDir(r.rmd)
	must(err)
	for _, e := range ents {
		p := filepath.Join(r.rmd, e.Name())
		if !e.IsDir() && want[e.Name()] == nil && r.before[p] == "" {
			left = append(left, e.Name())
		}
	}
	sort.Strings(left)
	t.Log("files of delegated roles: %q", left)
	n := 0
	for i, role := range roles {
		if found[i] && !topRole[role] {
			n++
		}
	}
	if len(left) < n {
		t.Fail("%d delegated roles were loaded but only %d files are kept: %q", n, len(left), left)
	}
	r.watch("the second session", func() {
		off := World{}
		for p, d := range w {
			if d == ts || d == anchor || tooLong && len(p) > 250 {
				off[p] = d
			}
		}
		up := r.client(anchor, off.net, nil, false)
		if err := up.Refresh(); err != nil {
			t.Fail("second session: refresh from the cache: %v", err)
		}
		look(2, up)
	})
	r.around("the second session")
}

func c14pathCase(t *T, k c14cfg, cs, prefix bool, paths []string) {
	defer c14home()()
	t.Reset()
	t.State(fmt.Sprint(k.name, cs, prefix, paths))
	r, up, tis := c14targets(t, k, cs, prefix, paths)
	kept := map[string]int{}
	got := map[int]string{}
	r.watch("downloading", func() {
		for i, p := range paths {
			if tis[i] == nil {
				continue
			}
			f, data, err := up.DownloadTarget(tis[i], "", "")
			t.Trans(1)
			t.Log("target %.60q: %.80q %s", p, f, refused(err))
			t.Outcome(fmt.Sprint("downloaded=", err == nil))
			if err != nil {
				if len(p) == 1 && p[0] >= 'a' || p == "d/a" || p == "d/a/b" {
					t.Fail("target %q cannot be downloaded: %v", p, err)
				}
				continue
			}
			if string(data) != fmt.Sprint("content", i) {
				t.Fail("target %q delivered %q", p, data)
			}
			got[i] = f
		}
	})
	for i, f := range got {
		a, err := filepath.Abs(f)
		must(err)
		if !under(r.rtg, a) || a == r.rtg {
			t.Fail("target %.60q is said to be in %q, outside %q", paths[i], f, r.tg)
		}
		if j, twice := kept[a]; twice {
			t.Fail("targets %.60q and %.60q share the file %q", paths[i], paths[j], f)
		}
		kept[a] = i
		b, err := os.ReadFile(f)
		if err != nil || string(b) != fmt.Sprint("content", i) {
			t.Fail("the file %.80q of target %.60q holds %q (%v)", f, paths[i], b, err)
		}
	}
	r.around("downloading")
	r.watch("finding", func() {
		for i, f := range got {
			g, data, err := up.FindCachedTarget(tis[i], "")
			t.Trans(1)
			if err != nil || g != f || string(data) != fmt.Sprint("content", i) {
				t.Fail("target %.60q, stored in %.80q, is not found again: %.80q %q %v", paths[i], f, g, data, err)
			}
		}
	})
	r.around("finding")
}

func c14targets(t *T, k c14cfg, cs, prefix bool, paths []string) (*c14run, *updater.Updater, []*metadata.TargetFiles) {
	std := map[string]RoleSpec{"root": {Ks("a"), 1}, "timestamp": {Ks("b"), 1}, "snapshot": {Ks("b"), 1}, "targets": {Ks("b"), 1}}
	anchor := MkRoot(RootOpt{Ver: 1, Exp: expValid, CS: cs, Roles: std, Sigs: good(Ks("a"))})
	tfs := map[string]TF{}
	for i, p := range paths {
		tfs[p] = TFof(fmt.Sprint("content", i))
	}
	tg := MkTG("top", 1, tfs, nil, expValid, good(Ks("b")))
	pre := ""
	if cs {
		pre = "1."
	}
	w := World{pre + "targets.json": tg, pre + "snapshot.json": MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, expValid, good(Ks("b"))), "timestamp.json": MkTS(1, Meta{Ver: 1}, expValid, good(Ks("b")))}
	r := newC14(t, k)
	up := r.client(anchor, w.net, (&c14serve{paths: paths, cs: cs, prefix: prefix}).get, prefix)
	tis := make([]*metadata.TargetFiles, len(paths))
	r.watch("the session", func() {
		if err := up.Refresh(); err != nil {
			t.Fail("refresh: %v", err)
		}
		for i, p := range paths {
			ti, err := up.GetTargetInfo(p)
			if err != nil {
				t.Log("target %.60q: %v", p, err)
				continue
			}
			tis[i] = ti
		}
	})
	return r, up, tis
}

// c14serve serves the content of a target by its exact URL.
type c14serve struct {
	paths      []string
	cs, prefix bool
}

func (s *c14serve) get(u string) ([]byte, bool) {
	for i, p := range s.paths {
		c := fmt.Sprint("content", i)
		n := p
		if s.cs && s.prefix {
			j := strings.LastIndex(p, "/") + 1
			n = p[:j] + sha256hex([]byte(c)) + "." + p[j:]
		}
		if u == "https://repo.example/targets/"+n {
			return []byte(c), true
		}
	}
	return nil, false
}

func c14destCase(t *T, path, dest string) {
	defer c14home()()
	t.Reset()
	t.State(fmt.Sprint("dest", path, dest))
	r, up, tis := c14targets(t, c14dirs()[0], true, false, []string{path})
	if tis[0] == nil {
		return
	}
	d := filepath.Join(r.s, "dest", dest)
	r.watch("no destination yet", func() {})
	must(os.MkdirAll(filepath.Dir(d), 0o755))
	r.before = c14tree(r.s)
	r.dest = d
	r.watch("downloading", func() {
		f, data, err := up.DownloadTarget(tis[0], d, "")
		t.Trans(1)
		if err != nil || f != d || string(data) != "content0" {
			t.Fail("target %.60q to %q: %q %q %v", path, d, f, data, err)
		}
		f, data, err = up.FindCachedTarget(tis[0], d)
		if err != nil || f != d || string(data) != "content0" {
			t.Fail("target %.60q at %q is not found: %q %q %v", path, d, f, data, err)
		}
	})
	b, err := os.ReadFile(d)
	if err != nil || string(b) != "content0" {
		t.Fail("target %.60q at %q: %q %v", path, d, b, err)
	}
	ents, err := os.ReadDir(r.rtg)
	must(err)
	if len(ents) != 0 {
		t.Fail("target %.60q given a destination also wrote %v", path, ents)
	}
	r.around("downloading to a destination")
	// a directory where the destination is said to be: nothing in it or around it is taken for the target
	must(os.Remove(d))
	must(os.MkdirAll(d, 0o755))
	for _, p := range []string{filepath.Join(d, path), filepath.Join(d, filepath.Base(path)), filepath.Join(d, neturl.QueryEscape(path)), filepath.Join(filepath.Dir(d), filepath.Base(path))} {
		if !under(r.s, p) {
			continue
		}
		if os.MkdirAll(filepath.Dir(p), 0o755) == nil {
			_ = os.WriteFile(p, []byte("content0"), 0o644)
		}
	}
	r.before = c14tree(r.s)
	r.watch("looking at a directory", func() {
		f, data, err := up.FindCachedTarget(tis[0], d)
		t.Trans(1)
		if f != "" || len(data) > 0 || err != nil {
			t.Fail("target %.60q is found at the directory %q: %q %q %v", path, d, f, data, err)
		}
		if f, _, err := up.DownloadTarget(tis[0], d, ""); err == nil {
			t.Fail("target %.60q is stored at the directory %q: %q", path, d, f)
		}
	})
	r.around("a directory as destination")
}

// c14home brings the process back to where it was.
func c14home() func() {
	wd, err := os.Getwd()
	must(err)
	return func() { must(os.Chdir(wd)) }
}
