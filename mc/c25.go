package main

import (
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C25", Run: runC25, QuickSec: 150, Setup: setupC25,
		Rule:        "breadth-first search over the states of the tool's working directory (initialised or not, trust anchor, cached metadata, downloaded files, half-removed directories), every edge one run of the built tuf-client: init (trust on first use or from a file given by relative, nested, absolute or parent path; every kind of root and of server answer), get (12 repository states, an attacker's repository, four ways to serve the target, hash-prefixed or not, separate target URL), reset (forced, or every answer); after every run the whole tree around the working directory is compared with a model of the tool",
		Assumptions: []string{"the tool runs as an unprivileged user in a scratch directory", "one delegated role; the delegation and trust rules themselves are C02 to C12"}})
}

func setupC25(dir string) error {
	repo := os.Getenv("MC_REPO")
	if repo == "" {
		repo = "/repo"
	}
	cmd := exec.Command("go", "build", "-mod=readonly", "-o", filepath.Join(dir, "tuf-client"), "./examples/cli/tuf-client")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building tuf-client: %v\n%s", err, out)
	}
	// the unprivileged user must be able to run things
	c := exec.Command(filepath.Join(dir, "tuf-client"), "help")
	c.Dir = dir
	c.SysProcAttr = nobody()
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("running tuf-client as an unprivileged user: %v\n%s", err, out)
	}
	return nil
}

const nobodyID = 65534

func nobody() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobodyID, Gid: nobodyID}, Setpgid: true}
}

// toolState is the part of the tree the tool works on.
type toolState struct {
	md, dl bool
	cache  MCache // tuf_metadata, root.json included
	got    map[string]string
	depth  int
	hist   []string
}

func (s *toolState) key() string {
	var g []string
	for _, k := range sortedKeys(s.got) {
		g = append(g, k+"="+s.got[k])
	}
	return fmt.Sprint(s.md, s.dl, s.cache.key(), g)
}

func (s *toolState) clone() *toolState {
	n := &toolState{md: s.md, dl: s.dl, cache: s.cache.clone(), got: map[string]string{}, depth: s.depth, hist: s.hist}
	for k, v := range s.got {
		n.got[k] = v
	}
	return n
}

// toolCmd is one run of the tool.
type toolCmd struct {
	name   string
	kind   string // init get reset damage
	world  string
	root   *Doc   // init: what 1.root.json or the file is (nil: nothing there)
	status int    // init: HTTP status with it
	file   string // init -f
	path   string // get
	mode   string // get: how the target is served
	plain  bool   // --nonprefixed
	turl   bool
	args   []string // reset
	stdin  string
	bad    string // damage: content put into the downloaded file
}

type toolU struct {
	u       *universe
	worlds  map[string]World
	content map[string]string // hash of a target -> content
	files   map[string][]byte // static files around, relative to the scratch
	dirs    []string
	cmds    []toolCmd
	roots   map[string]*Doc
}

func dlName(p string) string { return escaped(p) }

// served is what the server has at the URL of the target.
func (tu *toolU) served(mode, hash string) []byte {
	c := []byte(tu.content[hash])
	switch mode {
	case "good":
		return c
	case "same length":
		d := append([]byte{}, c...)
		d[len(d)-1] ^= 1
		return d
	case "longer":
		return append(c, 'x')
	case "shorter":
		return c[:len(c)-1]
	}
	return nil
}

// step is the model of the tool. must: success is certain or failure is (0 fail, 1 succeed, 2 either).
func (tu *toolU) step(s *toolState, c toolCmd, now time.Time) (n *toolState, want int) {
	n = s.clone()
	n.depth++
	n.hist = append(append([]string{}, s.hist...), c.name)
	switch c.kind {
	case "damage":
		n.got[dlName(c.path)] = c.bad
		return n, 1
	case "init":
		okRoot := false
		if c.root != nil {
			_, v := NewMSet(c.root, now)
			okRoot = v == ok
		}
		if !okRoot {
			return n, 0
		}
		if c.status != 200 && c.file == "" {
			want = 2
		} else {
			want = 1
		}
		if s.md || s.dl {
			return n, 2
		}
		n.md, n.dl = true, true
		n.cache = MCache{"root.json": c.root}
		return n, want
	case "reset":
		a := strings.Fields(c.stdin)
		force := len(c.args) > 0
		ask := func() int {
			for len(a) > 0 {
				x := strings.ToLower(a[0])
				a = a[1:]
				switch x {
				case "y", "yes":
					return 1
				case "n", "no":
					return 0
				}
			}
			return -1
		}
		for _, d := range []string{"md", "dl"} {
			x := 1
			if !force {
				x = ask()
			}
			if x < 0 {
				return n, 0
			}
			if x == 1 && d == "md" {
				n.md, n.cache = false, MCache{}
			}
			if x == 1 && d == "dl" {
				n.dl, n.got = false, map[string]string{}
			}
		}
		return n, 1
	}
	// get
	if !s.md || !s.dl || s.cache["root.json"] == nil {
		return n, 0
	}
	m, v := newMClient(s.cache["root.json"], s.cache, defCfg(), tu.worlds[c.world].net, now)
	if v != ok {
		return n, 0
	}
	good := m.Refresh()
	var tf TF
	if good {
		tf, _, good = m.Lookup(c.path)
	}
	n.cache = m.Cache
	if !good {
		return n, 0
	}
	if g, has := s.got[dlName(c.path)]; has && sha256hex([]byte(g)) == tf.Hash {
		return n, 1
	}
	if c.mode != "good" {
		return n, 0
	}
	n.got[dlName(c.path)] = tu.content[tf.Hash]
	return n, 1
}

// tree reads everything under dir: path -> content ("/" for a directory, "->x" for a link).
func tree(dir string) map[string]string {
	r := map[string]string{}
	must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case d.IsDir():
			r[rel] = "/"
		case d.Type()&fs.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			r[rel] = "->" + l
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			r[rel] = string(b)
		}
		return nil
	}))
	return r
}

func treeDiff(a, b map[string]string) string {
	var s []string
	for _, k := range sortedKeys(a) {
		if v, has := b[k]; !has {
			s = append(s, "removed "+k)
		} else if v != a[k] {
			s = append(s, "changed "+k)
		}
	}
	for _, k := range sortedKeys(b) {
		if _, has := a[k]; !has {
			s = append(s, "created "+k)
		}
	}
	return strings.Join(s, ", ")
}

func own(p string) { must(os.Lchown(p, nobodyID, nobodyID)) }

func putFile(p string, b []byte) {
	must(os.WriteFile(p, b, 0o644))
	own(p)
}

func putDir(p string) {
	must(os.MkdirAll(p, 0o755))
	own(p)
}

const (
	toolMD = "work/tuf_metadata"
	toolDL = "work/tuf_download"
)

// lay writes the state's two directories.
func (s *toolState) lay(base string) {
	md, dl := filepath.Join(base, toolMD), filepath.Join(base, toolDL)
	must(os.RemoveAll(md))
	must(os.RemoveAll(dl))
	if s.md {
		putDir(md)
		for k, d := range s.cache {
			putFile(filepath.Join(md, k), d.Bytes)
		}
	}
	if s.dl {
		putDir(dl)
		for k, v := range s.got {
			putFile(filepath.Join(dl, k), []byte(v))
		}
	}
}

// split takes the tool's two directories out of a tree.
func split(t map[string]string) (rest, md, dl map[string]string) {
	rest, md, dl = map[string]string{}, map[string]string{}, map[string]string{}
	for k, v := range t {
		switch {
		case k == toolMD || strings.HasPrefix(k, toolMD+"/"):
			md[strings.TrimPrefix(strings.TrimPrefix(k, toolMD), "/")] = v
		case k == toolDL || strings.HasPrefix(k, toolDL+"/"):
			dl[strings.TrimPrefix(strings.TrimPrefix(k, toolDL), "/")] = v
		default:
			rest[k] = v
		}
	}
	return
}

func (tu *toolU) argv(c toolCmd, url, base string) []string {
	u := url + "/" + c.world
	switch c.kind {
	case "init":
		a := []string{"init", "-u", u}
		if c.file != "" {
			a = append(a, "-f", strings.ReplaceAll(c.file, "$BASE", base))
		}
		return a
	case "get":
		a := []string{"get", "--url", u}
		if c.turl {
			a = append(a, "--turl", url+"/targets")
		}
		if c.plain {
			a = append(a, "--nonprefixed")
		}
		return append(a, c.path)
	}
	return append([]string{"reset"}, c.args...)
}

// serve answers the requests of one command.
func (tu *toolU) serve(c toolCmd, plain string) func(string) (int, []byte) {
	return func(p string) (int, []byte) {
		pre := "/" + c.world + "/"
		if strings.HasPrefix(p, pre) {
			f := strings.TrimPrefix(p, pre)
			if c.kind == "init" {
				if f == "1.root.json" && c.root != nil {
					return c.status, c.root.Bytes
				}
				return 404, []byte("not found")
			}
			if d := tu.worlds[c.world][f]; d != nil {
				return 200, d.Bytes
			}
			if !c.turl {
				return tu.target(c, f, plain)
			}
		}
		if c.turl && strings.HasPrefix(p, "/targets/") {
			return tu.target(c, strings.TrimPrefix(p, "/targets/"), plain)
		}
		return 404, []byte("not found")
	}
}

func (tu *toolU) target(c toolCmd, f, plain string) (int, []byte) {
	if c.kind != "get" {
		return 404, []byte("not found")
	}
	for h := range tu.content {
		name := c.path
		if !c.plain {
			dir, b := filepath.Split(c.path)
			name = dir + h + "." + b
		} else if h != plain {
			continue
		}
		if name == f {
			if b := tu.served(c.mode, h); b != nil {
				return 200, b
			}
			return 404, []byte("not found")
		}
	}
	return 404, []byte("not found")
}

// provides is the hash of what a client in state s finds in the world.
func (tu *toolU) provides(s *toolState, c toolCmd, now time.Time) string {
	if c.kind != "get" || s.cache["root.json"] == nil {
		return ""
	}
	m, v := newMClient(s.cache["root.json"], s.cache, defCfg(), tu.worlds[c.world].net, now)
	if v == ok && m.Refresh() {
		if tf, _, found := m.Lookup(c.path); found {
			return tf.Hash
		}
	}
	return ""
}

func newToolU(c *Ctx) *toolU {
	regOn = true
	u := stdUniverse(true, c.Seed%2 == 0)
	tu := &toolU{u: u, worlds: map[string]World{}, content: map[string]string{}, files: map[string][]byte{}, roots: map[string]*Doc{}}
	for k, w := range u.worlds {
		tu.worlds[strings.ReplaceAll(k, " ", "_")] = w
	}
	for _, s := range []string{"t1", "t2", "t3", "t2x", "a1", "a2", "no", "b1", "evil"} {
		tu.content[sha256hex([]byte(s))] = s
	}
	// the attacker's own repository
	ek := Ks("evil")
	sg := good(ek)
	er := map[string]RoleSpec{"root": {ek, 1}, "timestamp": {ek, 1}, "snapshot": {ek, 1}, "targets": {ek, 1}}
	eroot := MkRoot(RootOpt{Ver: 1, Roles: er, CS: true, Name: "evil root"})
	eroot2 := MkRoot(RootOpt{Ver: 2, Roles: er, CS: true, Name: "evil root 2"})
	etg := MkTG("evil targets", 50, map[string]TF{"t": TFof("evil"), "d/a": TFof("evil")}, nil, expValid, sg)
	esn := MkSN(50, map[string]Meta{"targets.json": metaOf(etg, true, true)}, expValid, sg)
	ets := MkTS(50, metaOf(esn, true, true), expValid, sg)
	ew := World{}
	for _, d := range []*Doc{eroot, eroot2} {
		ew.put(true, "root", d)
	}
	ew.put(true, "timestamp", ets).put(true, "snapshot", esn).put(true, "targets", etg)
	tu.worlds["evil"] = ew
	mixed := tu.worlds["S3"].clone()
	mixed["timestamp.json"], mixed["50.snapshot.json"], mixed["50.targets.json"] = ets, esn, etg
	tu.worlds["evil-metadata-honest-root"] = mixed
	// roots
	root1 := u.anchor
	var root2, root3 *Doc
	for _, wn := range sortedKeys(tu.worlds) {
		for _, p := range sortedKeys(tu.worlds[wn]) {
			d := tu.worlds[wn][p]
			if d.Kind == "root" && d.SigID != eroot2.SigID && d.Exp.After(time.Now()) {
				if p == "2.root.json" && root2 == nil {
					root2 = d
				}
				if p == "3.root.json" && root3 == nil {
					root3 = d
				}
			}
		}
	}
	tu.roots = map[string]*Doc{"root1": root1, "root2": root2, "root3": root3, "evil": eroot}
	r1 := stdRoles(Ks("a"), 1)
	two := stdRoles(Ks("a b"), 2)
	tu.roots["unsigned"] = MkRoot(RootOpt{Ver: 1, Roles: r1, CS: true, Sigs: []SigOpt{}, Name: "unsigned root"})
	tu.roots["wrong signer"] = MkRoot(RootOpt{Ver: 1, Roles: r1, CS: true, Sigs: good(Ks("c")), Name: "root signed by another key"})
	tu.roots["corrupt"] = MkRoot(RootOpt{Ver: 1, Roles: r1, CS: true, Sigs: []SigOpt{{Key: K("a"), Corrupt: true}}, Name: "root with a corrupt signature"})
	tu.roots["half signed"] = MkRoot(RootOpt{Ver: 1, Roles: two, CS: true, Sigs: good(Ks("a")), Name: "root with one of two signatures"})
	tu.roots["expired"] = MkRoot(RootOpt{Ver: 1, Roles: r1, CS: true, Exp: expExpired, Name: "expired root"})
	tu.roots["cut"] = truncated(root1)
	tu.roots["empty"] = Junk("empty", nil)
	tu.roots["html"] = Junk("html", []byte("<html>not found</html>"))
	tu.roots["timestamp"] = tu.worlds["S1"]["timestamp.json"]
	// files around
	for n, d := range map[string]string{"work/root1.json": "root1", "work/r/root.json": "root1", "work/root.json": "root2", "out/root1.json": "root1", "work/a b.json": "root3",
		"work/unsigned.json": "unsigned", "work/other.json": "wrong signer", "work/half.json": "half signed", "work/corrupt.json": "corrupt", "work/cut.json": "cut", "work/empty.json": "empty", "work/ts.json": "timestamp", "work/expired.json": "expired"} {
		if tu.roots[d] == nil {
			panic(harnessError{"no root " + d})
		}
		tu.files[n] = tu.roots[d].Bytes
	}
	for _, n := range []string{"work/keep.txt", "work/tuf_metadata_old/keep", "work/tuf_downloads/keep", "work/tuf/keep", "out/keep", "keep", "tuf_metadata/keep", "tuf_download/keep", "out/tuf_metadata/root.json"} {
		tu.files[n] = []byte("keep " + n)
	}
	init := func(name, root string, status int) {
		tu.cmds = append(tu.cmds, toolCmd{name: "init, server: " + name, kind: "init", world: "S1", root: tu.roots[root], status: status})
	}
	for _, r := range []string{"root1", "evil", "unsigned", "wrong signer", "corrupt", "half signed", "expired", "cut", "empty", "html", "timestamp"} {
		init(r, r, 200)
	}
	init("missing", "", 404)
	init("html with status 404", "html", 404)
	init("root1 with status 500", "root1", 500)
	file := func(arg, f string) {
		d := tu.roots[f]
		tu.cmds = append(tu.cmds, toolCmd{name: "init -f " + arg, kind: "init", world: "S1", root: d, status: 404, file: arg})
	}
	for _, x := range [][2]string{{"root1.json", "root1"}, {"./root1.json", "root1"}, {"r/root.json", "root1"}, {"root.json", "root2"}, {"../out/root1.json", "root1"}, {"$BASE/out/root1.json", "root1"}, {"a b.json", "root3"},
		{"unsigned.json", "unsigned"}, {"other.json", "wrong signer"}, {"half.json", "half signed"}, {"corrupt.json", "corrupt"}, {"cut.json", "cut"}, {"empty.json", "empty"}, {"ts.json", "timestamp"}, {"expired.json", "expired"}, {"missing.json", ""}, {"r", ""}} {
		file(x[0], x[1])
	}
	names := []string{}
	for k := range tu.worlds {
		names = append(names, k)
	}
	sort.Strings(names)
	modes := []string{"good", "same length", "longer", "shorter", "missing"}
	for _, w := range names {
		for _, p := range []string{"t", "d/a", "none"} {
			for _, m := range modes {
				if p == "none" && m != "good" {
					continue
				}
				for v := 0; v < 3; v++ {
					if v > 0 && (m != "good" && m != "same length" || !c.Thorough() && w != "S1" && w != "S3") {
						continue
					}
					g := toolCmd{kind: "get", world: w, path: p, mode: m, plain: v == 1, turl: v == 2}
					g.name = fmt.Sprintf("get %s from %s, target %s, %s", p, w, m, []string{"hash-prefixed", "nonprefixed", "other target URL"}[v])
					tu.cmds = append(tu.cmds, g)
				}
			}
		}
	}
	for _, a := range []string{"y\ny\n", "y\nn\n", "n\ny\n", "n\nn\n", "", "y\n", "what\nYES\nhm\nno\n", "n\n"} {
		tu.cmds = append(tu.cmds, toolCmd{name: fmt.Sprintf("reset answered %q", a), kind: "reset", stdin: a})
	}
	for _, a := range []string{"-f", "--force"} {
		tu.cmds = append(tu.cmds, toolCmd{name: "reset " + a, kind: "reset", args: []string{a}})
	}
	return tu
}

func runC25(c *Ctx) {
	now := time.Now()
	tu := newToolU(c)
	h := newHTTP(c)
	tool := filepath.Join(os.Getenv("MC_SETUP"), "tuf-client")
	damages := []toolCmd{{name: "the file t is damaged", kind: "damage", path: "t", bad: "zz"}, {name: "the file t is emptied", kind: "damage", path: "t", bad: ""}}
	// every state the model reaches
	depth := Pick(c, 3, 4)
	start := &toolState{cache: MCache{}, got: map[string]string{}}
	seen := map[string]bool{start.key(): true}
	queue := []*toolState{start}
	var states []*toolState
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		states = append(states, s)
		if s.depth >= depth {
			continue
		}
		cmds := tu.cmds
		if len(s.got) > 0 {
			cmds = append(append([]toolCmd{}, cmds...), damages...)
		}
		for _, cmd := range cmds {
			n, _ := tu.step(s, cmd, now)
			if k := n.key(); !seen[k] {
				seen[k] = true
				queue = append(queue, n)
			}
		}
	}
	for _, s := range states {
		if c.Expired() {
			return
		}
		s := s
		c.Case(func() string { return "after " + strings.Join(s.hist, "; ") }, func(t *T) {
			base := t.Dir()
			putDir(filepath.Join(base, "work"))
			for n, b := range tu.files {
				d := filepath.Join(base, filepath.Dir(n))
				for d != base {
					putDir(d)
					d = filepath.Dir(d)
				}
				putFile(filepath.Join(base, n), b)
			}
			own(base)
			for _, cmd := range tu.cmds {
				if c.Expired() {
					return
				}
				tu.run(t, c, h, tool, base, s, cmd, now)
			}
		})
	}
}

func (tu *toolU) run(t *T, c *Ctx, h *httpd, tool, base string, s *toolState, cmd toolCmd, now time.Time) {
	t.Reset()
	for _, x := range s.hist {
		t.Log("%s", x)
	}
	s.lay(base)
	before := tree(base)
	want, expect := tu.step(s, cmd, now)
	h.set(tu.serve(cmd, tu.provides(s, cmd, now)))
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	argv := tu.argv(cmd, h.url, base)
	x := exec.CommandContext(ctx, tool, argv...)
	x.Dir = filepath.Join(base, "work")
	x.SysProcAttr = nobody()
	x.Env = []string{"HOME=" + base, "PATH=/nonexistent", "GOMAXPROCS=2"}
	x.Stdin = strings.NewReader(cmd.stdin)
	var out bytes.Buffer
	x.Stdout, x.Stderr = &out, &out
	err := x.Run()
	t.Trans(1)
	t.State(want.key())
	ok := err == nil
	if _, exited := err.(*exec.ExitError); err != nil && !exited || ctx.Err() != nil {
		panic(harnessError{fmt.Sprintf("running %v: %v", argv, err)})
	}
	t.Log("%s: tuf-client %s", cmd.name, strings.ReplaceAll(strings.Join(argv, " "), base, "$BASE"))
	bad := func(f string, a ...any) {
		t.Fail("%s (exit status ok=%v)\noutput:\n%s", fmt.Sprintf(f, a...), ok, tailStr(out.String(), 1500))
	}
	if strings.Contains(out.String(), "goroutine 1 [") {
		bad("the tool crashed")
	}
	after := tree(base)
	bRest, bMD, bDL := split(before)
	aRest, aMD, aDL := split(after)
	if d := treeDiff(bRest, aRest); d != "" {
		bad("the tool changed files outside its two directories: %s", d)
	}
	if cmd.kind == "init" && !s.md && !s.dl && tu.knownInit(t, cmd, ok, expect, aMD, aDL) {
		return
	}
	if expect == 0 && ok {
		bad("the tool reports success, the model fails")
	}
	if expect == 1 && !ok {
		bad("the tool reports failure, the model succeeds")
	}
	t.Outcome(fmt.Sprintf("%s ok=%v", cmd.kind, ok))
	rootOf := func(m map[string]string) string {
		if r, has := m["root.json"]; has {
			return r
		}
		return "none"
	}
	switch cmd.kind {
	case "init":
		if d := treeDiff(bDL, aDL); d != "" && !(len(bDL) == 0 && len(aDL) == 1) {
			bad("init changed downloads: %s", d)
		}
		if ok {
			if rootOf(aMD) != string(cmd.root.Bytes) {
				bad("init succeeded and the trust anchor is not the given root")
			}
			return
		}
		if rootOf(aMD) != rootOf(bMD) {
			bad("init failed and changed the trust anchor")
		}
		for k := range aMD {
			if _, has := bMD[k]; !has && k != "" {
				bad("init failed and left %s in the metadata directory", k)
			}
		}
	case "reset":
		if want.md != (len(aMD) > 0) || want.dl != (len(aDL) > 0) {
			bad("reset: metadata directory present %v want %v, downloads present %v want %v", len(aMD) > 0, want.md, len(aDL) > 0, want.dl)
		}
		if want.md {
			if d := treeDiff(bMD, aMD); d != "" {
				bad("reset changed the metadata directory it was to keep: %s", d)
			}
		}
		if want.dl {
			if d := treeDiff(bDL, aDL); d != "" {
				bad("reset changed the downloads it was to keep: %s", d)
			}
		}
	case "get":
		for k, v := range aDL {
			if v == "/" {
				if k != "" {
					bad("get made directory %s in the downloads", k)
				}
				continue
			}
			if b, has := bDL[k]; has && b == v && want.got[k] != v {
				// a failed get need not remove what was there
				if ok {
					bad("get succeeded with %s not matching the metadata", k)
				}
				continue
			}
			if w, has := want.got[k]; !has || w != v {
				bad("get left %s with content %q, the verified metadata say %q", k, v, w)
			}
		}
		for k := range bDL {
			if _, has := aDL[k]; !has {
				bad("get removed %s", k)
			}
		}
		if ok {
			if v, has := aDL[dlName(cmd.path)]; !has || v != want.got[dlName(cmd.path)] {
				bad("get succeeded without the target in place")
			}
		}
		w := "none"
		if d := want.cache["root.json"]; d != nil {
			w = string(d.Bytes)
		}
		if rootOf(aMD) != w {
			bad("after get the trust anchor is not the one the metadata lead to")
		}
	}
}

// knownInit recognises the two ways in which init is known to go wrong, in a directory without earlier state:
// it keeps what it downloaded although it refuses it, and it saves a given file under the path it was given by.
func (tu *toolU) knownInit(t *T, cmd toolCmd, ok bool, expect int, md, dl map[string]string) bool {
	if len(dl) != 1 || dl[""] != "/" || md[""] != "/" {
		return false
	}
	if cmd.file == "" {
		served := "not found"
		if cmd.root != nil {
			served = string(cmd.root.Bytes)
		}
		if _, has := md["root.json"]; !has || ok || expect != 0 || len(md) != 2 || md["root.json"] != served {
			return false
		}
		t.Finding("failed-init-keeps-root", "init refused what it downloaded as 1.root.json (%s) and left it as root.json in the metadata directory", cmd.name)
		return true
	}
	if expect != 1 || filepath.Clean(cmd.file) == "root.json" {
		return false
	}
	if filepath.Dir(cmd.file) == "." {
		n := filepath.Clean(cmd.file)
		if !ok || len(md) != 2 || md[n] != string(cmd.root.Bytes) {
			return false
		}
	} else if ok || len(md) != 1 {
		return false
	}
	t.Finding("init-file-path", "%s: a valid root file was not saved as root.json but under the path it was given by (succeeded: %v)", cmd.name, ok)
	return true
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
