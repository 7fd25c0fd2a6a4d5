package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	neturl "net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

// ---- what the network answers ----

// Reply is the answer to one request: a document, raw bytes or an error.
type Reply struct {
	Doc *Doc
	Err string // "" or 404 403 500 302 net download
}

func (r Reply) String() string {
	if r.Err != "" {
		return r.Err
	}
	return r.Doc.Name
}

// Net answers the n-th request of a session. It must be a pure function.
type Net func(n int, path string) Reply

// World is an honest server: path to document.
type World map[string]*Doc

func (w World) net(n int, path string) Reply {
	if d := w[path]; d != nil {
		return Reply{Doc: d}
	}
	return Reply{Err: "404"}
}

const baseURL = "https://repo.example/md/"

func netErr(kind, url string) error {
	if n, err := strconv.Atoi(kind); err == nil {
		return metadata.ErrDownloadHTTP{StatusCode: n, URL: url}
	}
	if strings.HasPrefix(kind, "wrapped") {
		n, err := strconv.Atoi(kind[7:])
		must(err)
		return fmt.Errorf("wrapped: %w", metadata.ErrDownloadHTTP{StatusCode: n, URL: url})
	}
	switch kind {
	case "download":
		return metadata.ErrDownload{Msg: "injected"}
	case "toolong":
		return metadata.ErrDownloadLengthMismatch{Msg: "injected"}
	case "eof":
		return io.ErrUnexpectedEOF
	case "deadline":
		return &neturl.Error{Op: "Get", URL: url, Err: context.DeadlineExceeded}
	}
	return errors.New("injected network error")
}

// Req is one request as the fetcher sees it.
type Req struct {
	Path  string
	Limit int64
}

func (r Req) String() string { return fmt.Sprintf("%s<=%d", r.Path, r.Limit) }

// netFetcher is the real side's Fetcher.
type netFetcher struct {
	mu    sync.Mutex
	net   Net
	reqs  []Req
	tick  func()
	yield func(what string)
	max   int // fail the case when more requests than that are made
}

func (f *netFetcher) DownloadFile(u string, maxLength int64, timeout time.Duration) ([]byte, error) {
	if f.yield != nil {
		f.yield("GET " + u)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.tick != nil {
		f.tick()
	}
	if timeout <= 0 {
		panic(failure{msg: "download without a timeout: " + u})
	}
	p := strings.TrimPrefix(u, baseURL)
	n := len(f.reqs)
	f.reqs = append(f.reqs, Req{p, maxLength})
	if f.max > 0 && n > f.max {
		panic(failure{msg: fmt.Sprintf("more than %d requests: %v", f.max, f.reqs)})
	}
	r := f.net(n, p)
	if r.Err != "" {
		return nil, netErr(r.Err, u)
	}
	if int64(len(r.Doc.Bytes)) > maxLength {
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "injected"}
	}
	return append([]byte{}, r.Doc.Bytes...), nil
}

// ---- configuration ----

type SCfg struct {
	MaxRoots                     int64
	MaxDeleg                     int
	RootMax, TSMax, SNMax, TGMax int64
	NoCache, Unsafe              bool
}

func defCfg() SCfg {
	return SCfg{MaxRoots: 32, MaxDeleg: 32, RootMax: 512000, TSMax: 16384, SNMax: 2000000, TGMax: 5000000}
}

// ---- the model of a client session ----

// MCache is the content of the local metadata directory.
type MCache map[string]*Doc

func (c MCache) clone() MCache {
	n := MCache{}
	for k, v := range c {
		n[k] = v
	}
	return n
}

func (c MCache) String() string {
	var s []string
	for _, k := range sortedKeys(c) {
		s = append(s, k+"="+c[k].Name)
	}
	return "{" + strings.Join(s, " ") + "}"
}

// key identifies the content exactly.
func (c MCache) key() string {
	var s []string
	for _, k := range sortedKeys(c) {
		s = append(s, k+"="+sha256hex(c[k].Bytes)[:16])
	}
	return strings.Join(s, " ")
}

func fileOf(role string) string { return neturl.QueryEscape(role) + ".json" }

// MClient is the reference client.
type MClient struct {
	Set   *MSet
	Cache MCache
	Cfg   SCfg
	Net   Net
	Reqs  []Req
	Why   string // why the last call failed
}

func newMClient(anchor *Doc, cache MCache, cfg SCfg, net Net, now time.Time) (*MClient, V) {
	s, v := NewMSet(anchor, now)
	if v != ok {
		return nil, v
	}
	m := &MClient{Set: s, Cache: cache.clone(), Cfg: cfg, Net: net}
	m.store("root", anchor)
	return m, ok
}

func (m *MClient) store(role string, d *Doc) {
	if !m.Cfg.NoCache {
		m.Cache[fileOf(role)] = d
	}
}

// fetch returns nil and the error kind when the download fails.
func (m *MClient) fetch(path string, limit int64) (*Doc, string) {
	if m.Cfg.Unsafe {
		return nil, "unsafe"
	}
	n := len(m.Reqs)
	m.Reqs = append(m.Reqs, Req{path, limit})
	r := m.Net(n, path)
	if r.Err != "" {
		return nil, r.Err
	}
	if int64(len(r.Doc.Bytes)) > limit {
		return nil, "length"
	}
	return r.Doc, ""
}

func (m *MClient) no(format string, a ...any) bool {
	m.Why = fmt.Sprintf(format, a...)
	return false
}

// missing tells whether an error says that the server has no such file.
func missing(e string) bool {
	e = strings.TrimPrefix(e, "wrapped")
	return e == "404" || e == "403"
}

func (m *MClient) Refresh() bool {
	if m.Cfg.Unsafe {
		return m.unsafeRefresh()
	}
	// root
	for v, end := m.Set.Root.Ver+1, m.Set.Root.Ver+m.Cfg.MaxRoots; v <= end; v++ {
		d, e := m.fetch(fmt.Sprintf("%d.root.json", v), m.Cfg.RootMax)
		if missing(e) {
			break
		}
		if e != "" {
			return m.no("root %d: %s", v, e)
		}
		if x := m.Set.UpdateRoot(d); x != ok {
			return m.no("root %d: %s", v, x)
		}
		m.store("root", d)
	}
	// timestamp
	if d := m.Cache["timestamp.json"]; d != nil {
		if x := m.Set.UpdateTimestamp(d); x == vOrder {
			return m.no("local timestamp: order")
		}
	}
	d, e := m.fetch("timestamp.json", m.Cfg.TSMax)
	if e != "" {
		return m.no("timestamp: %s", e)
	}
	switch x := m.Set.UpdateTimestamp(d); x {
	case ok:
		m.store("timestamp", d)
	case vEqual:
	default:
		return m.no("timestamp: %s", x)
	}
	// snapshot
	have := false
	if d := m.Cache["snapshot.json"]; d != nil {
		x := m.Set.UpdateSnapshot(d, true)
		if x == vOrder {
			return m.no("local snapshot: order")
		}
		have = x == ok
	}
	if !have {
		w := m.Set.TS.Snap
		d, e := m.fetch(m.versioned("snapshot", w.Ver), orElse(w.Len, m.Cfg.SNMax))
		if e != "" {
			return m.no("snapshot: %s", e)
		}
		if x := m.Set.UpdateSnapshot(d, false); x != ok {
			return m.no("snapshot: %s", x)
		}
		m.store("snapshot", d)
	}
	return m.loadTargets("targets", "root") != nil
}

func orElse(a, b int64) int64 {
	if a != 0 {
		return a
	}
	return b
}

func (m *MClient) versioned(role string, ver int64) string {
	if m.Set.Root.CS {
		return fmt.Sprintf("%d.%s.json", ver, neturl.QueryEscape(role))
	}
	return neturl.QueryEscape(role) + ".json"
}

func (m *MClient) unsafeRefresh() bool {
	for _, r := range []string{"timestamp", "snapshot", "targets"} {
		d := m.Cache[r+".json"]
		if d == nil {
			return m.no("no local %s", r)
		}
		var x V
		switch r {
		case "timestamp":
			x = m.Set.UpdateTimestamp(d)
		case "snapshot":
			x = m.Set.UpdateSnapshot(d, false)
		default:
			x = m.Set.UpdateTargets(d, "targets", "root")
		}
		if x != ok {
			return m.no("local %s: %s", r, x)
		}
	}
	return true
}

func (m *MClient) loadTargets(role, parent string) *Doc {
	if d := m.Set.TG[role]; d != nil {
		return d
	}
	if parent != "root" && (role == "root" || role == "timestamp" || role == "snapshot") {
		m.no("reserved name %s", role)
		return nil
	}
	if d := m.Cache[fileOf(role)]; d != nil {
		x := m.Set.UpdateTargets(d, role, parent)
		if x == ok {
			return d
		}
		if x == vOrder {
			m.no("local %s: order", role)
			return nil
		}
	}
	if m.Set.SN == nil {
		m.no("no snapshot")
		return nil
	}
	w, found := m.Set.SN.Meta[role+".json"]
	if !found {
		m.no("%s: not in snapshot", role)
		return nil
	}
	d, e := m.fetch(m.versioned(role, w.Ver), orElse(w.Len, m.Cfg.TGMax))
	if e != "" {
		m.no("%s: %s", role, e)
		return nil
	}
	if x := m.Set.UpdateTargets(d, role, parent); x != ok {
		m.no("%s: %s", role, x)
		return nil
	}
	m.store(role, d)
	return d
}

// Lookup is the reference search; found tells which role provides the target.
func (m *MClient) Lookup(path string) (tf TF, role string, found bool) {
	if m.Set.TG["targets"] == nil {
		if !m.Refresh() {
			return
		}
	}
	type rp struct{ role, parent string }
	stack := []rp{{"targets", "root"}}
	seen := map[string]bool{}
	for len(stack) > 0 && len(seen) <= m.Cfg.MaxDeleg {
		n := stack[0]
		stack = stack[1:]
		if seen[n.role] {
			continue
		}
		d := m.loadTargets(n.role, n.parent)
		if d == nil {
			return
		}
		if t, has := d.Tgts[path]; has {
			return t, n.role, true
		}
		seen[n.role] = true
		var kids []rp
		if d.Deleg != nil {
			if s := d.Deleg.Succ; s != nil {
				kids = []rp{{binName(s, path), n.role}}
				stack = nil
			} else {
				for _, r := range d.Deleg.Roles {
					if !pathDelegated(r, path) {
						continue
					}
					kids = append(kids, rp{r.Name, n.role})
					if r.Term {
						stack = nil
						break
					}
				}
			}
		}
		stack = append(append([]rp{}, kids...), stack...)
	}
	m.no("not found")
	return
}

// pathDelegated is the reference path matcher (also used by C11).
func pathDelegated(r DRole, path string) bool {
	if len(r.Paths) > 0 {
		for _, p := range r.Paths {
			if globMatch(p, path) {
				return true
			}
		}
		return false
	}
	h := sha256hex([]byte(path))
	for _, p := range r.Prefixes {
		if strings.HasPrefix(h, p) {
			return true
		}
	}
	return false
}

func globMatch(pattern, path string) bool {
	a, b := strings.Split(pattern, "/"), strings.Split(path, "/")
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !globPart(a[i], b[i]) {
			return false
		}
	}
	return true
}

// globPart matches one part: * and ? only (other metacharacters in C11).
func globPart(p, s string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if globPart(p[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return s != "" && globPart(p[1:], s[1:])
	}
	return s != "" && s[0] == p[0] && globPart(p[1:], s[1:])
}

// ---- the real client ----

type RClient struct {
	Up  *updater.Updater
	F   *netFetcher
	Dir string
	Tgt string
	Cfg *config.UpdaterConfig
}

// fill writes a cache into dir.
func (c MCache) fill(dir string) {
	for k, d := range c {
		must(os.WriteFile(filepath.Join(dir, k), d.Bytes, 0o644))
	}
}

func (cfg SCfg) real(anchor []byte, dir string, f *netFetcher) *config.UpdaterConfig {
	c, err := config.New(baseURL, anchor)
	must(err)
	c.MaxRootRotations, c.MaxDelegations = cfg.MaxRoots, cfg.MaxDeleg
	c.RootMaxLength, c.TimestampMaxLength, c.SnapshotMaxLength, c.TargetsMaxLength = cfg.RootMax, cfg.TSMax, cfg.SNMax, cfg.TGMax
	c.Fetcher = f
	c.LocalMetadataDir = filepath.Join(dir, "md")
	c.LocalTargetsDir = filepath.Join(dir, "tg")
	c.DisableLocalCache = cfg.NoCache
	c.UnsafeLocalMode = cfg.Unsafe
	return c
}

// newRClient makes a real client over dir/md.
func newRClient(anchor *Doc, dir string, cfg SCfg, net Net) (*RClient, error) {
	return newRClientF(anchor, dir, cfg, &netFetcher{net: net, max: 200})
}

func newRClientF(anchor *Doc, dir string, cfg SCfg, f *netFetcher) (*RClient, error) {
	c := cfg.real(anchor.Bytes, dir, f)
	up, err := updater.New(c)
	if err != nil {
		return nil, err
	}
	return &RClient{Up: up, F: f, Dir: c.LocalMetadataDir, Tgt: c.LocalTargetsDir, Cfg: c}, nil
}

// readDir returns the files below dir.
func readDir(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			b = []byte("unreadable: " + err.Error())
		}
		m[rel] = string(b)
		return nil
	})
	return m
}

func cacheDiff(dir string, c MCache) string {
	got := readDir(dir)
	var out []string
	for _, k := range sortedKeys(got) {
		d := c[k]
		if d == nil {
			out = append(out, fmt.Sprintf("unexpected file %s (%d bytes)", k, len(got[k])))
		} else if got[k] != string(d.Bytes) {
			what := "other bytes"
			for _, o := range c {
				if string(o.Bytes) == got[k] {
					what = o.Name
				}
			}
			if x := docOf([]byte(got[k])); x != nil {
				what = x.Name
			}
			out = append(out, fmt.Sprintf("%s holds %s (%d bytes), expected %s", k, what, len(got[k]), d))
		}
	}
	for _, k := range sortedKeys(c) {
		if _, has := got[k]; !has {
			out = append(out, fmt.Sprintf("%s missing, expected %s", k, c[k]))
		}
	}
	return strings.Join(out, "; ")
}

func reqsDiff(got, want []Req) string {
	if fmt.Sprint(got) == fmt.Sprint(want) {
		return ""
	}
	return fmt.Sprintf("requests %v, expected %v", got, want)
}

// call is one client call of a session script: "refresh" or "get PATH".
type call string

// session runs one scripted session on both sides over the given cache and compares everything.
// It returns the model client.
func session(t *T, anchor *Doc, cache MCache, cfg SCfg, net Net, now time.Time, script []call) *MClient {
	dir := t.Dir()
	must(os.MkdirAll(filepath.Join(dir, "md"), 0o755))
	cache.fill(filepath.Join(dir, "md"))
	modelNow := now
	if now.IsZero() {
		modelNow = time.Now()
	}
	m, v := newMClient(anchor, cache, cfg, net, modelNow)
	r, err := newRClient(anchor, dir, cfg, net)
	t.Trans(1)
	if (err == nil) != (v == ok) {
		t.Fail("client with anchor %s: %s, expected %q", anchor, refused(err), v)
	}
	if v != ok {
		return nil
	}
	for _, c := range script {
		runCall(t, m, r, c)
	}
	if !cfg.NoCache {
		if d := cacheDiff(r.Dir, m.Cache); d != "" {
			t.Fail("cache after the session: %s", d)
		}
	}
	return m
}

func runCall(t *T, m *MClient, r *RClient, c call) {
	t.Trans(1)
	switch {
	case c == "refresh":
		want := m.Refresh()
		var err error
		if p := guard(func() { err = r.Up.Refresh() }); p != "" {
			t.Fail("Refresh: %s", p)
		}
		t.Log("Refresh: %s", refused(err))
		if (err == nil) != want {
			t.Fail("Refresh: %s, expected success=%v (%s)", refused(err), want, m.Why)
		}
		t.Outcome(fmt.Sprint("refresh ", want))
	case strings.HasPrefix(string(c), "get "):
		p := string(c)[4:]
		tf, role, found := m.Lookup(p)
		var got *metadata.TargetFiles
		var err error
		if x := guard(func() { got, err = r.Up.GetTargetInfo(p) }); x != "" {
			t.Fail("GetTargetInfo(%q): %s", p, x)
		}
		t.Log("GetTargetInfo(%q): %s", p, refused(err))
		if (err == nil) != found {
			t.Fail("GetTargetInfo(%q): %s, expected found=%v in %q (%s)", p, refused(err), found, role, m.Why)
		}
		if found && (got == nil || got.Length != tf.Len || got.Hashes["sha256"].String() != tf.Hash || got.Path != p) {
			t.Fail("GetTargetInfo(%q) = %+v, expected the entry of %s: %+v", p, got, role, tf)
		}
		t.Outcome(fmt.Sprint("get ", found))
	default:
		panic(harnessError{"call " + string(c)})
	}
	set := r.Up.GetTrustedMetadataSet()
	if d := setDiff(&set, m.Set); d != "" {
		t.Fail("after %s: %s", c, d)
	}
	if d := reqsDiff(r.F.reqs, m.Reqs); d != "" {
		t.Fail("after %s: %s", c, d)
	}
}

func mkdirAll(p string) error { return os.MkdirAll(p, 0o755) }

func (s *switchFetcher) DownloadFile(u string, maxLength int64, timeout time.Duration) ([]byte, error) {
	if strings.HasPrefix(u, baseURL) {
		return s.md.DownloadFile(u, maxLength, timeout)
	}
	return s.tg.DownloadFile(u, maxLength, timeout)
}

// escaped is the file name of a target path.
func escaped(p string) string { return neturl.QueryEscape(p) }
