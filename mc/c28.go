package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

func init() {
	register(&Check{ID: "C28", Run: runC28, QuickSec: 150,
		Rule:        "every sequence of publisher steps to the depth, out of 24 steps (targets added, changed, removed; delegations by path and succinct, given, extended and taken back; keys of every role and type added, rotated, revoked; thresholds; expiry; naming; unknown fields), each step written with the library's own operations and published in order; after every step real clients from every cache content that following any subset of the earlier stages can leave refresh, look up every target ever published, download and list, against what the publisher put in; repositories large in one direction (targets, roles, nesting, keys, signatures, versions, long values) published and read back",
		Assumptions: []string{"the publisher follows the published order (root, delegated targets, targets, snapshot, timestamp), increases versions by one and never drops an entry from the snapshot", "one delegated role or two bins"}})
}

// pub is a repository as its publisher keeps it. Values are replaced, never changed.
type pub struct {
	files map[string][]byte            // what the server has
	cur   map[string][]byte            // the latest document of each role
	keys  map[string][]string          // signers of each role: top-level, A, bins
	exp   map[string]map[string]string // role -> target path -> content: what was put in
	hist  []string
	meta  int // 0: versions only, 1: with length and hashes
}

func pk(name string) *PK {
	i := len(name) - 1
	return PKey(name[:i], int(name[i]-'0'))
}

func (p *pub) clone() *pub {
	n := &pub{files: map[string][]byte{}, cur: map[string][]byte{}, keys: map[string][]string{}, exp: map[string]map[string]string{}, meta: p.meta}
	for k, v := range p.files {
		n.files[k] = v
	}
	for k, v := range p.cur {
		n.cur[k] = v
	}
	for k, v := range p.keys {
		n.keys[k] = append([]string{}, v...)
	}
	for k, v := range p.exp {
		m := map[string]string{}
		for a, b := range v {
			m[a] = b
		}
		n.exp[k] = m
	}
	n.hist = append([]string{}, p.hist...)
	return n
}

func pubKind(role string) string {
	if topRole[role] {
		return role
	}
	return "targets"
}

// editing state of one step
type edit struct {
	t    *T
	p    *pub
	dir  string
	root *MRoot
	ts   *MTS
	sn   *MSN
	tg   map[string]*MTG
	// roles whose content or signers changed
	changed map[string]bool
	oldRoot []string // signers of the previous root
	pretty  bool
}

func (p *pub) edit(t *T, dir string) *edit {
	e := &edit{t: t, p: p, dir: dir, tg: map[string]*MTG{}, changed: map[string]bool{}, oldRoot: append([]string{}, p.keys["root"]...), pretty: len(p.hist)%2 == 0}
	for role, b := range p.cur {
		var l libDoc
		var err error
		if len(p.hist)%3 == 0 {
			f := filepath.Join(dir, "in.json")
			must(os.WriteFile(f, b, 0o644))
			l, err = libFile(pubKind(role), f)
		} else {
			l, err = libLoad(pubKind(role), b)
		}
		if err != nil {
			t.Fail("after %v, reading back %s: %v", p.hist, role, err)
		}
		switch x := l.(type) {
		case *MRoot:
			e.root = x
		case *MTS:
			e.ts = x
		case *MSN:
			e.sn = x
		case *MTG:
			e.tg[role] = x
		}
	}
	return e
}

func (e *edit) ok(what string, err error) {
	if err != nil {
		e.t.Fail("after %v, %s: %v", e.p.hist, what, err)
	}
}

func (e *edit) sign(role string, l libDoc, names []string) []byte {
	l.ClearSignatures()
	done := map[string]bool{}
	for _, n := range names {
		if !done[n] {
			done[n] = true
			_, err := l.Sign(pk(n).signer())
			e.ok("signing "+role, err)
		}
	}
	f := filepath.Join(e.dir, "out.json")
	e.ok("writing "+role, l.ToFile(f, e.pretty))
	b, err := os.ReadFile(f)
	must(err)
	return b
}

func (e *edit) put(role string, ver int64, b []byte) {
	e.p.cur[role] = b
	e.p.files[role+".json"] = b
	e.p.files[fmt.Sprintf("%d.%s.json", ver, role)] = b
}

// publish writes what changed in the published order.
func (e *edit) publish(first bool) {
	p := e.p
	if e.changed["root"] {
		if !first {
			e.root.Signed.Version++
		}
		b := e.sign("root", e.root, append(append([]string{}, p.keys["root"]...), e.oldRoot...))
		p.cur["root"] = b
		p.files[fmt.Sprintf("%d.root.json", e.root.Signed.Version)] = b
	}
	for _, role := range []string{"A", "bin-0", "bin-1", "targets"} {
		m := e.tg[role]
		if m == nil || !e.changed[role] {
			continue
		}
		if p.cur[role] != nil {
			m.Signed.Version++
		}
		k := role
		if strings.HasPrefix(role, "bin-") {
			k = "bins"
		}
		b := e.sign(role, m, p.keys[k])
		e.put(role, m.Signed.Version, b)
		mf := metadata.MetaFile(m.Signed.Version)
		if p.meta == 1 {
			tf, err := metadata.TargetFile().FromBytes("x", b, "sha256", "sha512")
			e.ok("hashing", err)
			mf.Length, mf.Hashes = tf.Length, tf.Hashes
		}
		e.sn.Signed.Meta[role+".json"] = mf
		e.changed["snapshot"] = true
	}
	if e.changed["snapshot"] {
		if !first {
			e.sn.Signed.Version++
		}
		b := e.sign("snapshot", e.sn, p.keys["snapshot"])
		e.put("snapshot", e.sn.Signed.Version, b)
		mf := metadata.MetaFile(e.sn.Signed.Version)
		if p.meta == 1 {
			tf, err := metadata.TargetFile().FromBytes("x", b)
			e.ok("hashing", err)
			mf.Length, mf.Hashes = tf.Length, tf.Hashes
		}
		e.ts.Signed.Meta["snapshot.json"] = mf
		e.changed["timestamp"] = true
	}
	if e.changed["timestamp"] {
		if !first {
			e.ts.Signed.Version++
		}
		e.put("timestamp", e.ts.Signed.Version, e.sign("timestamp", e.ts, p.keys["timestamp"]))
	}
}

// newPub makes and publishes the first stage.
func newPub(t *T, dir string, meta int, cs bool) *pub {
	p := &pub{files: map[string][]byte{}, cur: map[string][]byte{}, exp: map[string]map[string]string{"targets": {}}, meta: meta,
		keys: map[string][]string{"root": {"ed255190"}, "timestamp": {"ed255191"}, "snapshot": {"ed255191"}, "targets": {"ed255192"}}}
	exp := time.Now().AddDate(1, 0, 0)
	e := &edit{t: t, p: p, dir: dir, root: metadata.Root(exp), ts: metadata.Timestamp(exp), sn: metadata.Snapshot(exp), tg: map[string]*MTG{"targets": metadata.Targets(exp)}, changed: map[string]bool{"root": true, "targets": true, "snapshot": true}}
	e.root.Signed.ConsistentSnapshot = cs
	for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
		for _, k := range p.keys[r] {
			e.ok("adding a key", e.root.Signed.AddKey(pk(k).key(), r))
		}
	}
	e.addTarget("targets", "t1", "first")
	e.publish(true)
	return p
}

func (e *edit) addTarget(role, path, content string) {
	f := filepath.Join(e.dir, "target")
	must(os.WriteFile(f, []byte(content), 0o644))
	var tf *metadata.TargetFiles
	var err error
	if len(content)%2 == 0 {
		tf, err = metadata.TargetFile().FromFile(f, "sha256", "sha512")
		if err == nil {
			tf.Path = path
		}
	} else {
		tf, err = metadata.TargetFile().FromBytes(path, []byte(content))
	}
	e.ok("describing a target", err)
	e.tg[role].Signed.Targets[path] = tf
	e.changed[role] = true
	if e.p.exp[role] == nil {
		e.p.exp[role] = map[string]string{}
	}
	e.p.exp[role][path] = content
}

func (e *edit) dropTarget(role, path string) bool {
	if _, there := e.tg[role].Signed.Targets[path]; !there {
		return false
	}
	delete(e.tg[role].Signed.Targets, path)
	delete(e.p.exp[role], path)
	e.changed[role] = true
	return true
}

// topKeys changes the signers of a top-level role.
func (e *edit) topKeys(role string, add, revoke []string) bool {
	for _, k := range add {
		e.ok("adding a key", e.root.Signed.AddKey(pk(k).key(), role))
	}
	l := append([]string{}, e.p.keys[role]...)
	for _, k := range add {
		if !has(l, k) {
			l = append(l, k)
		}
	}
	for _, k := range revoke {
		if !has(l, k) || len(l) == 1 || e.root.Signed.Roles[role].Threshold >= len(l) {
			return false
		}
		e.ok("revoking a key", e.root.Signed.RevokeKey(pk(k).ID, role))
		var n []string
		for _, x := range l {
			if x != k {
				n = append(n, x)
			}
		}
		l = n
	}
	e.p.keys[role] = l
	e.changed["root"], e.changed[role] = true, true
	return true
}

func deleg(m *MTG) *metadata.Delegations { return m.Signed.Delegations }

type pstep struct {
	name string
	do   func(e *edit) bool // false: not applicable here
}

func pubSteps() []pstep {
	next := func(l []string, kind string) string {
		for i := 0; ; i++ {
			if n := fmt.Sprint(kind, i); !has(l, n) {
				return n
			}
		}
	}
	rotate := func(role, kind string) pstep {
		return pstep{"rotate the " + role + " key to " + kind, func(e *edit) bool {
			old := e.p.keys[role]
			if e.root.Signed.Roles[role].Threshold > 1 {
				return e.topKeys(role, []string{next(old, kind)}, old[:1])
			}
			return e.topKeys(role, []string{next(append([]string{"ed255190", "ed255191", "ed255192"}, old...), kind)}, old)
		}}
	}
	hasA := func(e *edit) bool { return e.p.keys["A"] != nil }
	steps := []pstep{
		{"add target t2", func(e *edit) bool { e.addTarget("targets", "t2", "second"); return true }},
		{"change target t1", func(e *edit) bool { e.addTarget("targets", "t1", fmt.Sprint("changed ", len(e.p.hist))); return true }},
		{"remove target t1", func(e *edit) bool { return e.dropTarget("targets", "t1") }},
		{"add an empty target", func(e *edit) bool { e.addTarget("targets", "dir/empty", ""); return true }},
		{"delegate A", func(e *edit) bool {
			if hasA(e) || deleg(e.tg["targets"]) != nil && deleg(e.tg["targets"]).SuccinctRoles != nil {
				return false
			}
			tg := e.tg["targets"]
			e.p.keys["A"] = []string{"ecdsa3"}
			k := pk("ecdsa3").key()
			if deleg(tg) == nil {
				tg.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
			}
			deleg(tg).Roles = append(deleg(tg).Roles, metadata.DelegatedRole{Name: "A", KeyIDs: []string{}, Threshold: 1, Terminating: len(e.p.hist)%2 == 0, Paths: []string{"a/*"}})
			e.ok("adding a delegation key", tg.Signed.AddKey(k, "A"))
			e.changed["targets"] = true
			if e.tg["A"] == nil {
				e.tg["A"] = metadata.Targets(time.Now().AddDate(0, 1, 0).UTC())
			}
			e.p.exp["A"] = map[string]string{}
			for p, f := range e.tg["A"].Signed.Targets {
				_ = f
				delete(e.tg["A"].Signed.Targets, p)
			}
			e.addTarget("A", "a/1", "one of A")
			return true
		}},
		{"add a target to A", func(e *edit) bool {
			if !hasA(e) {
				return false
			}
			e.addTarget("A", "a/2", fmt.Sprint("two of A ", len(e.p.hist)))
			return true
		}},
		{"remove a target from A", func(e *edit) bool { return hasA(e) && e.dropTarget("A", "a/1") }},
		{"rotate the key of A", func(e *edit) bool {
			if !hasA(e) || len(e.p.keys["A"]) > 1 {
				return false
			}
			old := e.p.keys["A"][0]
			nk := next([]string{old, "ed255190", "ed255191", "ed255192"}, "ed25519")
			e.ok("adding a delegation key", e.tg["targets"].Signed.AddKey(pk(nk).key(), "A"))
			e.ok("revoking a delegation key", e.tg["targets"].Signed.RevokeKey(pk(old).ID, "A"))
			e.p.keys["A"] = []string{nk}
			e.changed["targets"], e.changed["A"] = true, true
			return true
		}},
		{"two signatures for A", func(e *edit) bool {
			if !hasA(e) || len(e.p.keys["A"]) > 1 {
				return false
			}
			nk := next(append([]string{"rsa0"}, e.p.keys["A"]...), "rsa")
			e.ok("adding a delegation key", e.tg["targets"].Signed.AddKey(pk(nk).key(), "A"))
			deleg(e.tg["targets"]).Roles[0].Threshold = 2
			e.p.keys["A"] = append(e.p.keys["A"], nk)
			e.changed["targets"], e.changed["A"] = true, true
			return true
		}},
		{"take back the delegation", func(e *edit) bool {
			if !hasA(e) {
				return false
			}
			for _, k := range e.p.keys["A"] {
				e.ok("revoking a delegation key", e.tg["targets"].Signed.RevokeKey(pk(k).ID, "A"))
			}
			deleg(e.tg["targets"]).Roles = nil
			delete(e.p.keys, "A")
			delete(e.p.exp, "A")
			if len(e.p.hist)%2 == 0 {
				e.tg["targets"].Signed.Delegations = nil
			}
			e.changed["targets"] = true
			return true
		}},
		{"delegate to bins", func(e *edit) bool {
			if hasA(e) || e.p.keys["bins"] != nil {
				return false
			}
			tg := e.tg["targets"]
			e.p.keys["bins"] = []string{"ed255197"}
			tg.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: 1, NamePrefix: "bin"}}
			e.ok("adding the key of the bins", tg.Signed.AddKey(pk("ed255197").key(), "ignored"))
			e.changed["targets"] = true
			for i, r := range tg.Signed.Delegations.SuccinctRoles.GetRoles() {
				if r != fmt.Sprint("bin-", i) || i > 1 {
					e.t.Fail("bins are %v", tg.Signed.Delegations.SuccinctRoles.GetRoles())
				}
				e.tg[r] = metadata.Targets(time.Now().AddDate(0, 1, 0).UTC())
				e.changed[r] = true
				e.p.exp[r] = map[string]string{}
			}
			return e.binTarget("b1") && e.binTarget("b/2") && e.binTarget("b3")
		}},
		{"add a target to its bin", func(e *edit) bool { return e.p.keys["bins"] != nil && e.binTarget("b4") }},
		{"rotate the key of the bins", func(e *edit) bool {
			if e.p.keys["bins"] == nil {
				return false
			}
			old := e.p.keys["bins"][0]
			nk := next([]string{old}, "ecdsa")
			e.ok("adding the key of the bins", e.tg["targets"].Signed.AddKey(pk(nk).key(), "bin-0"))
			e.ok("revoking the key of the bins", e.tg["targets"].Signed.RevokeKey(pk(old).ID, "bin-0"))
			e.p.keys["bins"] = []string{nk}
			e.changed["targets"], e.changed["bin-0"], e.changed["bin-1"] = true, true, true
			return true
		}},
		rotate("root", "ed25519"), rotate("root", "ecdsa"), rotate("timestamp", "ed25519"), rotate("snapshot", "rsa"), rotate("targets", "ecdsa"),
		{"share the timestamp key with targets", func(e *edit) bool {
			k := e.p.keys["timestamp"][0]
			if has(e.p.keys["targets"], k) {
				return false
			}
			return e.topKeys("targets", []string{k}, nil)
		}},
		{"revoke the first targets key", func(e *edit) bool {
			return len(e.p.keys["targets"]) > 1 && e.topKeys("targets", nil, e.p.keys["targets"][:1])
		}},
		{"two root signatures", func(e *edit) bool {
			if e.root.Signed.Roles["root"].Threshold > 1 {
				return false
			}
			e.topKeys("root", []string{next(e.p.keys["root"], "rsa")}, nil)
			e.root.Signed.Roles["root"].Threshold = 2
			return true
		}},
		{"renew everything", func(e *edit) bool {
			z := time.FixedZone("x", 19800)
			e.root.Signed.Expires = time.Now().Add(9999 * time.Hour).In(z)
			e.ts.Signed.Expires = time.Now().Add(24*time.Hour + 123456789*time.Nanosecond)
			e.sn.Signed.Expires = time.Now().AddDate(0, 0, 7).UTC().Truncate(time.Second)
			for r, m := range e.tg {
				m.Signed.Expires = time.Now().AddDate(0, 3, 0).UTC()
				if e.live(r) {
					e.changed[r] = true
				}
			}
			e.changed["root"] = true
			return true
		}},
		{"other naming", func(e *edit) bool {
			e.root.Signed.ConsistentSnapshot = !e.root.Signed.ConsistentSnapshot
			e.changed["root"] = true
			return true
		}},
		{"unknown fields", func(e *edit) bool {
			if e.tg["targets"].Signed.UnrecognizedFields["x-n"] != nil {
				return false
			}
			x := map[string]any{"x-n": 9007199254740993, "x-o": map[string]any{"b": []any{1, "two", nil, true}, "a": "é\u2028"}}
			e.root.Signed.UnrecognizedFields, e.ts.Signed.UnrecognizedFields, e.sn.Signed.UnrecognizedFields, e.tg["targets"].Signed.UnrecognizedFields = x, x, x, x
			raw := json.RawMessage("{ \"custom\" : [1, 2 ,\n null] }")
			for _, f := range e.tg["targets"].Signed.Targets {
				f.Custom = &raw
			}
			for _, m := range e.sn.Signed.Meta {
				m.UnrecognizedFields = map[string]any{"x-m": "v"}
			}
			for _, k := range e.root.Signed.Roles {
				k.UnrecognizedFields = map[string]any{"x-r": []any{}}
			}
			e.changed["root"], e.changed["targets"] = true, true
			return true
		}},
		{"only a new timestamp", func(e *edit) bool { e.changed["timestamp"] = true; return true }},
	}
	return steps
}

// live tells whether the role is delegated to at present.
func (e *edit) live(role string) bool {
	switch {
	case role == "targets":
		return true
	case role == "A":
		return e.p.keys["A"] != nil
	}
	return e.p.keys["bins"] != nil
}

func (e *edit) binTarget(path string) bool {
	s := deleg(e.tg["targets"]).SuccinctRoles
	for r := range s.GetRolesForTarget(path) {
		if e.tg[r] == nil {
			e.t.Fail("target %s belongs to the bin %s, there are 2 bins", path, r)
		}
		e.addTarget(r, path, "binned "+path)
	}
	return true
}

var pubPaths = []string{"t1", "t2", "dir/empty", "a/1", "a/2", "b1", "b/2", "b3", "b4", "never"}

// follow runs a client session from a cache against the present stage and returns the cache it leaves.
func (p *pub) follow(t *T, dir string, from map[string]string, anchor []byte, seq int) map[string]string {
	md := filepath.Join(dir, "md")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(md, 0o755))
	must(os.MkdirAll(filepath.Join(dir, "tg"), 0o755))
	for n, b := range from {
		must(os.WriteFile(filepath.Join(md, n), []byte(b), 0o644))
	}
	want := map[string]string{}
	for _, m := range p.exp {
		for k, v := range m {
			want[k] = v
		}
	}
	cs := parseJSON(p.cur["root"]).(map[string]any)["signed"].(map[string]any)["consistent_snapshot"] == true
	net := func(n int, path string) Reply {
		if f, is := strings.CutPrefix(path, "targets/"); is {
			for w, content := range want {
				i := strings.LastIndex(w, "/") + 1
				for _, h := range []string{sha256hex([]byte(content)), sha512hex([]byte(content))} {
					if cs && f == w[:i]+h+"."+w[i:] {
						return Reply{Doc: &Doc{Name: f, Bytes: []byte(content)}}
					}
				}
				if !cs && f == w {
					return Reply{Doc: &Doc{Name: f, Bytes: []byte(content)}}
				}
			}
			return Reply{Err: "404"}
		}
		if b := p.files[path]; b != nil {
			return Reply{Doc: &Doc{Name: path, Bytes: b}}
		}
		return Reply{Err: "404"}
	}
	bad := func(format string, a ...any) {
		t.Fail("stages %v, client with the files %v: %s", p.hist, sortedKeys(from), fmt.Sprintf(format, a...))
	}
	t.Trans(1)
	pan := guard(func() {
		cfg := defCfg()
		r, err := newRClient(&Doc{Name: "root", Bytes: anchor}, dir, cfg, net)
		if err != nil {
			bad("no client: %v", err)
		}
		if err := r.Up.Refresh(); err != nil {
			bad("refresh: %v", err)
		}
		for i, path := range pubPaths {
			content, there := want[path]
			ti, err := r.Up.GetTargetInfo(path)
			if (err == nil) != there {
				bad("looking up %s: %s, published: %v", path, refused(err), there)
			}
			if !there {
				continue
			}
			if ti.Length != int64(len(content)) || ti.Hashes["sha256"].String() != sha256hex([]byte(content)) {
				bad("%s is described by %+v instead of %q", path, ti, content)
			}
			if (i+seq)%4 == 0 {
				_, data, err := r.Up.DownloadTarget(ti, "", baseURL+"targets/")
				if err != nil || string(data) != content {
					bad("downloading %s: %q %v", path, data, err)
				}
				_, data, err = r.Up.FindCachedTarget(ti, "")
				if err != nil || string(data) != content {
					bad("finding %s: %q %v", path, data, err)
				}
			}
		}
		top := r.Up.GetTopLevelTargets()
		for path := range top {
			if _, there := p.exp["targets"][path]; !there {
				bad("top-level targets list %s", path)
			}
		}
		if len(top) != len(p.exp["targets"]) {
			bad("top-level targets %v instead of %v", top, p.exp["targets"])
		}
	})
	if pan != "" {
		bad("%s", pan)
	}
	return readDir(md)
}

func cacheKey(m map[string]string) string {
	s := ""
	for _, k := range sortedKeys(m) {
		s += k + sha256hex([]byte(m[k]))[:12]
	}
	return s
}

func runC28(c *Ctx) {
	runC28Wide(c)
	steps := pubSteps()
	small := []int{0, 2, 4, 7, 9, 10, 12, 13, 15, 17, 18, 20, 22}
	for _, meta := range []int{0, 1} {
		for i := range steps {
			for j := range steps {
				c.Case(func() string {
					return fmt.Sprintf("meta form %d: %s, %s, ...", meta, steps[i].name, steps[j].name)
				}, func(t *T) {
					x := &c28run{t: t, c: c, dir: t.Dir()}
					p0 := newPub(t, x.dir, meta, true)
					anchor := p0.cur["root"]
					caches := []map[string]string{{}}
					caches = x.stage(p0, anchor, caches)
					p1, ok1 := x.step(p0, steps[i])
					if !ok1 {
						return
					}
					caches = x.stage(p1, anchor, caches)
					p2, ok2 := x.step(p1, steps[j])
					if !ok2 {
						return
					}
					caches = x.stage(p2, anchor, caches)
					for k := range steps {
						if c.Expired() {
							return
						}
						p3, ok3 := x.step(p2, steps[k])
						if !ok3 {
							continue
						}
						if !c.Thorough() && (i+j+k)%2 != meta {
							continue // the other form of the snapshot in the other half; both in full in the thorough tier
						}
						c3 := x.stage(p3, anchor, caches)
						if !c.Thorough() || !inInts(small, i) || !inInts(small, j) || !inInts(small, k) {
							continue
						}
						for _, l := range small {
							if p4, ok4 := x.step(p3, steps[l]); ok4 {
								x.stage(p4, anchor, c3)
							}
						}
					}
				})
			}
		}
	}
}

func inInts(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

type c28run struct {
	t   *T
	c   *Ctx
	dir string
	n   int
}

// step applies one publisher step.
func (x *c28run) step(p *pub, s pstep) (*pub, bool) {
	n := p.clone()
	n.hist = append(n.hist, s.name)
	e := n.edit(x.t, x.dir)
	var did bool
	if pan := guard(func() {
		if did = s.do(e); did {
			e.publish(false)
		}
	}); pan != "" {
		x.t.Fail("stages %v: %s", n.hist, pan)
	}
	return n, did
}

// stage lets clients with every cache follow the stage.
func (x *c28run) stage(p *pub, anchor []byte, caches []map[string]string) []map[string]string {
	x.t.Reset()
	x.t.Log("stages: %v", p.hist)
	seen := map[string]bool{}
	var res []map[string]string
	add := func(m map[string]string) {
		if k := cacheKey(m); !seen[k] {
			seen[k] = true
			res = append(res, m)
		}
	}
	for _, m := range caches {
		add(m) // a client that leaves this stage out
	}
	for i, m := range caches {
		x.n++
		got := p.follow(x.t, filepath.Join(x.dir, "client"), m, anchor, x.n)
		add(got)
		x.t.State(fmt.Sprint(p.meta, p.hist, cacheKey(got)))
		// the same with the root the client kept, as programs do that start from their own copy
		if r, kept := m["root.json"]; kept && (i%2 == 0 || x.c.Thorough()) && r != string(anchor) {
			add(p.follow(x.t, filepath.Join(x.dir, "client"), m, []byte(r), x.n))
		}
	}
	return res
}
