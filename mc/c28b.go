package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

// wideRepo is a repository that is large in one direction.
type wideRepo struct {
	keys, thr  int // of every top-level role
	dkeys      int // of each delegated role, all of them needed
	roles      int // delegated from targets
	depth      int // of a chain below the first of them
	bits       int // of succinct bins below the last role of the chain, -1 for none
	targets    int // per role
	roots      int // root versions, the keys are all new in each
	ver        int64
	pathLen    int
	paths      int // patterns per delegated role
	custom     int // bytes of custom data
	cs, hashes bool
}

func wideDims() []struct {
	name string
	vals []int
	set  func(w *wideRepo, n int)
} {
	type d = struct {
		name string
		vals []int
		set  func(w *wideRepo, n int)
	}
	some := []int{2, 3, 4, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33}
	return []d{
		{"keys with all signatures needed", some, func(w *wideRepo, n int) { w.keys, w.thr = n, n }},
		{"keys with one signature needed", some, func(w *wideRepo, n int) { w.keys = n }},
		{"keys of the delegated roles, all needed", some, func(w *wideRepo, n int) { w.dkeys = n }},
		{"delegated roles", append(append([]int{}, some...), 63, 64, 65, 100, 129, 257), func(w *wideRepo, n int) { w.roles = n }},
		{"levels of delegation", append(append([]int{}, some...), 65, 129), func(w *wideRepo, n int) { w.depth = n }},
		{"bin bits", []int{1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 31, 32}, func(w *wideRepo, n int) { w.bits = n }},
		{"targets per role", append(append([]int{}, some...), 100, 1000, 5000), func(w *wideRepo, n int) { w.targets = n }},
		{"root versions", []int{2, 3, 8, 9, 10, 11, 16, 17, 30, 31, 32}, func(w *wideRepo, n int) { w.roots = n }},
		{"bytes of path", []int{10, 50, 100, 200, 254, 255}, func(w *wideRepo, n int) { w.pathLen = n }},
		{"patterns per delegation", append(append([]int{}, some...), 100, 1000), func(w *wideRepo, n int) { w.paths = n }},
		{"bytes of custom data", []int{1, 1000, 4096, 65536, 100000}, func(w *wideRepo, n int) { w.custom = n }},
		{"as version number", []int{9, 10, 99, 100, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 + 1}, func(w *wideRepo, n int) { w.ver = int64(n) }},
	}
}

func runC28Wide(c *Ctx) {
	for _, d := range wideDims() {
		for _, n := range d.vals {
			for _, v := range [][2]bool{{true, true}, {false, false}, {true, false}, {false, true}} {
				if !c.Thorough() && v[0] != v[1] {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%d %s, cs=%v hashes=%v", n, d.name, v[0], v[1]) }, func(t *T) {
					w := wideRepo{keys: 1, thr: 1, dkeys: 1, roles: 2, depth: 1, bits: -1, targets: 1, roots: 1, ver: 1, pathLen: 5, paths: 1, cs: v[0], hashes: v[1]}
					d.set(&w, n)
					w.run(t)
					t.State(fmt.Sprint(d.name, n, v))
				})
			}
		}
	}
}

// run publishes the repository with the library and follows it with clients.
func (w wideRepo) run(t *T) {
	dir := t.Dir()
	exp := time.Now().AddDate(1, 0, 0)
	files := map[string][]byte{}
	targets := map[string]string{}
	ok := func(what string, err error) {
		if err != nil {
			t.Fail("%s: %v", what, err)
		}
	}
	key := func(what string, i int) *PK {
		kind := "ed25519"
		if i == 1 {
			kind = "ecdsa"
		}
		n := 0
		for _, b := range []byte(what) {
			n = n*31 + int(b)
		}
		return PKey(kind, n%100000*1000+i)
	}
	write := func(role string, ver int64, l libDoc, prefixed bool, signers []*PK) []byte {
		l.ClearSignatures()
		for _, k := range signers {
			_, err := l.Sign(k.signer())
			ok("signing "+role, err)
		}
		f := filepath.Join(dir, "out.json")
		ok("writing "+role, l.ToFile(f, ver%2 == 0))
		b, err := os.ReadFile(f)
		must(err)
		var file struct {
			Signatures []any `json:"signatures"`
		}
		if err := json.Unmarshal(b, &file); err != nil {
			t.Fail("%s was written as no JSON document: %v", role, err)
		}
		if got := len(file.Signatures); got != len(signers) {
			t.Fail("%s has %d signatures after signing with %d keys", role, got, len(signers))
		}
		n := escaped(role) + ".json"
		if prefixed {
			n = fmt.Sprintf("%d.%s", ver, n)
		}
		files[n] = b
		return b
	}
	keysOf := func(what string, n int) (r []*PK) {
		for i := 0; i < n; i++ {
			r = append(r, key(what, i))
		}
		return
	}
	// roots: every version has keys of its own
	var anchor []byte
	top := map[string][]*PK{}
	for v := 1; v <= w.roots; v++ {
		r := metadata.Root(exp)
		r.Signed.Version, r.Signed.ConsistentSnapshot = int64(v), w.cs
		old := top["root"]
		for _, role := range []string{"root", "timestamp", "snapshot", "targets"} {
			top[role] = keysOf(fmt.Sprint(role, v), w.keys)
			for _, k := range top[role] {
				ok("AddKey", r.Signed.AddKey(k.key(), role))
			}
			r.Signed.Roles[role].Threshold = w.thr
		}
		b := write("root", int64(v), r, true, append(append([]*PK{}, old...), top["root"][:]...))
		if v == 1 {
			anchor = b
		}
	}
	meta := map[string]*metadata.MetaFiles{}
	entry := func(role string, ver int64, b []byte) *metadata.MetaFiles {
		mf := metadata.MetaFile(ver)
		if w.hashes {
			tf, err := metadata.TargetFile().FromBytes("x", b)
			ok("hashing", err)
			mf.Length, mf.Hashes = tf.Length, tf.Hashes
		}
		return mf
	}
	publish := func(stage int) {
		ver := w.ver + int64(stage)
		fill := func(role string, m *MTG) {
			m.Signed.Version = ver
			for i := 0; i < w.targets; i++ {
				p := role + "/"
				p += fmt.Sprintf("%0*d", max(1, w.pathLen-len(p)), i)
				content := fmt.Sprintf("%s stage %d", p, stage)
				tf, err := metadata.TargetFile().FromBytes(p, []byte(content))
				ok("describing", err)
				if w.custom > 0 {
					js := json.RawMessage(`"` + strings.Repeat("c", w.custom) + `"`)
					tf.Custom = &js
				}
				m.Signed.Targets[p] = tf
				targets[p] = content
			}
		}
		put := func(role string, m *MTG, signers []*PK) {
			meta[role+".json"] = entry(role, ver, write(role, ver, m, w.cs, signers))
		}
		delegate := func(m *MTG, roles ...string) {
			m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
			for _, r := range roles {
				dr := metadata.DelegatedRole{Name: r, Threshold: w.dkeys, Paths: []string{}}
				for i := 1; i < w.paths; i++ {
					dr.Paths = append(dr.Paths, fmt.Sprintf("other%d/*", i))
				}
				dr.Paths = append(dr.Paths, r+"/*")
				if strings.HasPrefix(r, "level") {
					dr.Paths = append(dr.Paths, "level*/*", "bin*/*")
				}
				m.Signed.Delegations.Roles = append(m.Signed.Delegations.Roles, dr)
			}
			for _, r := range roles {
				for _, k := range keysOf(r, w.dkeys) {
					ok("AddKey", m.Signed.AddKey(k.key(), r))
				}
			}
		}
		var names []string
		for i := 1; i < w.roles; i++ {
			r := fmt.Sprint("role", i)
			names = append(names, r)
			m := metadata.Targets(exp)
			fill(r, m)
			put(r, m, keysOf(r, w.dkeys))
		}
		for l := w.depth; l > 0; l-- {
			r := fmt.Sprint("level", l)
			m := metadata.Targets(exp)
			fill(r, m)
			switch {
			case l < w.depth:
				delegate(m, fmt.Sprint("level", l+1))
			case w.bits >= 0:
				m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: w.dkeys, BitLength: w.bits, NamePrefix: "bin"}}
				for _, k := range keysOf("bins", w.dkeys) {
					ok("AddKey", m.Signed.AddKey(k.key(), "bins"))
				}
				for i := 0; i < 40; i++ {
					p := fmt.Sprint("bin/", i)
					for bin := range m.Signed.Delegations.SuccinctRoles.GetRolesForTarget(p) {
						b := metadata.Targets(exp)
						b.Signed.Version = ver
						if old := files[binFile(bin, ver, w.cs)]; old != nil && len(meta) > 0 && meta[bin+".json"] != nil && meta[bin+".json"].Version == ver {
							_, err := b.FromBytes(old)
							ok("reading a bin", err)
						}
						content := fmt.Sprintf("%s stage %d", p, stage)
						tf, err := metadata.TargetFile().FromBytes(p, []byte(content))
						ok("describing", err)
						b.Signed.Targets[p] = tf
						targets[p] = content
						put(bin, b, keysOf("bins", w.dkeys))
					}
				}
			}
			put(r, m, keysOf(r, w.dkeys))
		}
		m := metadata.Targets(exp)
		fill("top", m)
		delegate(m, append(names, "level1")...)
		put("targets", m, top["targets"])
		s := metadata.Snapshot(exp)
		s.Signed.Version, s.Signed.Meta = ver, meta
		ts := metadata.Timestamp(exp)
		ts.Signed.Version = ver
		ts.Signed.Meta["snapshot.json"] = entry("snapshot", ver, write("snapshot", ver, s, w.cs, top["snapshot"]))
		write("timestamp", ver, ts, false, top["timestamp"])
	}
	follow := func(what, dir string, all bool) {
		t.Reset()
		t.Log("%s", what)
		cfg := defCfg()
		cfg.MaxDeleg, cfg.MaxRoots = 1000, 64
		cfg.RootMax, cfg.TSMax, cfg.SNMax, cfg.TGMax = 64<<20, 64<<20, 64<<20, 64<<20
		f := &netFetcher{net: func(n int, p string) Reply {
			if b := files[p]; b != nil {
				return Reply{Doc: &Doc{Name: p, Bytes: b}}
			}
			return Reply{Err: "404"}
		}}
		r, err := newRClientF(&Doc{Name: "root", Bytes: anchor}, dir, cfg, f)
		ok("New", err)
		ok("Refresh", r.Up.Refresh())
		for i, p := range sortedKeys(targets) {
			if !all && i%7 != 0 {
				continue
			}
			if len(targets) > 300 && i%17 != 0 && i < len(targets)-20 {
				continue
			}
			t.Trans(1)
			ti, err := r.Up.GetTargetInfo(p)
			ok("looking up "+p, err)
			if err := ti.VerifyLengthHashes([]byte(targets[p])); err != nil || ti.Path != p {
				t.Fail("%s: described as %+v", p, ti)
			}
		}
		if _, err := r.Up.GetTargetInfo("level1/none"); err == nil {
			t.Fail("target found that nobody published")
		}
		if got := len(r.Up.GetTopLevelTargets()); got != w.targets {
			t.Fail("%d top-level targets, expected %d", got, w.targets)
		}
	}
	publish(0)
	follow("first stage", filepath.Join(dir, "c1"), true)
	publish(1)
	follow("second stage, client that has the first", filepath.Join(dir, "c1"), true)
	follow("second stage, new client", filepath.Join(dir, "c2"), false)
	follow("second stage again", filepath.Join(dir, "c2"), true)
}

func binFile(bin string, ver int64, cs bool) string {
	n := escaped(bin) + ".json"
	if cs {
		n = fmt.Sprintf("%d.%s", ver, n)
	}
	return n
}
