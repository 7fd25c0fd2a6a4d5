package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
)

func init() {
	register(&Check{ID: "C18", Run: runC18, QuickSec: 120,
		Rule:        "every node of 7 documents of a working repository (and of the library's other complete documents) deleted or replaced by every kind of JSON value, with the old signatures and re-signed with what the library will verify; thorough: every pair of nodes; every truncation, every byte replaced by the structural characters; key objects of every type, scheme and kind of material; each through FromBytes, FromFile, VerifyDelegate, the trusted set and whole client sessions (served, then cached); wrong types and duplicate signatures at every position; path hash prefixes of every length including longer than any hash",
		Assumptions: []string{"one or two nodes changed at a time", "a hang is more than the watchdog's time without progress"}})
}

func c18values() []any {
	n := func(s string) any { return json.Number(s) }
	r := []any{nil, true, n("0"), n("-1"), n("1"), n("33"), n("9223372036854775807"), n("-9223372036854775808"), n("99999999999999999999"), n("1.5"), n("1e400"),
		"", "x", "root", "\u0000", []any{}, []any{nil}, []any{"x", "x"}, []any{[]any{}}, []any{J{}}, J{}, J{"": nil}, J{"x": nil}, J{"x": J{}}, J{"x": []any{}}, J{"targets.json": nil}}
	return r
}

var c18few = []any{"delete", nil, json.Number("0"), json.Number("-1"), json.Number("9223372036854775807"), "", []any{}, []any{nil}, J{}, J{"x": nil}}

// c18world is a working repository: trees of every document, by server path.
type c18doc struct {
	name, kind, path string
	role             string
	tree             J
	keys             []*Key
}

func c18world() (anchor *Doc, docs []c18doc) {
	rk, tk, dk := K("a"), K("b"), K("c")
	roles := map[string]RoleSpec{"root": {Ks("a"), 1}, "timestamp": {Ks("b"), 1}, "snapshot": {Ks("b"), 1}, "targets": {Ks("b"), 1}}
	anchor = MkRoot(RootOpt{Ver: 1, Exp: expValid, CS: true, Roles: roles, Sigs: good(Ks("a"))})
	id := func(k *Key) []any { return []any{k.ID} }
	h := sha256hex([]byte("data"))
	base := func(kind string, ver int) J {
		return J{"_type": kind, "spec_version": "1.0.31", "version": ver, "expires": expValid}
	}
	root := base("root", 2)
	root["consistent_snapshot"] = true
	root["keys"] = J{rk.ID: cloneJ(rk.Obj), tk.ID: cloneJ(tk.Obj), PKey("rsa", 0).ID: cloneJ(PKey("rsa", 0).Obj), PKey("ecdsa", 0).ID: cloneJ(PKey("ecdsa", 0).Obj)}
	root["roles"] = J{"root": J{"keyids": id(rk), "threshold": 1}, "timestamp": J{"keyids": id(tk), "threshold": 1},
		"snapshot": J{"keyids": []any{tk.ID, PKey("ecdsa", 0).ID}, "threshold": 1}, "targets": J{"keyids": []any{PKey("rsa", 0).ID, tk.ID}, "threshold": 1}}
	ts := base("timestamp", 2)
	ts["meta"] = J{"snapshot.json": J{"version": 2}}
	sn := base("snapshot", 2)
	sn["meta"] = J{"targets.json": J{"version": 2}, "A.json": J{"version": 2}, "bin-0.json": J{"version": 2}, "bin-1.json": J{"version": 2}, "H.json": J{"version": 2}}
	entry := func() J { return J{"length": 4, "hashes": J{"sha256": h}, "custom": J{"a": []any{1}}} }
	tg := base("targets", 2)
	tg["targets"] = J{"top": entry()}
	tg["delegations"] = J{"keys": J{dk.ID: cloneJ(dk.Obj)}, "roles": []any{
		J{"name": "A", "keyids": id(dk), "threshold": 1, "terminating": false, "paths": []any{"*", "d/*"}},
		J{"name": "H", "keyids": id(dk), "threshold": 1, "terminating": false, "path_hash_prefixes": []any{sha256hex([]byte("in-h")), sha256hex([]byte("in-h")) + "00", sha256hex([]byte("top"))[:44] + "g", "E3", "zz", strings.Repeat("é", 30)}},
	}}
	da := base("targets", 2)
	da["targets"] = J{"in-a": entry(), "d/x": entry()}
	da["delegations"] = J{"keys": J{dk.ID: cloneJ(dk.Obj)}, "succinct_roles": J{"keyids": id(dk), "threshold": 1, "bit_length": 1, "name_prefix": "bin"}}
	bin := base("targets", 2)
	bin["targets"] = J{"binned": entry()}
	mk := func(name, kind, path, role string, s J, ks ...*Key) c18doc {
		return c18doc{name, kind, path, role, signedBy(parseJSON(plainJSON(s)), ks...), ks}
	}
	docs = []c18doc{
		mk("root", "root", "2.root.json", "root", root, rk),
		mk("timestamp", "timestamp", "timestamp.json", "timestamp", ts, tk),
		mk("snapshot", "snapshot", "2.snapshot.json", "snapshot", sn, tk),
		mk("targets", "targets", "2.targets.json", "targets", tg, tk),
		mk("delegated targets", "targets", "2.A.json", "A", da, dk),
		mk("bin 0", "targets", "2.bin-0.json", "bin-0", bin, dk),
	}
	bin1 := mk("bin 1", "targets", "2.bin-1.json", "bin-1", bin, dk)
	dh := base("targets", 2)
	dh["targets"] = J{"in-h": entry()}
	docs = append(docs, bin1, mk("hash prefixes", "targets", "2.H.json", "H", dh, dk))
	return
}

// resign signs the document anew with what the library itself will verify.
func (d c18doc) resign(tree any) ([]byte, bool) {
	m, is := tree.(map[string]any)
	if !is {
		return nil, false
	}
	var l libDoc
	var err error
	if p := guard(func() { l, err = libLoad(d.kind, plainJSON(J{"signed": m["signed"], "signatures": []any{}})) }); p != "" || err != nil {
		return nil, false
	}
	var pay []byte
	if p := guard(func() { pay, err = payloadOf(l) }); p != "" || err != nil {
		return nil, false
	}
	sigs := []any{}
	for _, k := range d.keys {
		sigs = append(sigs, J{"keyid": k.ID, "sig": hexOf(rawSig(k, pay))})
	}
	n := J{}
	for k, v := range m {
		n[k] = v
	}
	n["signatures"] = sigs
	return plainJSON(n), true
}

var c18paths = []string{"top", "in-a", "d/x", "binned", "nowhere", "", "in-h"}

type c18env struct {
	t      *T
	anchor *Doc
	docs   []c18doc
	bytes  map[string][]byte
	good   map[string]libDoc
	dir    string
	n      int
}

func newC18(t *T) *c18env {
	e := &c18env{t: t, bytes: map[string][]byte{}, good: map[string]libDoc{}}
	e.anchor, e.docs = c18world()
	for _, d := range e.docs {
		e.bytes[d.path] = plainJSON(d.tree)
		l, err := libLoad(d.kind, e.bytes[d.path])
		must(err)
		e.good[d.name] = l
	}
	return e
}

func (e *c18env) no(what, p string) {
	if p != "" {
		e.t.Fail("%s: %s", what, p)
	}
}

// load reads b as every role and uses what was read.
func (e *c18env) load(what string, d c18doc, b []byte) {
	for _, kind := range []string{"root", "timestamp", "snapshot", "targets"} {
		var l libDoc
		var err error
		e.t.Trans(1)
		e.no(what+", FromBytes as "+kind, guard(func() { l, err = libLoad(kind, b) }))
		if err != nil {
			e.t.Outcome("refused")
			continue
		}
		e.t.Outcome("read")
		e.no(what+", used as "+kind, guard(func() { c18use(l, e.good) }))
	}
}

// c18use calls every operation of a loaded object.
func c18use(l libDoc, good map[string]libDoc) {
	roles := []string{"root", "timestamp", "snapshot", "targets", "A", "bin-0", "bin-1", "", "x"}
	for _, r := range roles {
		for _, name := range []string{"root", "timestamp", "snapshot", "targets", "delegated targets"} {
			_ = l.VerifyDelegate(r, good[name])
			if r != "bin-1" {
				_ = good[name].VerifyDelegate(r, l)
			}
		}
		_ = l.VerifyDelegate(r, l)
	}
	_, _ = l.ToBytes(true)
	now := time.Now()
	switch m := l.(type) {
	case *MRoot:
		m.Signed.IsExpired(now)
		for _, k := range m.Signed.Keys {
			k.ID()
			_, _ = k.ToPublicKey()
		}
		_ = m.Signed.AddKey(PKey("ed25519", 2).key(), "targets")
		_ = m.Signed.RevokeKey(K("b").ID, "timestamp")
	case *MTS:
		m.Signed.IsExpired(now)
		for _, f := range m.Signed.Meta {
			_ = f.VerifyLengthHashes([]byte("data"))
		}
	case *MSN:
		m.Signed.IsExpired(now)
		for _, f := range m.Signed.Meta {
			_ = f.VerifyLengthHashes([]byte("data"))
		}
	case *MTG:
		m.Signed.IsExpired(now)
		for _, f := range m.Signed.Targets {
			_ = f.VerifyLengthHashes([]byte("data"))
			_ = f.Equal(*f)
		}
		if dl := m.Signed.Delegations; dl != nil {
			for _, p := range c18paths {
				dl.GetRolesForTarget(p)
				for i := range dl.Roles {
					_, _ = dl.Roles[i].IsDelegatedPath(p)
				}
				if dl.SuccinctRoles != nil {
					dl.SuccinctRoles.GetRolesForTarget(p)
					dl.SuccinctRoles.IsDelegatedRole(p)
					dl.SuccinctRoles.IsDelegatedRole("bin-0")
					if dl.SuccinctRoles.BitLength < 12 {
						dl.SuccinctRoles.GetRoles()
					}
				}
			}
			for _, k := range dl.Keys {
				k.ID()
				_, _ = k.ToPublicKey()
			}
			_ = m.Signed.RevokeKey(K("c").ID, "A")
		}
		_ = m.Signed.AddKey(PKey("ed25519", 2).key(), "A")
	}
}

// update runs the trusted set over the repository with one document replaced.
func (e *c18env) update(what string, d c18doc, b []byte) {
	e.t.Trans(1)
	if d.kind == "root" {
		e.no(what+", as the trust anchor", guard(func() {
			if r, err := trustedmetadata.New(b); err == nil {
				_, _ = r.UpdateTimestamp(e.bytes["timestamp.json"])
				_, _ = r.UpdateRoot(e.bytes["2.root.json"])
			}
		}))
	}
	at := func(p string) []byte {
		if p == d.path {
			return b
		}
		return e.bytes[p]
	}
	e.no(what+", in the trusted set", guard(func() {
		r, err := trustedmetadata.New(e.anchor.Bytes)
		must(err)
		if _, err = r.UpdateRoot(at("2.root.json")); err != nil {
			return
		}
		if _, err = r.UpdateTimestamp(at("timestamp.json")); err != nil {
			return
		}
		if d.kind == "timestamp" {
			_, _ = r.UpdateTimestamp(e.bytes["timestamp.json"])
		}
		if _, err = r.UpdateSnapshot(at("2.snapshot.json"), false); err != nil {
			_, _ = r.UpdateTargets(at("2.targets.json"))
			return
		}
		if d.kind == "snapshot" {
			_, _ = r.UpdateSnapshot(e.bytes["2.snapshot.json"], true)
		}
		if _, err = r.UpdateTargets(at("2.targets.json")); err != nil {
			return
		}
		_, _ = r.UpdateDelegatedTargets(at("2.A.json"), "A", "targets")
		_, _ = r.UpdateDelegatedTargets(at("2.bin-0.json"), "bin-0", "A")
		_, _ = r.UpdateDelegatedTargets(at("2.bin-1.json"), "bin-1", "A")
		_, _ = r.UpdateDelegatedTargets(at("2.bin-1.json"), "bin-1", "nobody")
	}))
}

// client runs two sessions: the document is served, then it is what the cache holds.
func (e *c18env) client(what string, d c18doc, b []byte) {
	if e.dir == "" {
		e.dir = e.t.Dir()
	}
	e.n++
	bad := &Doc{Name: "changed " + d.name, Bytes: b}
	reply := func(p string, changed bool) Reply {
		if strings.HasPrefix(p, "targets/") || strings.Contains(p, "/") {
			return Reply{Doc: &Doc{Name: "data", Bytes: []byte("data")}}
		}
		for _, x := range e.docs {
			if p == x.path || (strings.HasSuffix(p, "."+x.role+".json") && x.role != "root") {
				if changed && x.path == d.path {
					return Reply{Doc: bad}
				}
				return Reply{Doc: &Doc{Name: x.name, Bytes: e.bytes[x.path]}}
			}
		}
		return Reply{Err: "404"}
	}
	dir := filepath.Join(e.dir, fmt.Sprint(e.n))
	defer os.RemoveAll(dir)
	md := filepath.Join(dir, "md")
	must(os.MkdirAll(md, 0o755))
	for step, cached := range []bool{false, true} {
		s := what + ", served"
		if cached {
			s = what + ", cached"
			if step > 0 && d.kind != "root" {
				must(os.WriteFile(filepath.Join(md, fileOf(d.role)), b, 0o644))
			}
		}
		e.t.Trans(1)
		e.no(s, guard(func() {
			r, err := newRClient(e.anchor, dir, defCfg(), func(n int, p string) Reply { return reply(p, !cached) })
			if err != nil {
				return
			}
			must(os.MkdirAll(r.Tgt, 0o755))
			r.F.max = 400
			_ = r.Up.Refresh()
			for _, p := range c18paths {
				ti, err := r.Up.GetTargetInfo(p)
				if err == nil && ti != nil {
					_, _, _ = r.Up.FindCachedTarget(ti, "")
					_, _, _ = r.Up.DownloadTarget(ti, "", baseURL+"targets/")
				}
			}
			for _, f := range r.Up.GetTopLevelTargets() {
				_, _, _ = r.Up.DownloadTarget(f, "", baseURL+"targets/")
			}
		}))
	}
	if d.kind == "root" {
		// the changed root as the configured anchor
		e.no(what+", configured", guard(func() {
			r, err := newRClient(bad, filepath.Join(dir, "x"), defCfg(), func(n int, p string) Reply { return reply(p, false) })
			if err == nil {
				_ = r.Up.Refresh()
				_, _ = r.Up.GetTargetInfo("in-a")
			}
		}))
	}
}

// all runs everything on one changed document, with the old signatures and re-signed.
func (e *c18env) all(what string, d c18doc, tree any, sessions bool) {
	e.t.State(d.name + what)
	b := plainJSON(tree)
	e.load(what, d, b)
	e.update(what, d, b)
	if sessions {
		e.client(what, d, b)
	}
	if r, can := d.resign(tree); can {
		what += ", re-signed"
		e.update(what, d, r)
		if sessions {
			e.client(what, d, r)
		}
	}
}

func runC18(c *Ctx) {
	_, docs := c18world()
	c.Case(func() string { return "the repository works" }, func(t *T) {
		e := newC18(t)
		d := docs[0]
		e.all("unchanged", d, d.tree, true)
		r, err := newRClient(e.anchor, t.Dir(), defCfg(), func(n int, p string) Reply {
			if b := e.bytes[p]; b != nil {
				return Reply{Doc: &Doc{Name: p, Bytes: b}}
			}
			return Reply{Err: "404"}
		})
		must(err)
		must(r.Up.Refresh())
		for _, p := range []string{"top", "in-a", "binned"} {
			_, err := r.Up.GetTargetInfo(p)
			if err != nil {
				t.Fail("harness repository: %s: %v", p, err)
			}
		}
	})
	c18keys(c)
	c18types(c, docs)
	c18dups(c, docs)
	vals := c18values()
	for di := range docs[:6] {
		d := docs[di]
		paths := nodePaths(d.tree, nil)
		for pi := range paths {
			p := paths[pi]
			c.Case(func() string { return fmt.Sprintf("%s of the %s changed", pathStr(p), d.name) }, func(t *T) {
				e := newC18(t)
				if len(p) > 0 {
					e.all("without "+pathStr(p), d, delNode(cloneJ(d.tree), p), true)
				}
				for _, v := range vals {
					e.all(fmt.Sprintf("%s = %s", pathStr(p), plainJSON(v)), d, setNode(cloneJ(d.tree), p, cloneJ(v)), true)
				}
				switch x := getNode(d.tree, p).(type) {
				case []any: // repeated elements
					for i := range x {
						n := append(cloneJ(x).([]any), cloneJ(x[i]))
						e.all(fmt.Sprintf("%s with element %d twice", pathStr(p), i), d, setNode(cloneJ(d.tree), p, n), true)
					}
				case map[string]any: // renamed and repeated members
					for _, k := range sortedKeys(x) {
						for _, nk := range []string{"", k + "x", "root.json", "targets.json", "snapshot.json"} {
							n := cloneJ(x).(map[string]any)
							n[nk] = n[k]
							if nk != k {
								delete(n, k)
							}
							e.all(fmt.Sprintf("%s with %q named %q", pathStr(p), k, nk), d, setNode(cloneJ(d.tree), p, n), true)
						}
					}
				}
			})
		}
		// pairs
		if c.Thorough() {
			for pi := range paths {
				p := paths[pi]
				c.Case(func() string { return fmt.Sprintf("pairs with %s of the %s", pathStr(p), d.name) }, func(t *T) {
					e := newC18(t)
					for _, q := range paths[pi+1:] {
						if len(q) >= len(p) && pathStr(q[:len(p)]) == pathStr(p) {
							continue
						}
						for i, v := range c18few {
							for j, w := range c18few {
								x := cloneJ(d.tree)
								// the later node first: removing an element of a list moves the ones behind it
								for k, y := range []any{w, v} {
									at := [][]any{q, p}[k]
									if y == "delete" {
										x = delNode(x, at)
									} else {
										x = setNode(x, at, cloneJ(y))
									}
								}
								e.t.State(fmt.Sprint(d.name, pathStr(p), pathStr(q), i, j))
								what := fmt.Sprintf("%s %v and %s %v", pathStr(p), v, pathStr(q), w)
								if b, can := d.resign(x); can {
									e.update(what, d, b)
									if (i+j)%4 == 0 {
										e.client(what, d, b)
									}
								} else {
									b := plainJSON(x)
									e.no(what, guard(func() { _, _ = libLoad(d.kind, b) }))
									e.t.Trans(1)
								}
							}
						}
					}
				})
			}
		}
	}
	// the library's other complete documents: loading and using only
	for _, fd := range fullDocs() {
		d := c18doc{name: fd.name, kind: fd.kind, path: "none", tree: parseJSON(plainJSON(signedBy(fd.signed, K("a"), K("b"), K("c")))).(map[string]any), keys: Ks("a", "b", "c")}
		paths := nodePaths(d.tree, nil)
		for pi := range paths {
			p := paths[pi]
			c.Case(func() string { return fmt.Sprintf("%s of the complete %s changed", pathStr(p), d.name) }, func(t *T) {
				e := newC18(t)
				if len(p) > 0 {
					e.load("without "+pathStr(p), d, plainJSON(delNode(cloneJ(d.tree), p)))
				}
				for _, v := range vals {
					what := fmt.Sprintf("%s = %s", pathStr(p), plainJSON(v))
					t.State(d.name + what)
					e.load(what, d, plainJSON(setNode(cloneJ(d.tree), p, cloneJ(v))))
				}
			})
		}
	}
	// bytes
	for di := range docs[:6] {
		d := docs[di]
		b := plainJSON(d.tree)
		c.Case(func() string { return "the " + d.name + " cut short" }, func(t *T) {
			e := newC18(t)
			for n := 0; n <= len(b); n++ {
				t.State(fmt.Sprint(d.name, n))
				t.Trans(1)
				var err error
				e.no(fmt.Sprintf("%s cut to %d bytes", d.name, n), guard(func() { _, err = libLoad(d.kind, b[:n]) }))
				if err == nil && n < len(b) {
					t.Fail("the %s is accepted although cut to %d of %d bytes", d.name, n, len(b))
				}
				e.update(fmt.Sprintf("cut to %d bytes", n), d, b[:n])
				if n%16 == 0 || c.Thorough() {
					e.client(fmt.Sprintf("cut to %d bytes", n), d, b[:n])
				}
			}
		})
		for _, ch := range []byte{'"', '{', '}', '[', ']', ',', ':', '0', '-', 'e', '\\', 0, 0xff, ' '} {
			c.Case(func() string { return fmt.Sprintf("a byte of the %s becomes %q", d.name, ch) }, func(t *T) {
				e := newC18(t)
				for n := range b {
					x := append([]byte{}, b...)
					if x[n] == ch {
						continue
					}
					x[n] = ch
					t.State(fmt.Sprint(d.name, n, ch))
					if c.Thorough() {
						e.load(fmt.Sprintf("byte %d = %q", n, ch), d, x)
					}
					e.update(fmt.Sprintf("byte %d = %q", n, ch), d, x)
				}
			})
		}
		c.Case(func() string { return "odd bytes instead of the " + d.name }, func(t *T) {
			e := newC18(t)
			rep := strings.Repeat
			for i, s := range []string{"", " ", "null", "true", "1", `""`, `"x"`, "[]", "{}", "[{}]", "{} {}", "\ufeff{}", "{", "}", "\x00", "nul", "{\"signed\":", rep("[", 100), rep("[", 9000), rep("[", 200000), rep("{\"a\":", 200000), rep("[", 9000) + rep("]", 9000),
				`{"signed":` + rep("[", 9000) + rep("]", 9000) + `}`, `{"signed":{"_type":"` + d.kind + `","x":` + rep("[", 9000) + rep("]", 9000) + `}}`, `{"signed":{"_type":"` + d.kind + `"}}`, `{"signed":{"_type":"` + d.kind + `"},"signatures":[]}`,
				`{"signed":{"_type":"` + d.kind + `"},"signatures":null}`, `{"signed":null,"signed":{"_type":"` + d.kind + `"}}`, `{"signed":{"_type":"` + d.kind + `"},"signed":null,"signatures":[]}`, `{"SIGNED":{"_type":"` + d.kind + `"},"signatures":[]}`,
				string(b) + string(b), string(b) + "x", "[" + string(b) + "]", `{"signed":` + string(b) + `,"signatures":[]}`, "\"" + rep("a", 1<<20) + "\"", rep("9", 100000), "-" + rep("9", 100000), "1e" + rep("9", 100000)} {
				t.State(fmt.Sprint(d.name, i))
				e.load(fmt.Sprintf("odd bytes %d", i), d, []byte(s))
				e.update(fmt.Sprintf("odd bytes %d", i), d, []byte(s))
				e.client(fmt.Sprintf("odd bytes %d", i), d, []byte(s))
			}
		})
	}
}

// c18types: metadata of another type is always refused.
func c18types(c *Ctx, docs []c18doc) {
	kinds := []string{"root", "timestamp", "snapshot", "targets"}
	for di := range docs[:6] {
		d := docs[di]
		c.Case(func() string { return "the " + d.name + " under other types" }, func(t *T) {
			e := newC18(t)
			dir := t.Dir()
			for _, ty := range []any{"root", "timestamp", "snapshot", "targets", "Root", "ROOT", "root ", " root", "Targets", "targets\u0000", "", "mirrors", "A", nil, true, json.Number("0"), []any{d.kind}, J{d.kind: true}} {
				tree := setNode(cloneJ(d.tree), []any{"signed", "_type"}, ty)
				for mode := 0; mode < 3; mode++ {
					var b []byte
					switch mode {
					case 0:
						b = plainJSON(tree)
					case 1: // signed for what it is
						b = plainJSON(signedBy(getNode(tree, []any{"signed"}), d.keys...))
					case 2:
						b, _ = json.MarshalIndent(tree, "", " ")
					}
					f := filepath.Join(dir, "f.json")
					must(os.WriteFile(f, b, 0o644))
					for _, as := range kinds {
						t.Trans(2)
						t.State(fmt.Sprint(d.name, ty, mode, as))
						var e1, e2 error
						e.no("reading", guard(func() { _, e1 = libLoad(as, b) }))
						e.no("reading", guard(func() { _, e2 = libFile(as, f) }))
						if ty != as {
							if e1 == nil || e2 == nil {
								t.Fail("%s with type %v is read as %s: from bytes %v, from a file %v", d.name, ty, as, e1, e2)
							}
						} else if as == d.kind && (e1 != nil || e2 != nil) {
							t.Fail("%s is refused: %v, %v", d.name, e1, e2)
						}
					}
					if ty == d.kind {
						continue
					}
					// in the trusted set: nothing of the wrong type is accepted
					r, err := trustedmetadata.New(e.anchor.Bytes)
					must(err)
					up := map[string]func([]byte) error{
						"2.root.json":     func(b []byte) error { _, err := r.UpdateRoot(b); return err },
						"timestamp.json":  func(b []byte) error { _, err := r.UpdateTimestamp(b); return err },
						"2.snapshot.json": func(b []byte) error { _, err := r.UpdateSnapshot(b, mode == 2); return err },
						"2.targets.json":  func(b []byte) error { _, err := r.UpdateTargets(b); return err },
						"2.A.json":        func(b []byte) error { _, err := r.UpdateDelegatedTargets(b, "A", "targets"); return err },
						"2.bin-0.json":    func(b []byte) error { _, err := r.UpdateDelegatedTargets(b, "bin-0", "A"); return err },
					}
					for _, x := range docs[:6] {
						var err error
						if x.path == d.path {
							e.no("updating", guard(func() { err = up[x.path](b) }))
							if err == nil {
								t.Fail("%s with type %v is accepted by the trusted set", d.name, ty)
							}
						}
						must(up[x.path](e.bytes[x.path]))
					}
				}
			}
		})
	}
}

// c18dups: two signatures under one key ID are always refused.
func c18dups(c *Ctx, docs []c18doc) {
	for di := range docs[:6] {
		d := docs[di]
		c.Case(func() string { return "duplicate signatures on the " + d.name }, func(t *T) {
			e := newC18(t)
			dir := t.Dir()
			good := d.tree["signatures"].([]any)[0].(J)
			id := good["keyid"].(string)
			sig := func(id, s string) J { return J{"keyid": id, "sig": s} }
			gs := good["sig"].(string)
			o1, o2 := sig("other1", "01"), sig("other2", "02")
			var lists [][]any
			for _, pair := range [][2]J{{sig(id, gs), sig(id, gs)}, {sig(id, gs), sig(id, "00")}, {sig(id, "00"), sig(id, gs)}, {sig(id, gs), sig(id, "")}, {sig("dup", "00"), sig("dup", "00")}, {sig("dup", "00"), sig("dup", "01")}, {sig("", ""), sig("", "00")},
				{sig("dup", "00"), J{"keyid": "dup", "sig": "01", "x": 1}}} {
				a, b := pair[0], pair[1]
				for _, l := range [][]any{{a, b}, {a, o1, b}, {o1, a, b}, {a, b, o1}, {a, o1, o2, b}, {o1, a, o2, b}, {a, o1, b, o2}, {a, b, a}, {o1, a, b, o2}, {a, o1, b, a}} {
					l := append([]any{}, l...)
					lists = append(lists, l)
					if a["keyid"] != id {
						lists = append(lists, append(append([]any{}, l...), good), append([]any{good}, l...))
					}
				}
			}
			for li, l := range lists {
				for enc := 0; enc < 3; enc++ {
					b := plainJSON(J{"signed": d.tree["signed"], "signatures": l})
					switch enc {
					case 1:
						b, _ = json.MarshalIndent(J{"signed": d.tree["signed"], "signatures": l}, "", "\t")
					case 2: // written with escapes
						b = []byte(strings.Replace(string(b), `"keyid":"`+id[:1], fmt.Sprintf(`"keyid":"\u%04x`, id[0]), 1))
					}
					f := filepath.Join(dir, "f.json")
					must(os.WriteFile(f, b, 0o644))
					t.Trans(2)
					t.State(fmt.Sprint(d.name, li, enc))
					var e1, e2 error
					e.no("reading", guard(func() { _, e1 = libLoad(d.kind, b) }))
					e.no("reading", guard(func() { _, e2 = libFile(d.kind, f) }))
					if e1 == nil || e2 == nil {
						t.Fail("%s with duplicate signatures is read: %s", d.name, plainJSON(l))
					}
					if enc > 0 {
						continue
					}
					r, err := trustedmetadata.New(e.anchor.Bytes)
					must(err)
					for _, x := range docs[:6] {
						up := func(b []byte) error {
							var err error
							switch x.name {
							case "root":
								_, err = r.UpdateRoot(b)
							case "timestamp":
								_, err = r.UpdateTimestamp(b)
							case "snapshot":
								_, err = r.UpdateSnapshot(b, false)
							case "targets":
								_, err = r.UpdateTargets(b)
							case "delegated targets":
								_, err = r.UpdateDelegatedTargets(b, "A", "targets")
							default:
								_, err = r.UpdateDelegatedTargets(b, "bin-0", "A")
							}
							return err
						}
						if x.path == d.path {
							if up(b) == nil {
								t.Fail("%s with duplicate signatures is accepted by the trusted set: %s", d.name, plainJSON(l))
							}
							if d.kind == "root" {
								if _, err := trustedmetadata.New(b); err == nil {
									t.Fail("a trust anchor with duplicate signatures is accepted: %s", plainJSON(l))
								}
							}
						}
						must(up(e.bytes[x.path]))
					}
				}
			}
		})
	}
}

// c18keys: keys of every type, scheme and material, used to verify signatures of every kind.
func c18keys(c *Ctx) {
	pemB := func(ty string, b []byte) string { return string(pem.EncodeToMemory(&pem.Block{Type: ty, Bytes: b})) }
	pk := func(pub any) string {
		b, err := x509.MarshalPKIXPublicKey(pub)
		must(err)
		return pemB("PUBLIC KEY", b)
	}
	edp := ed25519.NewKeyFromSeed([]byte(strings.Repeat("s", 32)))
	p384 := ecdsaKey(elliptic.P384(), []byte(strings.Repeat("seed", 40)))
	p521 := ecdsaKey(elliptic.P521(), []byte(strings.Repeat("seed", 40)))
	p224 := ecdsaKey(elliptic.P224(), []byte(strings.Repeat("seed", 40)))
	rsak := PKey("rsa", 0).Priv.(*rsa.PrivateKey)
	good := func(k string) string { return PKey(k, 0).Obj["keyval"].(J)["public"].(string) }
	rsaSmall := func(n int64, e int) string {
		return pemB("PUBLIC KEY", func() []byte {
			b, err := x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: big.NewInt(n), E: e})
			if err != nil {
				return []byte("none")
			}
			return b
		}())
	}
	ecb, _ := x509.MarshalPKIXPublicKey(&PKey("ecdsa", 0).Priv.(*ecdsa.PrivateKey).PublicKey)
	off := append([]byte{}, ecb...)
	off[len(off)-1] ^= 1
	inf := append([]byte{}, ecb...)
	for i := len(inf) - 64; i < len(inf); i++ {
		inf[i] = 0
	}
	privPem, _ := x509.MarshalPKCS8PrivateKey(edp)
	mats := []struct {
		name string
		v    any
	}{
		{"ed25519", good("ed25519")}, {"ecdsa", good("ecdsa")}, {"rsa", good("rsa")}, {"ed25519 in PEM", pk(edp.Public())}, {"P-224", pk(&p224.PublicKey)}, {"P-384", pk(&p384.PublicKey)}, {"P-521", pk(&p521.PublicKey)},
		{"PKCS#1", pemB("RSA PUBLIC KEY", x509.MarshalPKCS1PublicKey(&rsak.PublicKey))}, {"PKCS#1 in PKIX frame", pemB("PUBLIC KEY", x509.MarshalPKCS1PublicKey(&rsak.PublicKey))}, {"private key", pemB("PRIVATE KEY", privPem)}, {"certificate frame", pemB("CERTIFICATE", ecb)}, {"empty PEM", pemB("PUBLIC KEY", nil)}, {"junk PEM", pemB("PUBLIC KEY", []byte("junk"))},
		{"PEM and more", good("rsa") + "more"}, {"two PEMs", good("ecdsa") + good("rsa")}, {"cut PEM", good("rsa")[:100]}, {"off the curve", pemB("PUBLIC KEY", off)}, {"zero point", pemB("PUBLIC KEY", inf)},
		{"RSA modulus 1", rsaSmall(1, 3)}, {"RSA modulus 0", rsaSmall(0, 3)}, {"RSA modulus 15", rsaSmall(15, 3)}, {"RSA even", rsaSmall(65536, 3)}, {"RSA exponent 1", pk(&rsa.PublicKey{N: rsak.N, E: 1})}, {"RSA exponent 2", pk(&rsa.PublicKey{N: rsak.N, E: 2})}, {"RSA negative", rsaSmall(-5, 3)},
		{"empty", ""}, {"one byte", "00"}, {"31 bytes", good("ed25519")[:62]}, {"33 bytes", good("ed25519") + "00"}, {"odd digits", good("ed25519")[:63]}, {"zeros", strings.Repeat("00", 32)}, {"ones", strings.Repeat("ff", 32)}, {"not hexadecimal", strings.Repeat("zz", 32)}, {"upper case", strings.ToUpper(good("ed25519"))},
		{"null", nil}, {"number", json.Number("1")}, {"object", J{"public": good("ed25519")}}, {"list", []any{good("ed25519")}}, {"absent", "absent"},
	}
	types := []string{"ed25519", "ecdsa", "rsa", "ecdsa-sha2-nistp256", "RSA", "", "unknown"}
	schemes := []string{"ed25519", "ecdsa-sha2-nistp256", "rsassa-pss-sha256", "", "unknown"}
	var sigs []any
	for _, k := range []string{"ed25519", "ecdsa", "rsa"} {
		sigs = append(sigs, "by "+k)
	}
	sigs = append(sigs, "", "00", strings.Repeat("00", 64), strings.Repeat("ff", 64), strings.Repeat("00", 256), strings.Repeat("ff", 256), strings.Repeat("ab", 4096), "3000", "30060201000201", "3006020100020100", "30060201ff0201ff", "0x", "zz", "0")
	for _, ty := range types {
		for _, sc := range schemes {
			c.Case(func() string { return fmt.Sprintf("keys of type %q, scheme %q", ty, sc) }, func(t *T) {
				for _, m := range mats {
					kv := J{"public": m.v}
					if m.v == "absent" {
						kv = J{}
					}
					obj := J{"keytype": ty, "scheme": sc, "keyval": kv}
					ks := sha256hex([]byte(m.name))
					signed := J{"_type": "root", "spec_version": "1.0.31", "version": 1, "expires": expValid, "consistent_snapshot": false, "keys": J{ks: obj}, "roles": J{}}
					for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
						signed["roles"].(J)[r] = J{"keyids": []any{ks}, "threshold": 1}
					}
					var pay []byte
					if l, err := libLoad("root", plainJSON(J{"signed": signed, "signatures": []any{}})); err == nil {
						pay, _ = payloadOf(l)
					}
					for _, s := range sigs {
						t.State(ty + sc + m.name + fmt.Sprint(s))
						sg := fmt.Sprint(s)
						if k, by := strings.CutPrefix(sg, "by "); by {
							sb, err := PKey(k, 0).signer().SignMessage(strings.NewReader(string(pay)))
							must(err)
							sg = hexOf(sb)
						}
						b := plainJSON(J{"signed": signed, "signatures": []any{J{"keyid": ks, "sig": sg}}})
						t.Trans(1)
						var err error
						if p := guard(func() { _, err = trustedmetadata.New(b) }); p != "" {
							t.Fail("a root with a key of type %q, scheme %q, material %q and signature %.20s: %s", ty, sc, m.name, sg, p)
						}
						t.Outcome(fmt.Sprint("accepted=", err == nil))
						if s == sigs[0] {
							if l, err := libLoad("root", b); err == nil {
								if p := guard(func() {
									for _, k := range l.(*MRoot).Signed.Keys {
										_ = k.ID()
										_, _ = k.ToPublicKey()
									}
								}); p != "" {
									t.Fail("key of type %q, scheme %q, material %q: %s", ty, sc, m.name, p)
								}
							}
						}
					}
				}
			})
		}
	}
}
