package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/repository"
)

func init() {
	register(&Check{ID: "C31", Run: runC31, QuickSec: 120, ThoroughSec: 840,
		Rule: "every sequence of operations up to the depth over two documents of each role (creating, changing fields and entries, adding and revoking keys, signing, clearing signatures, verifying, encoding, and reading the other's bytes or file, with the buffers overwritten afterwards, and unreadable bytes), each document compared with its own content model after every step; every sequence of storing and fetching over two repository stores, with the stored documents changed in between; default contents of fresh documents",
	})
}

var c31exp = []time.Time{time.Date(2031, 2, 3, 4, 5, 6, 0, time.UTC), time.Date(2042, 7, 8, 9, 10, 11, 0, time.UTC)}

// c31world is two real documents of one role and the model of their contents.
type c31world struct {
	kind string
	dir  string
	doc  [2]libDoc
	tree [2]J
	seen [2][]byte // the real encoding last seen
}

type c31op struct {
	name string
	// do works on slot s; it returns what went wrong
	do func(w *c31world, s int) string
}

func c31fresh(kind string, exp string) J {
	signed := J{"_type": kind, "spec_version": metadata.SPECIFICATION_VERSION, "version": 1, "expires": exp}
	switch kind {
	case "root":
		roles := J{}
		for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
			roles[r] = J{"keyids": []any{}, "threshold": 1}
		}
		signed["roles"], signed["keys"], signed["consistent_snapshot"] = roles, J{}, true
	case "timestamp":
		signed["meta"] = J{"snapshot.json": J{"version": 1}}
	case "snapshot":
		signed["meta"] = J{"targets.json": J{"version": 1}}
	case "targets":
		signed["targets"] = J{}
	}
	return J{"signed": signed, "signatures": []any{}}
}

func c31make(kind string, exp ...time.Time) libDoc {
	switch kind {
	case "root":
		return metadata.Root(exp...)
	case "timestamp":
		return metadata.Timestamp(exp...)
	case "snapshot":
		return metadata.Snapshot(exp...)
	}
	return metadata.Targets(exp...)
}

// c31read reads b into the existing document d.
func c31read(d libDoc, b []byte, file string) (err error) {
	switch m := d.(type) {
	case *MRoot:
		if file != "" {
			_, err = m.FromFile(file)
		} else {
			_, err = m.FromBytes(b)
		}
	case *MTS:
		if file != "" {
			_, err = m.FromFile(file)
		} else {
			_, err = m.FromBytes(b)
		}
	case *MSN:
		if file != "" {
			_, err = m.FromFile(file)
		} else {
			_, err = m.FromBytes(b)
		}
	case *MTG:
		if file != "" {
			_, err = m.FromFile(file)
		} else {
			_, err = m.FromBytes(b)
		}
	}
	return err
}

func c31signed(t J) J { return t["signed"].(J) }

// c31unique tells whether no two signatures name the same key.
func c31unique(t J) bool {
	ids := map[string]bool{}
	for _, s := range t["signatures"].([]any) {
		id := s.(J)["keyid"].(string)
		if ids[id] {
			return false
		}
		ids[id] = true
	}
	return true
}

func expect(err error, ok bool) string {
	if ok && err != nil {
		return "failed: " + err.Error()
	}
	if !ok && err == nil {
		return "succeeded"
	}
	return ""
}

func c31ops(kind string) (ops []c31op) {
	add := func(name string, do func(w *c31world, s int) string) { ops = append(ops, c31op{name, do}) }
	keys := []*PK{PKey("ed25519", 1), PKey("ed25519", 2)}
	for i := range c31exp {
		i := i
		add(fmt.Sprintf("create anew (expiry %d)", i+1), func(w *c31world, s int) string {
			w.doc[s] = c31make(kind, c31exp[i])
			w.tree[s] = c31fresh(kind, c31exp[i].Format(time.RFC3339))
			return ""
		})
	}
	add("set version 7", func(w *c31world, s int) string {
		switch m := w.doc[s].(type) {
		case *MRoot:
			m.Signed.Version = 7
		case *MTS:
			m.Signed.Version = 7
		case *MSN:
			m.Signed.Version = 7
		case *MTG:
			m.Signed.Version = 7
		}
		c31signed(w.tree[s])["version"] = 7
		return ""
	})
	for i, k := range keys {
		k := k
		add(fmt.Sprintf("sign with k%d", i+1), func(w *c31world, s int) string {
			sig, err := w.doc[s].Sign(k.signer())
			if err != nil {
				return "failed: " + err.Error()
			}
			want := ed25519.Sign(k.Priv.(ed25519.PrivateKey), canon(c31signed(w.tree[s])))
			if sig == nil || sig.KeyID != k.ID || !bytes.Equal(sig.Signature, want) {
				return "returned a signature that is not the key's signature of this document"
			}
			w.tree[s]["signatures"] = append(append([]any{}, w.tree[s]["signatures"].([]any)...), J{"keyid": k.ID, "sig": hexOf(want)})
			// the returned value is the caller's
			sig.KeyID = "changed"
			return ""
		})
	}
	add("clear signatures", func(w *c31world, s int) string {
		w.doc[s].ClearSignatures()
		w.tree[s]["signatures"] = []any{}
		return ""
	})
	add("read the other's bytes", func(w *c31world, s int) string {
		b, err := w.doc[1-s].ToBytes(s == 0)
		if err != nil {
			return "encoding failed: " + err.Error()
		}
		ok := c31unique(w.tree[1-s])
		err = c31read(w.doc[s], b, "")
		for i := range b {
			b[i] = '#'
		}
		if ok {
			w.tree[s] = cloneJ(w.tree[1-s]).(J)
		}
		return expect(err, ok)
	})
	add("read the other's file", func(w *c31world, s int) string {
		f := filepath.Join(w.dir, "doc.json")
		if err := w.doc[1-s].ToFile(f, s == 1); err != nil {
			return "writing failed: " + err.Error()
		}
		ok := c31unique(w.tree[1-s])
		err := c31read(w.doc[s], nil, f)
		must(os.Remove(f))
		if ok {
			w.tree[s] = cloneJ(w.tree[1-s]).(J)
		}
		return expect(err, ok)
	})
	otherKind := map[string]string{"root": "targets", "targets": "snapshot", "snapshot": "timestamp", "timestamp": "root"}[kind]
	add("read what is no document of the role", func(w *c31world, s int) string {
		wrong := c31fresh(otherKind, c31exp[0].Format(time.RFC3339))
		half := cloneJ(c31fresh(kind, c31exp[0].Format(time.RFC3339))).(J)
		c31signed(half)["version"] = "many"
		twice := c31fresh(kind, c31exp[0].Format(time.RFC3339))
		twice["signatures"] = []any{J{"keyid": "a", "sig": "00"}, J{"keyid": "a", "sig": "01"}}
		for _, b := range [][]byte{plainJSON(wrong), plainJSON(half), plainJSON(twice), []byte("{"), nil} {
			if err := c31read(w.doc[s], b, ""); err == nil {
				return fmt.Sprintf("accepted %q", b)
			}
		}
		if err := c31read(w.doc[s], nil, filepath.Join(w.dir, "nothing")); err == nil {
			return "read a file that is not there"
		}
		return ""
	})
	add("encode and overwrite", func(w *c31world, s int) string {
		for _, pretty := range []bool{false, true} {
			b, err := w.doc[s].ToBytes(pretty)
			if err != nil {
				return "failed: " + err.Error()
			}
			for i := range b {
				b[i] = '#'
			}
		}
		return ""
	})
	add("set an own field", func(w *c31world, s int) string {
		set := func(m *map[string]any) {
			if *m == nil {
				*m = map[string]any{}
			}
			(*m)["own"] = "x"
		}
		switch m := w.doc[s].(type) {
		case *MRoot:
			set(&m.Signed.UnrecognizedFields)
		case *MTS:
			set(&m.Signed.UnrecognizedFields)
		case *MSN:
			set(&m.Signed.UnrecognizedFields)
		case *MTG:
			set(&m.Signed.UnrecognizedFields)
		}
		c31signed(w.tree[s])["own"] = "x"
		return ""
	})
	add("set a field beside the signed part", func(w *c31world, s int) string {
		u := map[string]any{"beside": "y"}
		switch m := w.doc[s].(type) {
		case *MRoot:
			m.UnrecognizedFields = u
		case *MTS:
			m.UnrecognizedFields = u
		case *MSN:
			m.UnrecognizedFields = u
		case *MTG:
			m.UnrecognizedFields = u
		}
		w.tree[s]["beside"] = "y"
		return ""
	})
	switch kind {
	case "root":
		for _, a := range []struct {
			k    int
			role string
		}{{0, "root"}, {1, "timestamp"}} {
			a := a
			add(fmt.Sprintf("AddKey(k%d, %s)", a.k+1, a.role), func(w *c31world, s int) string {
				k := keys[a.k]
				err := w.doc[s].(*MRoot).Signed.AddKey(k.key(), a.role)
				sg := c31signed(w.tree[s])
				r := sg["roles"].(J)[a.role].(J)
				l := r["keyids"].([]any)
				for _, x := range l {
					if x == k.ID {
						return expect(err, true)
					}
				}
				r["keyids"] = append(append([]any{}, l...), k.ID)
				sg["keys"].(J)[k.ID] = cloneJ(k.Obj)
				return expect(err, true)
			})
		}
		add("RevokeKey(k1, root)", func(w *c31world, s int) string {
			k := keys[0]
			err := w.doc[s].(*MRoot).Signed.RevokeKey(k.ID, "root")
			sg := c31signed(w.tree[s])
			r := sg["roles"].(J)["root"].(J)
			n := []any{}
			for _, x := range r["keyids"].([]any) {
				if x != k.ID {
					n = append(n, x)
				}
			}
			had := len(n) != len(r["keyids"].([]any))
			r["keyids"] = n
			if had {
				delete(sg["keys"].(J), k.ID)
			}
			return expect(err, had)
		})
		add("set a threshold", func(w *c31world, s int) string {
			w.doc[s].(*MRoot).Signed.Roles["snapshot"].Threshold = 3
			c31signed(w.tree[s])["roles"].(J)["snapshot"].(J)["threshold"] = 3
			return ""
		})
		add("verify the other", func(w *c31world, s int) string {
			_ = w.doc[s].VerifyDelegate("root", w.doc[1-s])
			return ""
		})
	case "snapshot", "timestamp":
		name := map[string]string{"snapshot": "targets.json", "timestamp": "snapshot.json"}[kind]
		meta := func(d libDoc) map[string]*metadata.MetaFiles {
			if m, is := d.(*MSN); is {
				return m.Signed.Meta
			}
			return d.(*MTS).Signed.Meta
		}
		add("set the version of "+name, func(w *c31world, s int) string {
			meta(w.doc[s])[name].Version = 5
			c31signed(w.tree[s])["meta"].(J)[name].(J)["version"] = 5
			return ""
		})
		add("describe "+name, func(w *c31world, s int) string {
			tf, err := metadata.TargetFile().FromBytes("x", []byte("content"))
			if err != nil {
				return err.Error()
			}
			e := meta(w.doc[s])[name]
			e.Length, e.Hashes = tf.Length, tf.Hashes
			x := c31signed(w.tree[s])["meta"].(J)[name].(J)
			x["length"], x["hashes"] = 7, J{"sha256": sha256hex([]byte("content"))}
			return ""
		})
		add("add a role", func(w *c31world, s int) string {
			meta(w.doc[s])["r.json"] = metadata.MetaFile(int64(2 + s))
			c31signed(w.tree[s])["meta"].(J)["r.json"] = J{"version": 2 + s}
			return ""
		})
		add("put an entry of its own for "+name, func(w *c31world, s int) string {
			m := metadata.MetaFile(0)
			m.Hashes["sha256"] = metadata.HexBytes{1, 2}
			meta(w.doc[s])[name] = m
			c31signed(w.tree[s])["meta"].(J)[name] = J{"version": 1, "hashes": J{"sha256": "0102"}}
			return ""
		})
	case "targets":
		tgs := func(w *c31world, s int) (*metadata.TargetsType, J) {
			return &w.doc[s].(*MTG).Signed, c31signed(w.tree[s])
		}
		for _, x := range []struct{ path, data string }{{"a", "first"}, {"a", "other data"}, {"d/b", "first"}} {
			x := x
			add(fmt.Sprintf("list %q as %q", x.path, x.data), func(w *c31world, s int) string {
				m, sg := tgs(w, s)
				b := []byte(x.data)
				tf, err := metadata.TargetFile().FromBytes(x.path, b, "sha512", "sha256")
				if err != nil {
					return err.Error()
				}
				for i := range b {
					b[i] = '#'
				}
				m.Targets[x.path] = tf
				sg["targets"].(J)[x.path] = J{"length": len(x.data), "hashes": J{"sha256": sha256hex([]byte(x.data)), "sha512": sha512hex([]byte(x.data))}}
				return ""
			})
		}
		add("lengthen a", func(w *c31world, s int) string {
			m, sg := tgs(w, s)
			if m.Targets["a"] != nil {
				m.Targets["a"].Length = 999
				sg["targets"].(J)["a"].(J)["length"] = 999
			}
			return ""
		})
		add("delegate", func(w *c31world, s int) string {
			m, sg := tgs(w, s)
			m.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{{Name: "r", KeyIDs: []string{}, Threshold: 1, Paths: []string{"d/*"}}}}
			sg["delegations"] = J{"keys": J{}, "roles": []any{J{"name": "r", "keyids": []any{}, "threshold": 1, "terminating": false, "paths": []any{"d/*"}}}}
			return ""
		})
		role := func(sg J) J {
			if d, is := sg["delegations"].(J); is {
				return d["roles"].([]any)[0].(J)
			}
			return nil
		}
		add("AddKey(k1, r)", func(w *c31world, s int) string {
			m, sg := tgs(w, s)
			k := keys[0]
			err := m.AddKey(k.key(), "r")
			r := role(sg)
			if r != nil {
				r["keyids"] = []any{k.ID}
				sg["delegations"].(J)["keys"].(J)[k.ID] = cloneJ(k.Obj)
			}
			return expect(err, r != nil)
		})
		add("RevokeKey(k1, r)", func(w *c31world, s int) string {
			m, sg := tgs(w, s)
			k := keys[0]
			err := m.RevokeKey(k.ID, "r")
			r := role(sg)
			had := r != nil && len(r["keyids"].([]any)) > 0
			if had {
				r["keyids"] = []any{}
				delete(sg["delegations"].(J)["keys"].(J), k.ID)
			}
			return expect(err, had)
		})
	}
	return ops
}

// check compares both documents with their models; changed is the slot the last step worked on.
func (w *c31world) check(changed int) string {
	for s := range w.doc {
		b, err := w.doc[s].ToBytes(false)
		if err != nil {
			return fmt.Sprintf("document %d cannot be encoded: %v", s+1, err)
		}
		if s != changed && w.seen[s] != nil {
			if !bytes.Equal(b, w.seen[s]) {
				return fmt.Sprintf("document %d changed although nothing was done to it: %s", s+1, diffJSON(c31norm(w.seen[s]), c31norm(b), ""))
			}
			continue
		}
		w.seen[s] = b
		got, err := readJSON(b)
		if err != nil {
			return fmt.Sprintf("document %d is encoded as no JSON: %v", s+1, err)
		}
		want := c31norm(plainJSON(w.tree[s]))
		if !sameJSON(want, got) {
			return fmt.Sprintf("document %d is not what was put into it: %s", s+1, diffJSON(want, got, ""))
		}
	}
	return ""
}

func c31norm(b []byte) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return string(b)
	}
	return v
}

func runC31(c *Ctx) {
	for _, kind := range []string{"root", "timestamp", "snapshot", "targets"} {
		kind := kind
		c.Case(func() string { return "fresh " + kind }, func(t *T) { c31default(t, kind) })
	}
	c.Case(func() string { return "fresh entries" }, func(t *T) {
		for _, v := range []int64{-1 << 63, -1, 0, 1, 2, 1<<63 - 1} {
			a, b := metadata.MetaFile(v), metadata.MetaFile(v)
			want := v
			if v < 1 {
				want = 1
			}
			if a.Version != want || a.Length != 0 || len(a.Hashes) != 0 {
				t.Fail("MetaFile(%d) is %+v", v, *a)
			}
			a.Hashes["sha256"] = metadata.HexBytes{1}
			if len(b.Hashes) != 0 {
				t.Fail("two fresh MetaFiles share their hashes")
			}
			t.Trans(2)
		}
		a, b := metadata.TargetFile(), metadata.TargetFile()
		if a.Length != 0 || len(a.Hashes) != 0 || a.Path != "" || a.Custom != nil {
			t.Fail("a fresh TargetFile is %+v", *a)
		}
		a.Hashes["sha256"] = metadata.HexBytes{1}
		if len(b.Hashes) != 0 {
			t.Fail("two fresh TargetFiles share their hashes")
		}
	})
	depth := Pick(c, 3, 4)
	for _, kind := range []string{"root", "timestamp", "snapshot", "targets"} {
		kind := kind
		ops := c31ops(kind)
		step := func(i int) (c31op, int) { return ops[i/2], i % 2 }
		n := 2 * len(ops)
		// the documents are alike at the start, so that the first step can be on the first one
		for a := 0; a < n; a += 2 {
			for b := 0; b < n; b++ {
				a, b := a, b
				c.Case(func() string {
					x, _ := step(a)
					y, s := step(b)
					return fmt.Sprintf("%s: %s on 1; %s on %d; and %d more steps", kind, x.name, y.name, s+1, depth-2)
				}, func(t *T) {
					dir := t.Dir()
					m := 1
					for k := 2; k < depth; k++ {
						m *= n
					}
					for q := 0; q < m; q++ {
						t.Reset()
						w := &c31world{kind: kind, dir: dir}
						for s := range w.doc {
							w.doc[s] = c31make(kind, c31exp[0])
							w.tree[s] = c31fresh(kind, c31exp[0].Format(time.RFC3339))
						}
						run := func(i int) {
							o, s := step(i)
							t.Log("%s on %d", o.name, s+1)
							if bad := o.do(w, s); bad != "" {
								t.Fail("%s document: %s on %d %s", kind, o.name, s+1, bad)
							}
							if bad := w.check(s); bad != "" {
								t.Fail("%s document: after %s on %d, %s", kind, o.name, s+1, bad)
							}
						}
						run(a)
						run(b)
						for k, r := 2, q; k < depth; k++ {
							run(r % n)
							r /= n
						}
						t.Trans(depth)
						t.State(kind + string(w.seen[0]) + string(w.seen[1]))
					}
				})
			}
		}
	}
	c31stores(c)
}

func c31default(t *T, kind string) {
	for i := 0; i < 2; i++ {
		if i > 0 {
			time.Sleep(2500 * time.Millisecond)
		}
		before := time.Now().UTC().Add(-time.Second)
		d := c31make(kind)
		after := time.Now().UTC().Add(time.Second)
		b, err := d.ToBytes(false)
		if err != nil {
			t.Fail("a fresh %s cannot be encoded: %v", kind, err)
		}
		v := c31norm(b).(map[string]any)
		sg, _ := v["signed"].(map[string]any)
		e, err := time.Parse(time.RFC3339, fmt.Sprint(sg["expires"]))
		if err != nil || e.Before(before.Truncate(time.Second)) || e.After(after) {
			t.Fail("a fresh %s made at %v without an expiry expires at %v", kind, before, sg["expires"])
		}
		want := c31norm(plainJSON(c31fresh(kind, fmt.Sprint(sg["expires"]))))
		if !sameJSON(want, v) {
			t.Fail("a fresh %s: %s", kind, diffJSON(want, v, ""))
		}
		t.Trans(1)
	}
}

// c31stores explores two repository stores sharing documents.
func c31stores(c *Ctx) {
	names := []string{"targets", "Targets", "r", ""}
	type store struct {
		root *MRoot
		ts   *MTS
		sn   *MSN
		tg   map[string]*MTG
	}
	type world struct {
		root [3]*MRoot // the third is nil
		ts   [3]*MTS
		sn   [3]*MSN
		tg   [3]*MTG
		m    [2]store
	}
	var ops []func(w *world, f []c31store, t *T)
	for s := 0; s < 2; s++ {
		s := s
		for d := 0; d < 3; d++ {
			d := d
			ops = append(ops,
				func(w *world, f []c31store, t *T) {
					t.Log("store %d: SetRoot(%d)", s+1, d+1)
					f[s].SetRoot(w.root[d])
					w.m[s].root = w.root[d]
				},
				func(w *world, f []c31store, t *T) {
					t.Log("store %d: SetTimestamp(%d)", s+1, d+1)
					f[s].SetTimestamp(w.ts[d])
					w.m[s].ts = w.ts[d]
				},
				func(w *world, f []c31store, t *T) {
					t.Log("store %d: SetSnapshot(%d)", s+1, d+1)
					f[s].SetSnapshot(w.sn[d])
					w.m[s].sn = w.sn[d]
				})
			for _, n := range names {
				n := n
				if d == 2 && n != "targets" {
					continue
				}
				ops = append(ops, func(w *world, f []c31store, t *T) {
					t.Log("store %d: SetTargets(%q, %d)", s+1, n, d+1)
					f[s].SetTargets(n, w.tg[d])
					w.m[s].tg[n] = w.tg[d]
				})
			}
		}
		ops = append(ops, func(w *world, f []c31store, t *T) {
			t.Log("store %d: the documents fetched get a new version", s+1)
			for i, x := range []*int64{c31ver(f[s].Root()), c31ver(f[s].Timestamp()), c31ver(f[s].Snapshot()), c31ver(f[s].Targets("targets"))} {
				if x != nil {
					*x += int64(10 + i)
				}
			}
		})
	}
	n := len(ops)
	depth := Pick(c, 3, 4)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("stores: operations %d, %d and %d more", a, b, depth-2) }, func(t *T) {
				m := 1
				for k := 2; k < depth; k++ {
					m *= n
				}
				for q := 0; q < m; q++ {
					t.Reset()
					w := &world{}
					for i := 0; i < 2; i++ {
						w.root[i], w.ts[i], w.sn[i], w.tg[i] = metadata.Root(c31exp[i]), metadata.Timestamp(c31exp[i]), metadata.Snapshot(c31exp[i]), metadata.Targets(c31exp[i])
						w.m[i].tg = map[string]*MTG{}
					}
					f := []c31store{repository.New(), repository.New()}
					run := func(i int) {
						ops[i](w, f, t)
						for s := range f {
							m := w.m[s]
							if f[s].Root() != m.root || f[s].Timestamp() != m.ts || f[s].Snapshot() != m.sn {
								t.Fail("store %d does not give back the documents last stored in it", s+1)
							}
							for _, x := range append([]string{"unknown"}, names...) {
								if f[s].Targets(x) != m.tg[x] {
									t.Fail("store %d does not give back the document last stored under %q", s+1, x)
								}
							}
						}
					}
					run(a)
					run(b)
					for k, r := 2, q; k < depth; k++ {
						run(r % n)
						r /= n
					}
					t.Trans(depth)
					t.State(fmt.Sprint(c31stateOf(f, names)))
				}
			})
		}
	}
}

func c31stateOf(f []c31store, names []string) string {
	var b strings.Builder
	v := func(x *int64) {
		if x == nil {
			b.WriteString(" -")
		} else {
			fmt.Fprint(&b, " ", *x)
		}
	}
	for _, s := range f {
		v(c31ver(s.Root()))
		v(c31ver(s.Timestamp()))
		v(c31ver(s.Snapshot()))
		for _, n := range names {
			v(c31ver(s.Targets(n)))
		}
	}
	return b.String()
}

// c31store is the interface of a repository store.
type c31store interface {
	Root() *MRoot
	SetRoot(*MRoot)
	Snapshot() *MSN
	SetSnapshot(*MSN)
	Timestamp() *MTS
	SetTimestamp(*MTS)
	Targets(string) *MTG
	SetTargets(string, *MTG)
}

func c31ver(d any) *int64 {
	switch m := d.(type) {
	case *MRoot:
		if m != nil {
			return &m.Signed.Version
		}
	case *MTS:
		if m != nil {
			return &m.Signed.Version
		}
	case *MSN:
		if m != nil {
			return &m.Signed.Version
		}
	case *MTG:
		if m != nil {
			return &m.Signed.Version
		}
	}
	return nil
}
