package main

import (
	"crypto"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/sigstore/sigstore/pkg/signature"
)

func init() {
	register(&Check{ID: "C27", Run: runC27,
		Rule:        "signing: every order of three signers of different key types, saved and read back between any of the steps, for every role, verified by delegators of every threshold; tampering: every node of the signed part of 11 complete documents with unknown fields everywhere, deleted, replaced by 14 JSON values, changed slightly, renamed, swapped, with members and elements added (unknown, known but absent, differing in case), each against signatures of all key types and thresholds one to three; everything outside the signed part changed likewise must leave them valid; documents of every size up to 1 MiB (thorough: 8 MiB) altered at the front, in the middle and at the end",
		Assumptions: []string{"other spellings of the same time or hexadecimal digest and duplicate member names are not changes of the content, nor is a known member without value (null, false, 0, empty) instead of none"}})
}

var pkinds = []string{"ed25519", "ecdsa", "rsa"}

// c27root lists the given keys for every role.
func c27root(thr int, ks ...*PK) *MRoot {
	r := metadata.Root(time.Now().UTC().Add(time.Hour))
	for _, role := range []string{"root", "timestamp", "snapshot", "targets"} {
		for _, k := range ks {
			r.Signed.AddKey(k.key(), role)
		}
		r.Signed.Roles[role].Threshold = thr
	}
	return r
}

func pkSign(signed any, ks ...*PK) J {
	p, can := canonOK(signed)
	if !can {
		panic(harnessError{"no canonical form"})
	}
	l := []any{}
	for _, k := range ks {
		s, err := k.signer().SignMessage(strings.NewReader(string(p)))
		must(err)
		l = append(l, J{"keyid": k.ID, "sig": hexOf(s)})
	}
	return J{"signed": signed, "signatures": l}
}

// smallChanges lists the values a node may be replaced by.
func smallChanges(kind string, p []any, v any) []any {
	r := []any{nil, true, false, json.Number("0"), json.Number("1"), json.Number("-1"), json.Number("9007199254740993"), "", "x", []any{}, []any{"x"}, []any{nil}, J{}, J{"x": json.Number("1")}}
	last := ""
	hexv := false
	for _, e := range p {
		if s, is := e.(string); is {
			last = s
			hexv = hexv || s == "hashes"
		}
	}
	switch x := v.(type) {
	case string:
		if last == "expires" {
			for _, s := range []string{"2090-01-01T00:00:01Z", "2090-01-01T00:00:00.000000001Z", "2091-01-01T00:00:00Z", "2090-01-01T00:00:00+01:00", "2089-12-31T23:59:59Z", x + " ", x[:len(x)-1]} {
				r = append(r, s)
			}
			break
		}
		if hexv {
			f := []byte(x)
			if len(f) > 0 {
				f[len(f)-1] ^= 1
				r = append(r, string(f), x+"00", x[:len(x)-2], "00"+x)
			}
			break
		}
		r = append(r, x+"x", x+" ", " "+x, x+"\u0000", strings.ToUpper(x), x+x)
		if len(x) > 0 {
			r = append(r, x[:len(x)-1], x[1:])
			for _, i := range []int{0, len(x) / 2, len(x) - 1} {
				f := []byte(x)
				f[i] ^= 1
				if f[i] < 0x80 {
					r = append(r, string(f))
				}
			}
		}
	case json.Number:
		n, err := x.Int64()
		must(err)
		r = append(r, json.Number(fmt.Sprint(n+1)), json.Number(fmt.Sprint(n-1)), json.Number(fmt.Sprint(-n)), json.Number(fmt.Sprintf("%de1", n)), json.Number(fmt.Sprint(n)+".5"), fmt.Sprint(n))
	case bool:
		r = append(r, !x)
	case []any:
		r = append(r, append(cloneJ(x).([]any), "x"), append(cloneJ(x).([]any), nil))
		if len(x) > 0 {
			r = append(r, append(cloneJ(x).([]any), cloneJ(x[0])), cloneJ(x[1:]), cloneJ(x[:len(x)-1]))
		}
		if len(x) > 1 {
			c := cloneJ(x).([]any)
			c[0], c[1] = c[1], c[0]
			r = append(r, c)
		}
	case map[string]any:
		add := map[string][]any{"x-added": {nil, "v", json.Number("9007199254740993"), J{}}, "": {""}}
		for _, n := range knownAt(kind, append([]any{"signed"}, p...)) {
			for _, alt := range []string{n, strings.ToUpper(n), strings.ToUpper(n[:1]) + n[1:]} {
				add[alt] = []any{nil, json.Number("0"), json.Number("1"), "", "x", false, []any{}, []any{"x"}, J{}, J{"sha256": "00"},
					J{"keys": J{}, "roles": []any{}}, J{"keyids": []any{"x"}, "threshold": json.Number("1"), "bit_length": json.Number("2"), "name_prefix": "p"}}
			}
		}
		for _, k := range sortedKeys(add) {
			if _, found := x[k]; found {
				continue
			}
			for _, v := range add[k] {
				c := cloneJ(x).(J)
				c[k] = v
				r = append(r, c)
			}
		}
		ks := sortedKeys(x)
		for i, k := range ks {
			c := cloneJ(x).(J)
			c[k+"x"] = c[k]
			delete(c, k)
			r = append(r, c)
			if i+1 < len(ks) {
				c := cloneJ(x).(J)
				c[k], c[ks[i+1]] = c[ks[i+1]], c[k]
				r = append(r, c)
			}
			// a copy of an entry under another name
			c = cloneJ(x).(J)
			c[k+"x"] = cloneJ(x[k])
			r = append(r, c)
		}
	}
	return r
}

func runC27(c *Ctx) {
	ks := []*PK{PKey("ed25519", 0), PKey("ecdsa", 0), PKey("rsa", 0)}
	foreign := []*PK{PKey("ed25519", 1), PKey("ecdsa", 1), PKey("rsa", 1)}
	exp := time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC)
	mk := func(kind string) libDoc {
		switch kind {
		case "root":
			return metadata.Root(exp)
		case "timestamp":
			return metadata.Timestamp(exp)
		case "snapshot":
			return metadata.Snapshot(exp)
		}
		return metadata.Targets(exp)
	}
	orders := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, kind := range []string{"root", "timestamp", "snapshot", "targets"} {
		for oi := range orders {
			c.Case(func() string { return fmt.Sprintf("signing %s in order %v", kind, orders[oi]) }, func(t *T) {
				dir := t.Dir()
				for _, base := range fullDocs() {
					if base.kind != kind {
						continue
					}
					for start := 0; start < 2; start++ {
						for save := 0; save < 27; save++ { // what happens after each signature
							var d libDoc
							if start == 0 {
								d = mk(kind)
							} else {
								var err error
								d, err = libLoad(kind, plainJSON(J{"signed": base.signed, "signatures": []any{}}))
								if err != nil {
									t.Fail("%s: %v", base.name, err)
								}
							}
							sv := save
							for step, i := range orders[oi] {
								if _, err := d.Sign(ks[i].signer()); err != nil {
									t.Fail("signing %s with %s: %v", kind, ks[i].Name, err)
								}
								var err error
								switch sv % 3 {
								case 1:
									d, err = libLoad(kind, mustBytes(t, kind, d))
								case 2:
									f := filepath.Join(dir, "f.json")
									if err = d.ToFile(f, true); err == nil {
										d, err = libFile(kind, f)
									}
								}
								sv /= 3
								if err != nil {
									t.Fail("saving %s: %v", kind, err)
								}
								t.Trans(1)
								t.State(fmt.Sprint(kind, oi, base.name, start, save, step))
								for thr := 1; thr <= 3; thr++ {
									if save%9 != 0 && thr != step+1 {
										continue
									}
									err := c27root(thr, ks...).VerifyDelegate(kind, d)
									if (err == nil) != (thr <= step+1) {
										t.Fail("%s signed by %d of three, saves %d, threshold %d: %s", kind, step+1, save, thr, refused(err))
									}
								}
								for j, k := range ks {
									signed := false
									for _, i := range orders[oi][:step+1] {
										signed = signed || i == j
									}
									if err := c27root(1, k).VerifyDelegate(kind, d); (err == nil) != signed {
										t.Fail("%s signed by %v: for the signer %s: %s", kind, orders[oi][:step+1], k.Name, refused(err))
									}
									if err := c27root(1, foreign[j]).VerifyDelegate(kind, d); err == nil {
										t.Fail("%s verifies for %s who did not sign", kind, foreign[j].Name)
									}
								}
							}
						}
						if start == 0 {
							break
						}
					}
				}
			})
		}
	}
	c.Case(func() string { return "RSASSA-PSS signers" }, func(t *T) {
		k := PKey("rsa", 0)
		s, err := signature.LoadRSAPSSSigner(k.Priv.(*rsa.PrivateKey), crypto.SHA256, nil)
		must(err)
		for _, kind := range []string{"root", "timestamp", "snapshot", "targets"} {
			d := mk(kind)
			if _, err := d.Sign(s); err != nil {
				t.Fail("signing with RSASSA-PSS: %v", err)
			}
			t.State(kind)
			if err := c27root(1, k).VerifyDelegate(kind, d); err != nil {
				t.Finding("rsa-pss", "RSA keys are recorded with scheme rsassa-pss-sha256, but signatures are verified as PKCS #1 v1.5: %s signed with RSASSA-PSS: %v", kind, err)
			}
		}
	})
	c27tamper(c, ks)
	c27outside(c, ks)
	c27large(c, ks)
	c27many(c, ks)
}

// marked adds an unknown field to every open object of the signed part.
func marked(d fullDoc) any {
	tree := parseJSON(plainJSON(J{"signed": d.signed, "signatures": []any{}}))
	for i, p := range openObjects(d.kind, tree) {
		if len(p) > 0 {
			getNode(tree, p).(map[string]any)["x-unknown"] = []any{nil, "u", json.Number("7"), false, J{"n": []any{json.Number("1"), "a"}}}[i%5]
		}
	}
	return getNode(tree, []any{"signed"})
}

func c27tamper(c *Ctx, ks []*PK) {
	docs := fullDocs()
	roots := []*MRoot{c27root(1, ks[0]), c27root(1, ks[1]), c27root(1, ks[2]), c27root(2, ks...), c27root(3, ks...)}
	for di := range docs {
		d := docs[di]
		signed := marked(d)
		whole := pkSign(signed, ks...)
		sigs := whole["signatures"]
		plainSigned := withoutEmpty(d.kind, []any{"signed"}, signed)
		c.Case(func() string { return "untouched " + d.name }, func(t *T) {
			m, err := libLoad(d.kind, plainJSON(whole))
			if err != nil {
				t.Fail("%s: %v", d.name, err)
			}
			for i, r := range roots {
				t.Trans(1)
				if err := r.VerifyDelegate(d.kind, m); err != nil {
					t.Fail("%s: delegator %d: %v", d.name, i, err)
				}
			}
		})
		try := func(t *T, what string, mut any) {
			t.Trans(1)
			if sameJSON(mut, signed) || sameJSON(withoutEmpty(d.kind, []any{"signed"}, mut), plainSigned) {
				return
			}
			t.State(d.name + what)
			var m libDoc
			var err error
			if p := guard(func() { m, err = libLoad(d.kind, plainJSON(J{"signed": mut, "signatures": sigs})) }); p != "" {
				t.Fail("%s, %s: %s", d.name, what, p)
			}
			t.Outcome(fmt.Sprint("loads=", err == nil))
			if err != nil {
				return
			}
			for i, r := range roots {
				if i > 0 && !c.Thorough() && len(what)%4 != i-1 {
					continue // the others refuse for the same content; in full in the thorough tier
				}
				var verr error
				if p := guard(func() { verr = r.VerifyDelegate(d.kind, m) }); p != "" {
					t.Fail("%s, %s: %s", d.name, what, p)
				}
				if verr == nil {
					t.Fail("%s is still validly signed (delegator %d) after %s", d.name, i, what)
				}
			}
		}
		paths := nodePaths(signed, nil)
		for pi := range paths {
			p := paths[pi]
			c.Case(func() string { return fmt.Sprintf("tampering with %s of %s", pathStr(p), d.name) }, func(t *T) {
				if len(p) > 0 {
					try(t, "removing "+pathStr(p), delNode(cloneJ(signed), p))
				}
				for _, v := range smallChanges(d.kind, p, getNode(signed, p)) {
					try(t, fmt.Sprintf("setting %s to %s", pathStr(p), plainJSON(v)), setNode(cloneJ(signed), p, cloneJ(v)))
				}
			})
		}
	}
}

// c27large: documents of every size class, altered in front, in the middle and at the very end.
func c27large(c *Ctx, ks []*PK) {
	seen := map[string]bool{}
	root := c27root(1, ks[0])
	for _, d := range fullDocs() {
		if seen[d.kind] {
			continue
		}
		seen[d.kind] = true
		for bits := 6; bits <= Pick(c, 20, 23); bits++ {
			for _, off := range []int{-1, 0} {
				n := 1<<bits + off
				c.Case(func() string { return fmt.Sprintf("%s with %d bytes more", d.name, n) }, func(t *T) {
					signed := cloneJ(any(d.signed)).(map[string]any)
					signed["aaa-pad"] = strings.Repeat("p", n)
					signed["zzz-tail"] = "tail"
					sigs := pkSign(signed, ks[0])["signatures"]
					verify := func(what string, s any, want bool) {
						t.Trans(1)
						m, err := libLoad(d.kind, plainJSON(J{"signed": s, "signatures": sigs}))
						if err != nil {
							t.Fail("%s, %s: %v", d.name, what, err)
						}
						if err := root.VerifyDelegate(d.kind, m); (err == nil) != want {
							t.Fail("%s with %d bytes more, %s: %v", d.name, n, what, err)
						}
					}
					verify("untouched", signed, true)
					alter := func(what string, f func(m map[string]any)) {
						m := cloneJ(any(signed)).(map[string]any)
						f(m)
						verify(what, m, false)
					}
					pad := signed["aaa-pad"].(string)
					for _, i := range []int{0, n / 2, n - 1} {
						alter(fmt.Sprintf("byte %d changed", i), func(m map[string]any) { m["aaa-pad"] = pad[:i] + "q" + pad[i+1:] })
					}
					alter("one byte less", func(m map[string]any) { m["aaa-pad"] = pad[1:] })
					alter("another version", func(m map[string]any) { m["version"] = json.Number("4711") })
					alter("another tail", func(m map[string]any) { m["zzz-tail"] = "taim" })
					alter("no tail", func(m map[string]any) { delete(m, "zzz-tail") })
					t.State(fmt.Sprint(d.kind, n))
					t.Outcome("large")
				})
			}
		}
	}
}

// c27many: the content of large collections and of objects with many unknown fields.
func c27many(c *Ctx, ks []*PK) {
	roots := []*MRoot{c27root(1, ks[0]), c27root(2, ks...), c27root(3, ks...)}
	counts := Pick(c, []int{2, 3, 4, 9, 33, 100}, []int{2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65, 100, 128, 257, 1025})
	for _, d := range fullDocs() {
		tree := parseJSON(plainJSON(d.signed))
		for _, p := range nodePaths(tree, nil) {
			v := getNode(tree, p)
			q := append([]any{"signed"}, p...)
			if _, _, takes := filler(d.kind, q, v, 0); !takes {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("tampering with many members at %s of %s", pathStr(p), d.name) }, func(t *T) {
				for _, n := range counts {
					signed := setNode(cloneJ(tree), p, grown(d.kind, q, v, n))
					whole := pkSign(signed, ks...)
					load := func(what string, s any) (libDoc, error) {
						t.Trans(1)
						t.State(fmt.Sprint(d.name, pathStr(p), n, what))
						return libLoad(d.kind, plainJSON(J{"signed": s, "signatures": whole["signatures"]}))
					}
					m, err := load("right", signed)
					if err != nil {
						t.Fail("%s with %d more members at %s: %v", d.name, n, pathStr(p), err)
					}
					for i, r := range roots {
						if err := r.VerifyDelegate(d.kind, m); err != nil {
							t.Fail("%s with %d more members at %s: delegator %d: %v", d.name, n, pathStr(p), i, err)
						}
					}
					at := map[int]bool{0: true, 1: true, 2: true, n / 2: true, n - 2: true, n - 1: true, 7: true, 8: true, 15: true, 16: true, 31: true, 32: true, 63: true, 64: true}
					for i := 0; i < n; i++ {
						if n > 4 && !at[i] && !c.Thorough() {
							continue
						}
						name, e, _ := filler(d.kind, q, v, i)
						_, other, _ := filler(d.kind, q, v, i+n)
						for k := 0; k < 2; k++ {
							x := cloneJ(signed)
							switch o := getNode(x, p).(type) {
							case []any:
								j := len(o) - n + i
								if k == 0 {
									x = delNode(x, append(append([]any{}, p...), j))
								} else {
									o[j] = other
								}
							case map[string]any:
								if delete(o, name); k == 1 {
									o[name] = other
								}
							}
							if sameJSON(x, signed) {
								continue
							}
							what := fmt.Sprintf("%s member %d of %d (%s)", []string{"removing", "replacing"}[k], i, n, plainJSON(e))
							m, err := load(what, x)
							if err != nil {
								continue
							}
							for _, r := range roots {
								if r.VerifyDelegate(d.kind, m) == nil {
									t.Fail("%s is still validly signed after %s at %s", d.name, what, pathStr(p))
								}
							}
						}
					}
				}
			})
		}
	}
}

// withoutEmpty drops the known members that have the value they would have if they were absent.
func withoutEmpty(kind string, p []any, v any) any {
	empty := func(v any) bool {
		switch x := v.(type) {
		case nil:
			return true
		case bool:
			return !x
		case string:
			return x == ""
		case json.Number:
			return x == "0"
		case []any:
			return len(x) == 0
		case map[string]any:
			return len(x) == 0
		}
		return false
	}
	switch x := v.(type) {
	case map[string]any:
		known := map[string]bool{}
		for _, n := range knownAt(kind, p) {
			known[n] = true
		}
		r := J{}
		for k, e := range x {
			if e = withoutEmpty(kind, append(append([]any{}, p...), k), e); known[k] && empty(e) {
				continue
			}
			r[k] = e
		}
		return r
	case []any:
		r := []any{}
		for i, e := range x {
			if e == nil && len(p) > 0 && (p[len(p)-1] == "keyids" || p[len(p)-1] == "paths" || p[len(p)-1] == "path_hash_prefixes") {
				e = ""
			}
			r = append(r, withoutEmpty(kind, append(append([]any{}, p...), i), e))
		}
		return r
	}
	return v
}

// c27outside: nothing outside the signed part matters.
func c27outside(c *Ctx, ks []*PK) {
	docs := fullDocs()
	r := c27root(3, ks...)
	for di := range docs {
		d := docs[di]
		c.Case(func() string { return "outside the signed part of " + d.name }, func(t *T) {
			signed := marked(d)
			whole := pkSign(signed, ks...)
			try := func(what string, b []byte) {
				m, err := libLoad(d.kind, b)
				t.Trans(1)
				t.State(d.name + what)
				if err == nil {
					err = r.VerifyDelegate(d.kind, m)
				}
				if err != nil {
					t.Fail("%s is no longer validly signed after %s: %v", d.name, what, err)
				}
			}
			ind, _ := json.MarshalIndent(whole, " ", "  ")
			try("indenting", ind)
			esc, _ := json.Marshal(whole)
			try("escaping", esc)
			try("white space around", append([]byte(" \n"), append(plainJSON(whole), '\n', ' ')...))
			rev := string(plainJSON(whole["signatures"]))
			try("member order", []byte(`{"signatures":`+rev+`,"signed":`+string(revOrder(signed))+`}`))
			try("member order back", []byte(`{"signed":`+string(revOrder(signed))+`,"signatures":`+rev+`}`))
			for vi, v := range unkValues {
				x := cloneJ(whole).(J)
				x["x-extra"] = v
				try(fmt.Sprint("an unknown field ", vi), plainJSON(x))
				for i := range ks {
					x := cloneJ(whole).(J)
					x["signatures"].([]any)[i].(J)["x-extra"] = v
					try(fmt.Sprint("an unknown field of a signature ", vi, i), plainJSON(x))
				}
			}
			l := whole["signatures"].([]any)
			for _, o := range [][]int{{0, 2, 1}, {2, 1, 0}, {1, 0, 2}} {
				try(fmt.Sprint("signature order ", o), plainJSON(J{"signed": signed, "signatures": []any{l[o[0]], l[o[1]], l[o[2]]}}))
			}
			for i, e := range []any{J{"keyid": "unknown", "sig": "00"}, J{"keyid": "", "sig": ""}, cloneJ(pkSign(signed, PKey("rsa", 1))["signatures"].([]any)[0]), cloneJ(pkSign(J{"a": 1}, PKey("ed25519", 3))["signatures"].([]any)[0])} {
				for at := 0; at <= 3; at++ {
					n := append([]any{}, l[:at]...)
					n = append(n, e)
					n = append(n, l[at:]...)
					try(fmt.Sprint("another signature ", i, " at ", at), plainJSON(J{"signed": signed, "signatures": n}))
				}
			}
		})
	}
}

// revOrder writes v with the members of every object in reverse order.
func revOrder(v any) []byte {
	switch x := v.(type) {
	case map[string]any:
		ks := sortedKeys(x)
		var s []string
		for i := len(ks) - 1; i >= 0; i-- {
			s = append(s, string(plainJSON(ks[i]))+" : "+string(revOrder(x[ks[i]])))
		}
		return []byte("{" + strings.Join(s, ",\n") + "}")
	case []any:
		var s []string
		for _, e := range x {
			s = append(s, string(revOrder(e)))
		}
		return []byte("[" + strings.Join(s, ", ") + "]")
	}
	return plainJSON(v)
}
