package main

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

func init() {
	register(&Check{ID: "C21", Run: runC21,
		Rule: "identifiers: all histories (breadth first, depth stated per case) of {set type, scheme, public, unknown field of the key or of its value; ask for the identifier; copy; save and read back; add to a root, save and read back} on real key objects, identifier compared with a harness-computed SHA-256 of the harness's canonical form in every state, and all pairs of contents; conversions: 8 keys of each supported type through every path; every declared key type x every kind of key material; signing by every key type for every role",
	})
}

// content of a key object as the model holds it.
type c21c struct{ typ, scheme, pub, unk, vunk int }

var (
	c21types   = []string{"ed25519", "rsa", "", "Ed25519 <x>&é"}
	c21schemes = []string{"ed25519", "rsassa-pss-sha256", "\"quoted\\"}
	c21pubs    = []string{strings.Repeat("ab", 32), "-----BEGIN X-----\nline\n", "", "\u2028<>&\t"}
	c21unk     = []any{nil, "s", json.Number("7"), true, J{"b": "x", "a": []any{"1", nil}}, []any{}, J{}}
)

const c21none = 0 // index 0 of c21unk: field absent

func (x c21c) obj() J {
	v := J{"public": c21pubs[x.pub]}
	if x.vunk != c21none {
		v["x-val"] = c21unk[x.vunk]
	}
	o := J{"keytype": c21types[x.typ], "scheme": c21schemes[x.scheme], "keyval": v}
	if x.unk != c21none {
		o["x-key"] = c21unk[x.unk]
	}
	return o
}

func (x c21c) id() string { return sha256hex(canon(x.obj())) }

func c21any(v any) any { // what a program would put in the map
	var r any
	must(json.Unmarshal(plainJSON(v), &r))
	return r
}

type c21st struct {
	c    c21c
	hist []string
}

func (x c21c) apply(k *metadata.Key) {
	k.Type, k.Scheme, k.Value.PublicKey = c21types[x.typ], c21schemes[x.scheme], c21pubs[x.pub]
	set := func(m *map[string]any, name string, i int) {
		if i == c21none {
			delete(*m, name)
			return
		}
		if *m == nil {
			*m = map[string]any{}
		}
		(*m)[name] = c21any(c21unk[i])
	}
	set(&k.UnrecognizedFields, "x-key", x.unk)
	set(&k.Value.UnrecognizedFields, "x-val", x.vunk)
}

func runC21(c *Ctx) {
	// histories of one object
	type step struct {
		name string
		mod  func(x c21c) c21c
		do   func(t *T, k *metadata.Key) *metadata.Key
	}
	var steps []step
	for i := range c21types[:2] {
		steps = append(steps, step{fmt.Sprintf("type=%q", c21types[i]), func(x c21c) c21c { x.typ = i; return x }, nil})
	}
	for i := range c21schemes[:2] {
		steps = append(steps, step{fmt.Sprintf("scheme=%q", c21schemes[i]), func(x c21c) c21c { x.scheme = i; return x }, nil})
	}
	for i := range c21pubs[:2] {
		steps = append(steps, step{fmt.Sprintf("public=%q", c21pubs[i]), func(x c21c) c21c { x.pub = i; return x }, nil})
	}
	for i := range c21unk[:3] {
		steps = append(steps, step{fmt.Sprintf("x-key=%d", i), func(x c21c) c21c { x.unk = i; return x }, nil})
		steps = append(steps, step{fmt.Sprintf("x-val=%d", i), func(x c21c) c21c { x.vunk = i; return x }, nil})
	}
	steps = append(steps,
		step{"ID()", nil, func(t *T, k *metadata.Key) *metadata.Key { k.ID(); return k }},
		step{"copy", nil, func(t *T, k *metadata.Key) *metadata.Key {
			n := *k
			n.UnrecognizedFields = map[string]any{}
			for a, b := range k.UnrecognizedFields {
				n.UnrecognizedFields[a] = b
			}
			n.Value.UnrecognizedFields = map[string]any{}
			for a, b := range k.Value.UnrecognizedFields {
				n.Value.UnrecognizedFields[a] = b
			}
			return &n
		}},
		step{"save and read into a new object", nil, func(t *T, k *metadata.Key) *metadata.Key {
			b, err := json.Marshal(k)
			if err != nil {
				t.Fail("saving a key: %v", err)
			}
			n := &metadata.Key{}
			if err := json.Unmarshal(b, n); err != nil {
				t.Fail("reading a key back: %v", err)
			}
			return n
		}},
		step{"save and read into the same object", nil, func(t *T, k *metadata.Key) *metadata.Key {
			b, err := json.Marshal(k)
			if err != nil {
				t.Fail("saving a key: %v", err)
			}
			if err := json.Unmarshal(b, k); err != nil {
				t.Fail("reading a key back: %v", err)
			}
			return k
		}},
		step{"read another key into the same object", func(c21c) c21c { return c21c{1, 1, 1, 1, 2} }, func(t *T, k *metadata.Key) *metadata.Key {
			if err := json.Unmarshal(plainJSON(c21c{1, 1, 1, 1, 2}.obj()), k); err != nil {
				t.Fail("reading a key: %v", err)
			}
			return k
		}},
		step{"add to a root, save and read the root", nil, func(t *T, k *metadata.Key) *metadata.Key {
			r := metadata.Root(time.Now().UTC())
			r.Signed.AddKey(k, "root")
			b, err := r.ToBytes(false)
			if err != nil {
				t.Fail("saving a root: %v", err)
			}
			r2, err := metadata.Root().FromBytes(b)
			if err != nil {
				t.Fail("reading a root: %v", err)
			}
			if len(r2.Signed.Roles["root"].KeyIDs) != 1 {
				t.Fail("root lists %v", r2.Signed.Roles["root"].KeyIDs)
			}
			n := r2.Signed.Keys[r2.Signed.Roles["root"].KeyIDs[0]]
			if n == nil {
				t.Fail("the key the root lists is not in its key store")
			}
			return n
		}},
	)
	depth := Pick(c, 4, 5)
	for si := range steps {
		c.Case(func() string { return "identifier histories starting with " + steps[si].name }, func(t *T) {
			start := c21c{}
			build := func(h []int) (*metadata.Key, c21c) {
				k, x := &metadata.Key{}, start
				x.apply(k)
				for _, i := range h {
					s := steps[i]
					if s.mod != nil {
						x = s.mod(x)
					}
					if s.do != nil {
						k = s.do(t, k)
					} else {
						x.apply(k)
					}
				}
				return k, x
			}
			names := func(h []int) (s string) {
				for _, i := range h {
					s += steps[i].name + "; "
				}
				return s
			}
			var rec func(h []int)
			rec = func(h []int) {
				k, x := build(h)
				t.Trans(1)
				var got string
				if p := guard(func() { got = k.ID() }); p != "" {
					t.Fail("after %s ID(): %s", names(h), p)
				}
				if got != x.id() {
					t.Fail("after %sthe identifier of %s is %s, expected %s", names(h), canon(x.obj()), got, x.id())
				}
				if again := k.ID(); again != got {
					t.Fail("after %sthe identifier changes from %s to %s", names(h), got, again)
				}
				t.State(names(h))
				if len(h) < depth {
					for i := range steps {
						rec(append(append([]int{}, h...), i))
					}
				}
			}
			rec([]int{si})
		})
	}
	// all contents, all pairs
	for ti := range c21types {
		c.Case(func() string { return fmt.Sprintf("contents with type %q", c21types[ti]) }, func(t *T) {
			seen := map[string]string{}
			for s := range c21schemes {
				for p := range c21pubs {
					for u := range c21unk {
						for v := range c21unk {
							x := c21c{ti, s, p, u, v}
							for _, form := range []int{0, 1, 2} {
								k := &metadata.Key{}
								switch form {
								case 0:
									x.apply(k)
								case 1:
									must(json.Unmarshal(plainJSON(x.obj()), k))
								case 2: // other spelling of the same JSON
									b, _ := json.MarshalIndent(x.obj(), "  ", "\t")
									must(json.Unmarshal(b, k))
								}
								t.Trans(1)
								id := k.ID()
								if id != x.id() {
									t.Fail("the identifier of %s is %s, expected %s", canon(x.obj()), id, x.id())
								}
								if o, dup := seen[id]; dup && o != string(canon(x.obj())) {
									t.Fail("%s and %s have the same identifier", o, canon(x.obj()))
								}
								seen[id] = string(canon(x.obj()))
							}
							t.State(fmt.Sprint(x))
						}
					}
				}
			}
		})
	}
	// keys whose bytes look special: zero and 0xff bytes at either end, other moduli and exponents
	for _, kind := range []string{"ed25519", "ecdsa", "rsa"} {
		c.Case(func() string { return "conversions of unusual keys: " + kind }, func(t *T) {
			for name, pub := range oddKeys(kind) {
				mat := ""
				scheme := map[string]string{"ed25519": "ed25519", "ecdsa": "ecdsa-sha2-nistp256", "rsa": "rsassa-pss-sha256"}[kind]
				if kind == "ed25519" {
					mat = hex.EncodeToString(pub.(ed25519.PublicKey))
				} else {
					mat = pemOf(pub)
				}
				obj := func(typ string) J { return J{"keytype": typ, "scheme": scheme, "keyval": J{"public": mat}} }
				k, err := metadata.KeyFromPublicKey(pub)
				if err != nil {
					t.Fail("%s: %v", name, err)
				}
				n := &metadata.Key{}
				must(json.Unmarshal(plainJSON(obj(k.Type)), n))
				if k.ID() != n.ID() || k.ID() != sha256hex(canon(obj(k.Type))) {
					t.Fail("%s: identifiers %s and %s, expected %s", name, k.ID(), n.ID(), sha256hex(canon(obj(k.Type))))
				}
				b, err := json.Marshal(k)
				must(err)
				m := &metadata.Key{}
				must(json.Unmarshal(b, m))
				for form, x := range map[string]*metadata.Key{"direct": k, "read": n, "saved": m} {
					t.Trans(1)
					t.State(name + form)
					back, err := x.ToPublicKey()
					if err != nil {
						t.Fail("%s (%s): converting back: %v", name, form, err)
					}
					if !samePub(back, pub) {
						t.Fail("%s (%s): another public key comes back", name, form)
					}
				}
			}
		})
	}
	// conversions
	for _, kind := range []string{"ed25519", "ecdsa", "rsa"} {
		c.Case(func() string { return "conversions of " + kind }, func(t *T) {
			n := 8
			if kind == "rsa" {
				n = 3
			}
			for i := 0; i < n; i++ {
				pk := PKey(kind, i)
				k, err := metadata.KeyFromPublicKey(pk.Pub)
				if err != nil {
					t.Fail("converting %s: %v", pk.Name, err)
				}
				for _, path := range []string{"direct", "json", "root", "indent", "harness"} {
					x := k
					switch path {
					case "json":
						b, err := json.Marshal(k)
						must(err)
						x = &metadata.Key{}
						if err := json.Unmarshal(b, x); err != nil {
							t.Fail("%v", err)
						}
					case "root", "indent":
						r := metadata.Root(time.Now().UTC())
						r.Signed.AddKey(k, "root")
						b, err := r.ToBytes(path == "indent")
						if err != nil {
							t.Fail("%v", err)
						}
						r2, err := metadata.Root().FromBytes(b)
						if err != nil {
							t.Fail("%v", err)
						}
						x = r2.Signed.Keys[pk.ID]
						if x == nil {
							t.Fail("%s: the root does not hold the key under %s", pk.Name, pk.ID)
						}
					case "harness":
						x = &metadata.Key{}
						must(json.Unmarshal(plainJSON(pk.Obj), x))
					}
					t.Trans(1)
					t.State(pk.Name + path)
					if x.ID() != pk.ID {
						t.Fail("%s (%s): identifier %s, expected %s", pk.Name, path, x.ID(), pk.ID)
					}
					pub, err := x.ToPublicKey()
					if err != nil {
						t.Fail("%s (%s): converting back: %v", pk.Name, path, err)
					}
					if !samePub(pub, pk.Pub) {
						t.Fail("%s (%s): another public key comes back", pk.Name, path)
					}
					k2, err := metadata.KeyFromPublicKey(pub)
					if err != nil || k2.ID() != pk.ID {
						t.Fail("%s (%s): second conversion: %v", pk.Name, path, err)
					}
				}
				// signatures are recorded under the identifier, for every role
				for _, role := range []string{"root", "timestamp", "snapshot", "targets"} {
					var got, want string
					want = pk.ID
					now := time.Now().UTC()
					var sig *metadata.Signature
					var list []metadata.Signature
					switch role {
					case "root":
						m := metadata.Root(now)
						sig, err = m.Sign(pk.signer())
						list = m.Signatures
					case "timestamp":
						m := metadata.Timestamp(now)
						sig, err = m.Sign(pk.signer())
						list = m.Signatures
					case "snapshot":
						m := metadata.Snapshot(now)
						sig, err = m.Sign(pk.signer())
						list = m.Signatures
					case "targets":
						m := metadata.Targets(now)
						sig, err = m.Sign(pk.signer())
						list = m.Signatures
					}
					t.Trans(1)
					if err != nil {
						t.Fail("%s signing %s: %v", pk.Name, role, err)
					}
					got = sig.KeyID
					if got != want || len(list) != 1 || list[0].KeyID != want || string(list[0].Signature) != string(sig.Signature) {
						t.Fail("%s signing %s: recorded under %s (list %d), expected %s", pk.Name, role, got, len(list), want)
					}
				}
			}
		})
	}
	// material
	c.Case(func() string { return "key types x key material" }, func(t *T) {
		ed, ec, rs := PKey("ed25519", 0), PKey("ecdsa", 0), PKey("rsa", 0)
		raw, _ := hex.DecodeString(ed.Mat)
		p384 := ecdsaKey(elliptic.P384(), make32(7))
		edPEM := pemOf(ed.Pub)
		priv, _ := x509.MarshalPKCS8PrivateKey(rs.Priv)
		privEC, _ := x509.MarshalPKCS8PrivateKey(ec.Priv)
		pkcs1 := pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: x509.MarshalPKCS1PublicKey(rs.Pub.(*rsa.PublicKey))})
		_ = pkcs1
		blk := func(typ string, b []byte) string { return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b})) }
		dec := func(s string) []byte { b, _ := pem.Decode([]byte(s)); return b.Bytes }
		type mat struct {
			name, s string
			kind    string // the kind of key it is, "" garbage
		}
		mats := []mat{
			{"ed25519 hex", ed.Mat, "ed25519"}, {"rsa PEM", rs.Mat, "rsa"}, {"ecdsa PEM", ec.Mat, "ecdsa"},
			{"empty", "", ""}, {"text", "hello", ""}, {"odd hex", ed.Mat[:63], ""}, {"short hex", ed.Mat[:62], ""}, {"long hex", ed.Mat + "00", ""}, {"private-size hex", ed.Mat + ed.Mat, ""},
			{"hex with 0x", "0x" + ed.Mat, ""}, {"hex with space", ed.Mat + " ", ""}, {"hex with newline", ed.Mat + "\n", ""}, {"non-hex digit", "g" + ed.Mat[1:], ""},
			{"raw bytes", string(raw), ""}, {"one byte", "ab", ""},
			{"ed25519 PEM", edPEM, "edpem"},
			{"rsa PEM cut", rs.Mat[:len(rs.Mat)/2], ""}, {"ecdsa PEM cut", ec.Mat[:len(ec.Mat)/2], ""},
			{"rsa DER cut", blk("PUBLIC KEY", dec(rs.Mat)[:100]), ""}, {"ecdsa DER cut", blk("PUBLIC KEY", dec(ec.Mat)[:40]), ""},
			{"rsa DER extended", blk("PUBLIC KEY", append(dec(rs.Mat), 0)), ""}, {"ecdsa DER extended", blk("PUBLIC KEY", append(dec(ec.Mat), 0)), ""},
			{"empty PEM", blk("PUBLIC KEY", nil), ""}, {"PEM of garbage", blk("PUBLIC KEY", []byte("garbage")), ""},
			{"rsa private PEM", blk("PRIVATE KEY", priv), ""}, {"ecdsa private PEM", blk("PRIVATE KEY", privEC), ""},
			{"rsa under another label", blk("CERTIFICATE", dec(rs.Mat)), ""}, {"ecdsa under another label", blk("FOO", dec(ec.Mat)), ""},
			{"rsa DER hex", hex.EncodeToString(dec(rs.Mat)), ""}, {"ecdsa DER hex", hex.EncodeToString(dec(ec.Mat)), ""},
			{"begin line only", "-----BEGIN PUBLIC KEY-----", ""},
		}
		_ = p384
		// a curve point that is not on the curve
		off := append([]byte{}, dec(ec.Mat)...)
		off[len(off)-1] ^= 1
		mats = append(mats, mat{"point off the curve", blk("PUBLIC KEY", off), ""})
		types := []string{"ed25519", "rsa", "ecdsa", "ecdsa-sha2-nistp256", "", "ED25519", "RSA", "dsa", "x25519", " ed25519", "ed25519\x00"}
		for _, ty := range types {
			for _, m := range mats {
				for _, scheme := range []string{"ed25519", "rsassa-pss-sha256", "ecdsa-sha2-nistp256", ""} {
					k := &metadata.Key{Type: ty, Scheme: scheme, Value: metadata.KeyVal{PublicKey: m.s}}
					for _, path := range []string{"direct", "json"} {
						if path == "json" {
							b, err := json.Marshal(k)
							must(err)
							k = &metadata.Key{}
							if err := json.Unmarshal(b, k); err != nil {
								continue
							}
						}
						var pub crypto.PublicKey
						var err error
						if p := guard(func() { pub, err = k.ToPublicKey() }); p != "" {
							t.Fail("type %q with %s: %s", ty, m.name, p)
						}
						t.Trans(1)
						t.State(ty + m.name + scheme + path)
						right := m.kind != "" && (ty == m.kind || ty == "ecdsa-sha2-nistp256" && m.kind == "ecdsa")
						natural := map[string]string{"ed25519": "ed25519", "rsa": "rsassa-pss-sha256", "ecdsa": "ecdsa-sha2-nistp256"}[m.kind]
						if right && scheme != natural {
							continue // whether a wrong scheme name is refused here is not stated
						}
						if (err == nil) != right {
							t.Fail("type %q with %s: %s, expected accepted=%v", ty, m.name, refused(err), right)
						}
						if err != nil && pub != nil {
							t.Fail("type %q with %s: refused but a key is returned", ty, m.name)
						}
						t.Outcome(fmt.Sprint(right))
						if right {
							want := map[string]crypto.PublicKey{"ed25519": ed.Pub, "rsa": rs.Pub, "ecdsa": ec.Pub}[m.kind]
							if !samePub(pub, want) {
								t.Fail("type %q with %s: another public key comes back", ty, m.name)
							}
						}
						// such a key never verifies anything it should not: a root using it is refused
						if !right {
							r := metadata.Root(time.Now().UTC())
							r.Signed.AddKey(k, "root")
							_, _ = r.Sign(PKey("ed25519", 5).signer())
							r.Signatures[0].KeyID = k.ID()
							var verr error
							if p := guard(func() { verr = r.VerifyDelegate("root", r) }); p != "" {
								t.Fail("verifying with type %q and %s: %s", ty, m.name, p)
							}
							if verr == nil {
								t.Fail("a signature was accepted for a key of type %q with %s", ty, m.name)
							}
						}
					}
				}
			}
		}
	})
	c.Case(func() string { return "objects that are no supported public key" }, func(t *T) {
		dk := &dsa.PublicKey{}
		xk, _ := ecdh.X25519().NewPrivateKey(make32(9))
		for i, v := range []any{nil, "text", 7, []byte(strings.Repeat("a", 32)), PKey("ed25519", 0).Priv, PKey("rsa", 0).Priv, PKey("ecdsa", 0).Priv,
			*PKey("rsa", 0).Pub.(*rsa.PublicKey), *PKey("ecdsa", 0).Pub.(*ecdsa.PublicKey), dk, xk.PublicKey(), struct{}{}, &ed25519.PublicKey{}} {
			var k *metadata.Key
			var err error
			if p := guard(func() { k, err = metadata.KeyFromPublicKey(v) }); p != "" {
				t.Fail("%T: %s", v, p)
			}
			t.Trans(1)
			t.State(fmt.Sprintf("%d %T", i, v))
			if err == nil || k != nil {
				t.Fail("%T was converted to a key", v)
			}
		}
	})
}

func make32(b byte) []byte {
	r := make([]byte, 32)
	for i := range r {
		r[i] = b
	}
	return r
}

// oddKeys finds, in a fixed sequence of keys, ones with unusual bytes.
func oddKeys(kind string) map[string]crypto.PublicKey {
	out := map[string]crypto.PublicKey{}
	classify := func(b []byte, k crypto.PublicKey, part string) {
		add := func(name string, ok bool) {
			name = kind + " " + part + " " + name
			if _, have := out[name]; ok && !have {
				out[name] = k
			}
		}
		for _, v := range []byte{0, 0x0a, 0x0d, 0x20, 0x2d, 0x7f, 0x80, 0xff} {
			add(fmt.Sprintf("starts with %02x", v), b[0] == v)
			add(fmt.Sprintf("ends with %02x", v), b[len(b)-1] == v)
		}
		add("starts with a zero digit", b[0] < 16 && b[0] > 0)
	}
	switch kind {
	case "ed25519":
		for i := 0; i < 3000; i++ {
			seed := sha256.Sum256([]byte(fmt.Sprint("odd", i)))
			pub := ed25519.NewKeyFromSeed(seed[:]).Public().(ed25519.PublicKey)
			classify(pub, pub, "key")
		}
	case "ecdsa":
		for _, cv := range []elliptic.Curve{elliptic.P224(), elliptic.P256(), elliptic.P384(), elliptic.P521()} {
			for i := 0; i < 5; i++ {
				seed := sha256.Sum256([]byte(fmt.Sprint("curve", i)))
				p := ecdsaKey(cv, seed[:])
				if cv == elliptic.P224() {
					p = ecdsaKey(cv, append(make([]byte, 4), seed[:27]...))
				}
				out[fmt.Sprint(cv.Params().Name, i)] = &p.PublicKey
			}
		}
		for i := 0; i < 3000; i++ {
			seed := sha256.Sum256([]byte(fmt.Sprint("odd", i)))
			p := ecdsaKey(elliptic.P256(), seed[:])
			classify(p.X.FillBytes(make([]byte, 32)), &p.PublicKey, "x")
			classify(p.Y.FillBytes(make([]byte, 32)), &p.PublicKey, "y")
		}
	case "rsa":
		for _, bits := range []int{512, 1024, 1032, 1536, 2040, 2048, 2056, 2064, 3072, 4096, 8192, 16384} {
			for _, e := range []int{3, 17, 257, 65537, 1<<31 - 1} {
				var raw []byte
				for i := 0; len(raw) < bits/8; i++ {
					h := sha256.Sum256([]byte(fmt.Sprint("odd", bits, e, i)))
					raw = append(raw, h[:]...)
				}
				raw = raw[:bits/8]
				raw[0] |= 0x80
				raw[len(raw)-1] |= 1
				out[fmt.Sprintf("rsa %d bits, exponent %d", bits, e)] = &rsa.PublicKey{N: new(big.Int).SetBytes(raw), E: e}
			}
		}
	}
	return out
}
