package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

func init() {
	register(&Check{ID: "C01", Run: runC01,
		Rule:        "VerifyDelegate of root, targets (2 named roles) and succinct delegators on delegated documents of all four types: every assignment of {none, good, corrupt, over other content, empty, made by another key} to 3 listed keys x foreign signature x reversed order x number of listed keys x threshold -1..4 x role name (delegated, other role, undelegated); repeated signatures and repeated key IDs; expected verdict from a counting model; thresholds up to 2^63 over few signatures; lists of up to 33 keys; calls in a row by delegators that give one key identifier to different keys; earlier verifications with the same signatures",
		Assumptions: []string{"ed25519 keys stand for all key types here (C27 covers the others)", "delegators list only keys they contain"}})
}

var sigKinds = []string{"none", "good", "corrupt", "other", "empty", "by-foreign"}

func sigOf(k *Key, kind int) (SigOpt, bool) {
	switch kind {
	case 0:
		return SigOpt{}, false
	case 1:
		return SigOpt{Key: k}, true
	case 2:
		return SigOpt{Key: k, Corrupt: true}, true
	case 3:
		return SigOpt{Key: k, Other: true}, true
	case 4:
		return SigOpt{Key: k, Empty: true}, true
	}
	return SigOpt{Key: k, By: K("foreign")}, true
}

type loaded struct {
	doc  *Doc
	real any
}

func loadReal(d *Doc) (any, error) {
	switch d.Kind {
	case "root":
		m, err := metadata.Root().FromBytes(d.Bytes)
		return m, err
	case "timestamp":
		m, err := metadata.Timestamp().FromBytes(d.Bytes)
		return m, err
	case "snapshot":
		m, err := metadata.Snapshot().FromBytes(d.Bytes)
		return m, err
	}
	m, err := metadata.Targets().FromBytes(d.Bytes)
	return m, err
}

func verifyReal(delegator any, role string, d any) error {
	switch m := delegator.(type) {
	case *MRoot:
		return m.VerifyDelegate(role, d)
	case *MTG:
		return m.VerifyDelegate(role, d)
	}
	panic(harnessError{"delegator type"})
}

// mkKind builds a small document of the given kind with these signatures.
func mkKind(kind string, sigs []SigOpt) *Doc {
	switch kind {
	case "root":
		r := map[string]RoleSpec{}
		for _, n := range []string{"root", "timestamp", "snapshot", "targets"} {
			r[n] = RoleSpec{Ks("z"), 1}
		}
		return MkRoot(RootOpt{Ver: 2, Roles: r, Sigs: sigs})
	case "timestamp":
		return MkTS(1, Meta{Ver: 1}, expValid, sigs)
	case "snapshot":
		return MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, expValid, sigs)
	}
	return MkTG("tg", 1, map[string]TF{"f": TFof("x")}, nil, expValid, sigs)
}

func runC01(c *Ctx) {
	pool := Ks("k1 k2 k3")
	kinds := []string{"root", "timestamp", "snapshot", "targets"}
	type deleg struct {
		name   string
		mk     func(nk, thr int) *Doc
		role   []string
		kinds  []string
		fullNK bool
	}
	other := Ks("o1")
	dels := []deleg{
		{"root", func(nk, thr int) *Doc {
			r := map[string]RoleSpec{}
			for _, n := range kinds {
				r[n] = RoleSpec{pool[:nk], thr}
			}
			return MkRoot(RootOpt{Ver: 1, Roles: r})
		}, nil, kinds, true},
		{"named", func(nk, thr int) *Doc {
			return MkTG("targets", 1, nil, &Deleg{Roles: []DRole{{Name: "A", Keys: other, Thr: 1, Paths: []string{"*"}}, {Name: "B", Keys: pool[:nk], Thr: thr, Paths: []string{"*"}}}}, expValid, good(Ks("z")))
		}, []string{"B", "A", "C", "targets", ""}, []string{"targets"}, true},
		{"succinct", func(nk, thr int) *Doc {
			return MkTG("targets", 1, nil, &Deleg{Succ: &Succ{Keys: pool[:nk], Thr: thr, Bits: 3, Prefix: "bin"}}, expValid, good(Ks("z")))
		}, []string{"bin-0", "bin-7", "bin-8", "bin-00", "bin", "other", "targets", "bin-+1", "bin-A", "BIN-1"}, []string{"targets"}, true},
	}
	for _, dl := range dels {
		for _, kind := range dl.kinds {
			roles := dl.role
			if roles == nil {
				roles = []string{kind}
				if kind == "targets" {
					roles = append(roles, "A", "")
				}
			}
			for nk := 0; nk <= 3; nk++ {
				for thr := -1; thr <= 4; thr++ {
					c.Case(func() string {
						return fmt.Sprintf("%s delegator, %d keys listed, threshold %d, %s document", dl.name, nk, thr, kind)
					}, func(t *T) {
						dd := dl.mk(nk, thr)
						dr, err := loadReal(dd)
						if err != nil {
							if thr < 1 {
								t.Outcome("delegator refused")
								return
							}
							t.Fail("delegator does not load: %v", err)
						}
						n := 6 * 6 * 6
						for a := 0; a < n; a++ {
							for f := 0; f < 3; f++ {
								ks := []int{a % 6, a / 6 % 6, a / 36}
								var sigs []SigOpt
								for i, k := range ks {
									if s, has := sigOf(pool[i], k); has {
										sigs = append(sigs, s)
									}
								}
								if f >= 1 {
									sigs = append(sigs, SigOpt{Key: K("foreign")})
								}
								if f == 2 { // reversed order
									for i, j := 0, len(sigs)-1; i < j; i, j = i+1, j-1 {
										sigs[i], sigs[j] = sigs[j], sigs[i]
									}
								}
								d := mkKind(kind, sigs)
								dm, err := loadReal(d)
								if err != nil {
									t.Fail("document %s does not load: %v", d, err)
								}
								for _, role := range roles {
									want := verify(dd, role, d)
									err := verifyReal(dr, role, dm)
									t.Trans(1)
									t.State(fmt.Sprint(dl.name, kind, nk, thr, a, f, role))
									t.Outcome(string("v:" + want))
									if (err == nil) != (want == ok) {
										t.Log("delegator %s", dd)
										t.Log("document %s", d)
										t.Fail("VerifyDelegate(%q): %s, expected %q", role, refused(err), want)
									}
								}
							}
						}
					})
				}
			}
		}
	}
	// thresholds of any size are counted as they are
	for _, dl := range dels {
		for _, thr := range []int{5, 127, 128, 129, 255, 256, 257, 258, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<32 + 2, 1<<53 + 1, 1<<63 - 1} {
			c.Case(func() string { return fmt.Sprintf("%s delegator, threshold %d", dl.name, thr) }, func(t *T) {
				dd := dl.mk(3, thr)
				dr, err := loadReal(dd)
				if err != nil {
					t.Outcome("delegator refused")
					return
				}
				for _, kind := range dl.kinds {
					for k := 0; k <= 3; k++ {
						d := mkKind(kind, append([]SigOpt{}, good(pool[:k])...))
						dm, err := loadReal(d)
						must(err)
						role := kind
						if dl.role != nil {
							role = dl.role[0]
						}
						t.Trans(1)
						t.State(fmt.Sprint(dl.name, kind, thr, k))
						if err := verifyReal(dr, role, dm); err == nil {
							t.Fail("VerifyDelegate(%q) accepted %d signatures for a threshold of %d", role, k, thr)
						}
					}
				}
			})
		}
	}
	// many keys: every count of good signatures against every threshold around it
	for _, nk := range []int{9, 10, 16, 17, 33} {
		for _, dl := range dels {
			c.Case(func() string { return fmt.Sprintf("%s delegator, %d keys", dl.name, nk) }, func(t *T) {
				save := pool
				defer func() { pool = save }()
				pool = nil
				for i := 0; i < nk; i++ {
					pool = append(pool, K(fmt.Sprintf("many%d", i)))
				}
				for _, thr := range []int{1, 2, 8, 9, 10, 15, 16, 17, 32, 33} {
					if thr > nk {
						continue
					}
					dd := dl.mk(nk, thr)
					dr, err := loadReal(dd)
					must(err)
					kind := dl.kinds[0]
					role := kind
					if dl.role != nil {
						role = dl.role[0]
					}
					for k := 0; k <= nk; k++ {
						if !c.Thorough() && k > 1 && k < nk && (k < thr-1 || k > thr+1) {
							continue
						}
						for _, bad := range []bool{false, true} {
							for _, back := range []bool{false, true} {
								var sg []SigOpt
								for i, key := range pool {
									in := i < k
									if back {
										in = i >= nk-k
									}
									if in {
										sg = append(sg, SigOpt{Key: key})
									} else if bad {
										sg = append(sg, SigOpt{Key: key, Corrupt: true})
									}
								}
								if sg == nil {
									sg = []SigOpt{}
								}
								dm, err := loadReal(mkKind(kind, sg))
								must(err)
								err = verifyReal(dr, role, dm)
								t.Trans(1)
								t.State(fmt.Sprint(dl.name, nk, thr, k, bad, back))
								if (err == nil) != (k >= thr) {
									t.Fail("VerifyDelegate(%q) with %d good signatures (others corrupt: %v) of %d keys, threshold %d: %s", role, k, bad, nk, thr, refused(err))
								}
							}
						}
					}
				}
			})
		}
	}
	runC01Names(c)
	// a delegator without delegations, and repeated key IDs / signatures
	runC01Before(c)
	runC01Ids(c)
	c.Case(func() string { return "targets without delegations" }, func(t *T) {
		dd := MkTG("targets", 1, nil, nil, expValid, good(Ks("z")))
		dr, _ := loadReal(dd)
		d := mkKind("targets", good(pool))
		dm, _ := loadReal(d)
		for _, role := range []string{"A", "targets", ""} {
			if err := verifyReal(dr, role, dm); err == nil {
				t.Fail("role %q accepted from a delegator that delegates nothing", role)
			}
			t.Trans(1)
		}
	})
	for _, lists := range [][]int{{0, 0}, {0, 0, 0}, {0, 1, 0}, {1, 0, 0}, {0, 1, 1}} {
		for thr := 1; thr <= 3; thr++ {
			for mask := 0; mask < 4; mask++ {
				for rep := 1; rep <= 3; rep++ {
					for _, style := range []string{"root", "named", "succinct"} {
						c.Case(func() string {
							return fmt.Sprintf("%s: key list %v threshold %d signers %b, each signature repeated %d times", style, lists, thr, mask, rep)
						}, func(t *T) {
							var ks []*Key
							for _, i := range lists {
								ks = append(ks, pool[i])
							}
							var dd *Doc
							role, kind := "targets", "targets"
							switch style {
							case "root":
								r := map[string]RoleSpec{}
								for _, n := range kinds {
									r[n] = RoleSpec{ks, thr}
								}
								dd = MkRoot(RootOpt{Ver: 1, Roles: r, Sigs: good(pool)})
							case "named":
								role = "B"
								dd = MkTG("targets", 1, nil, &Deleg{Roles: []DRole{{Name: "B", Keys: ks, Thr: thr, Paths: []string{"*"}}}}, expValid, nil)
							default:
								role = "bin-3"
								dd = MkTG("targets", 1, nil, &Deleg{Succ: &Succ{Keys: ks, Thr: thr, Bits: 3, Prefix: "bin"}}, expValid, nil)
							}
							dr, err := loadReal(dd)
							if err != nil {
								t.Fail("delegator does not load: %v", err)
							}
							var sigs []SigOpt
							for i := 0; i < 2; i++ {
								if mask>>i&1 == 1 {
									sigs = append(sigs, SigOpt{Key: pool[i]})
								}
							}
							d := mkKind(kind, sigs)
							dm, err := loadReal(d)
							if err != nil {
								t.Fail("document does not load: %v", err)
							}
							m := dm.(*MTG)
							base := m.Signatures
							for r := 1; r < rep; r++ {
								m.Signatures = append(m.Signatures, base...)
							}
							want := verify(dd, role, d)
							err = verifyReal(dr, role, m)
							t.Trans(1)
							t.State(fmt.Sprint(style, lists, thr, mask, rep))
							if (err == nil) != (want == ok) {
								t.Log("delegator %s", dd)
								t.Log("document %s", d)
								t.Fail("VerifyDelegate(%q): %s, expected %q", role, refused(err), want)
							}
						})
					}
				}
			}
		}
	}
}

// spellings are strings that resemble an identifier or a name.
func spellings(s string) map[string]string {
	return map[string]string{"exact": s, "upper": strings.ToUpper(s), "lower": strings.ToLower(s), "first upper": strings.ToUpper(s[:1]) + s[1:], "space after": s + " ", "space before": " " + s,
		"newline after": s + "\n", "twice": s + s, "cut": s[:len(s)-1], "zero byte": s + "\x00", "0x": "0x" + s, "dot": s + ".json", "slash": "./" + s, "escaped": "%" + fmt.Sprintf("%02X", s[0]) + s[1:], "empty": ""}
}

func sigList(m any) *[]metadata.Signature {
	switch x := m.(type) {
	case *MRoot:
		return &x.Signatures
	case *MTG:
		return &x.Signatures
	case *metadata.Metadata[metadata.TimestampType]:
		return &x.Signatures
	case *metadata.Metadata[metadata.SnapshotType]:
		return &x.Signatures
	}
	panic(harnessError{"metadata type"})
}

// runC01Names: key identifiers and role names count only as they are written.
// runC01Before: what was verified earlier, in this process or with this object, counts for nothing.
func runC01Before(c *Ctx) {
	ks := Ks("k1 k2 k3")
	kinds := []string{"root", "timestamp", "snapshot", "targets"}
	for _, from := range kinds {
		for _, to := range kinds {
			c.Case(func() string { return fmt.Sprintf("%s verified, then %s with its signatures", from, to) }, func(t *T) {
				r := map[string]RoleSpec{}
				for _, n := range kinds {
					r[n] = RoleSpec{ks, 2}
				}
				dr, err := loadReal(MkRoot(RootOpt{Ver: 1, Roles: r, Sigs: good(ks)}))
				must(err)
				mk := func(kind string, ver int64, so []SigOpt) *Doc {
					switch kind {
					case "root":
						return MkRoot(RootOpt{Ver: ver, Roles: r, Sigs: so})
					case "timestamp":
						return MkTS(ver, Meta{Ver: ver}, expValid, so)
					case "snapshot":
						return MkSN(ver, map[string]Meta{"targets.json": {Ver: ver}}, expValid, so)
					}
					return MkTG("targets", ver, nil, nil, expValid, so)
				}
				try := func(role string, m any, want bool, what string) {
					var err error
					if x := guard(func() { err = verifyReal(dr, role, m) }); x != "" {
						t.Fail("%s: %s", what, x)
					}
					t.Trans(1)
					if (err == nil) != want {
						t.Fail("%s: %s, expected verified=%v", what, refused(err), want)
					}
				}
				for mask := 1; mask < 8; mask++ {
					var so []SigOpt
					n := 0
					for i, k := range ks {
						if mask>>i&1 == 1 {
							so = append(so, SigOpt{Key: k})
							n++
						}
					}
					a, err := loadReal(mk(from, 5, so))
					must(err)
					b, err := loadReal(mk(to, 6, so))
					must(err)
					other, err := loadReal(mk(to, 7, nil))
					must(err)
					bad, err := loadReal(mk(to, 6, so))
					must(err)
					t.State(fmt.Sprint(from, to, mask))
					for rep := 0; rep < 2; rep++ {
						try(from, a, n >= 2, "the first")
						*sigList(other) = *sigList(a)
						try(to, other, false, "another document with the signatures of the first")
						try(to, b, n >= 2, "the second")
						*sigList(other) = *sigList(b)
						try(to, other, false, "another version with the signatures of the second")
						// all at once, and the same signatures under the other keys
						*sigList(other) = append(append([]metadata.Signature{}, *sigList(a)...), *sigList(b)...)
						try(to, other, false, "another version with the signatures of both")
						var mixed []metadata.Signature
						for i, g := range *sigList(b) {
							g.KeyID = so[(i+1)%len(so)].Key.ID
							mixed = append(mixed, g)
						}
						*sigList(bad) = mixed
						try(to, bad, false, "the second with signatures of its keys exchanged")
						*sigList(bad) = nil
						try(to, bad, false, "the second without signatures")
						*sigList(bad) = *sigList(b)
						try(to, bad, n >= 2, "the second with its signatures again")
						// the same object, changed after it was verified
						bump(b, 8)
						try(to, b, false, "the second, changed after it was verified")
						bump(b, 6)
						try(to, b, n >= 2, "the second, changed back")
					}
				}
			})
		}
	}
}

// runC01Ids: delegators that give one key identifier to different keys. What one of them accepted or
// refused earlier in this process means nothing to another.
func runC01Ids(c *Ctx) {
	keys := Ks("k1 k2")
	named := func(k *Key) *Key { x := *k; x.ID = "shared"; return &x }
	type dlg struct {
		name, role string
		key        int
		mk         func(k *Key) *Doc
	}
	var ds []dlg
	for i := range keys {
		for _, st := range []struct {
			name, role string
			mk         func(k *Key) *Doc
		}{
			{"root", "targets", func(k *Key) *Doc {
				r := map[string]RoleSpec{"root": {Ks("z"), 1}, "timestamp": {Ks("z"), 1}, "snapshot": {Ks("z"), 1}, "targets": {[]*Key{k}, 1}}
				return MkRoot(RootOpt{Ver: 1, Roles: r, Sigs: good(Ks("z"))})
			}},
			{"named", "B", func(k *Key) *Doc {
				return MkTG("targets", 1, nil, &Deleg{Roles: []DRole{{Name: "B", Keys: []*Key{k}, Thr: 1, Paths: []string{"*"}}}}, expValid, good(Ks("z")))
			}},
			{"succinct", "bin-0", func(k *Key) *Doc {
				return MkTG("targets", 1, nil, &Deleg{Succ: &Succ{Keys: []*Key{k}, Thr: 1, Bits: 1, Prefix: "bin"}}, expValid, good(Ks("z")))
			}},
		} {
			ds = append(ds, dlg{fmt.Sprintf("%s with %s", st.name, keys[i].Name), st.role, i, st.mk})
		}
	}
	type sgn struct {
		ver  int64 // of the content
		key  int
		over int64 // the content the signature was made over
	}
	var ss []sgn
	for _, v := range []int64{1, 2} {
		for k := range keys {
			for _, o := range []int64{1, 2} {
				ss = append(ss, sgn{v, k, o})
			}
		}
	}
	n := len(ds) * len(ss)
	call := func(i int) (dlg, sgn) { return ds[i/len(ss)], ss[i%len(ss)] }
	for a := 0; a < n; a++ {
		a := a
		c.Case(func() string {
			d, s := call(a)
			return fmt.Sprintf("one identifier for two keys: %s verifies %+v, then two more", d.name, s)
		}, func(t *T) {
			run := func(i int) {
				d, s := call(i)
				x, y := named(keys[d.key]), named(keys[s.key])
				dr, err := loadReal(d.mk(x))
				must(err)
				m, err := loadReal(MkTG("targets", s.ver, nil, nil, expValid, []SigOpt{{Key: y}}))
				must(err)
				if s.over != s.ver {
					o, err := loadReal(MkTG("targets", s.over, nil, nil, expValid, []SigOpt{{Key: y}}))
					must(err)
					*sigList(m) = *sigList(o)
				}
				t.Log("%s verifies version %d with %s's signature over version %d", d.name, s.ver, keys[s.key].Name, s.over)
				var verr error
				if p := guard(func() { verr = verifyReal(dr, d.role, m) }); p != "" {
					t.Fail("%s", p)
				}
				t.Trans(1)
				if want := d.key == s.key && s.ver == s.over; (verr == nil) != want {
					t.Fail("VerifyDelegate: %s, expected verified=%v", refused(verr), want)
				}
			}
			for b := 0; b < n; b++ {
				if !c.Thorough() && a/len(ss) == b/len(ss) {
					continue
				}
				for e := 0; e < n; e++ {
					if !c.Thorough() && e/len(ss) != a/len(ss) && e/len(ss) != b/len(ss) {
						continue
					}
					t.Reset()
					run(a)
					run(b)
					run(e)
				}
				t.State(fmt.Sprint("shared", a, b))
			}
		})
	}
}

// bump sets the version of a metadata object.
func bump(m any, v int64) {
	switch x := m.(type) {
	case *MRoot:
		x.Signed.Version = v
	case *MTS:
		x.Signed.Version = v
	case *MSN:
		x.Signed.Version = v
	case *MTG:
		x.Signed.Version = v
	}
}

func runC01Names(c *Ctx) {
	ks := Ks("k1 k2")
	type ent struct {
		k     int
		spell string
		id    string
		bad   bool
	}
	var ents []ent
	for k := range ks {
		for _, n := range sortedKeys(spellings(ks[k].ID)) {
			if v := spellings(ks[k].ID)[n]; n == "exact" || v != ks[k].ID {
				ents = append(ents, ent{k, n, v, false}, ent{k, n, v, true})
			}
		}
	}
	for _, style := range []string{"root", "named", "succinct"} {
		for _, kind := range []string{"root", "timestamp", "snapshot", "targets"} {
			if style != "root" && kind != "targets" {
				continue
			}
			for thr := 1; thr <= 2; thr++ {
				c.Case(func() string {
					return fmt.Sprintf("%s delegator, threshold %d, %s signatures under other spellings of the key ID", style, thr, kind)
				}, func(t *T) {
					role := kind
					var dd *Doc
					switch style {
					case "root":
						r := map[string]RoleSpec{}
						for _, n := range []string{"root", "timestamp", "snapshot", "targets"} {
							r[n] = RoleSpec{ks, thr}
						}
						dd = MkRoot(RootOpt{Ver: 1, Roles: r, Sigs: good(ks)})
					case "named":
						role = "B"
						dd = MkTG("targets", 1, nil, &Deleg{Roles: []DRole{{Name: "B", Keys: ks, Thr: thr, Paths: []string{"*"}}}}, expValid, nil)
					default:
						role = "bin-3"
						dd = MkTG("targets", 1, nil, &Deleg{Succ: &Succ{Keys: ks, Thr: thr, Bits: 3, Prefix: "bin"}}, expValid, nil)
					}
					dr, err := loadReal(dd)
					must(err)
					dm, err := loadReal(mkKind(kind, good(ks)))
					must(err)
					gl := append([]metadata.Signature{}, *sigList(dm)...)
					try := func(es []ent) {
						list := []metadata.Signature{}
						n := map[int]bool{}
						for i, e := range es {
							for _, o := range es[:i] {
								if o.id == e.id {
									return
								}
							}
							g := gl[e.k]
							b := append([]byte{}, g.Signature...)
							if e.bad {
								b[3] ^= 1
							}
							list = append(list, metadata.Signature{KeyID: e.id, Signature: b})
							if e.spell == "exact" && !e.bad {
								n[e.k] = true
							}
						}
						*sigList(dm) = list
						err := verifyReal(dr, role, dm)
						t.Trans(1)
						t.State(fmt.Sprint(style, kind, thr, es))
						if (err == nil) != (len(n) >= thr) {
							t.Fail("VerifyDelegate(%q) with signatures %+v: %s, %d count for a threshold of %d", role, es, refused(err), len(n), thr)
						}
					}
					for _, a := range ents {
						try([]ent{a})
						for _, b := range ents {
							try([]ent{a, b})
							if thr == 2 && (a.spell == "exact" && b.spell == "exact" || c.Thorough()) {
								for _, d := range ents {
									try([]ent{a, b, d})
								}
							}
						}
					}
				})
			}
		}
	}
	// role lists that name keys under other spellings: such a name stands for no key
	c.Case(func() string { return "role lists with other spellings of a key ID" }, func(t *T) {
		for _, style := range []string{"root", "named", "succinct"} {
			kind, role := "targets", map[string]string{"root": "targets", "named": "B", "succinct": "bin-3"}[style]
			for _, n := range sortedKeys(spellings(ks[0].ID)) {
				v := spellings(ks[0].ID)[n]
				if v == ks[0].ID {
					continue
				}
				for _, lists := range [][]string{{v}, {ks[0].ID, v}, {v, ks[0].ID}, {ks[1].ID, v}, {v, ks[1].ID}} {
					for thr := 1; thr <= 2; thr++ {
						for mask := 1; mask < 8; mask++ { // who signs: k1, k2, k1 under the other spelling
							dr, err := loadReal(map[string]func() *Doc{"root": func() *Doc {
								return MkRoot(RootOpt{Ver: 1, Roles: map[string]RoleSpec{"root": {ks, 1}, "timestamp": {ks, 1}, "snapshot": {ks, 1}, "targets": {ks, thr}}, Sigs: good(ks)})
							}, "named": func() *Doc {
								return MkTG("targets", 1, nil, &Deleg{Roles: []DRole{{Name: "B", Keys: ks, Thr: thr, Paths: []string{"*"}}}}, expValid, nil)
							}, "succinct": func() *Doc {
								return MkTG("targets", 1, nil, &Deleg{Succ: &Succ{Keys: ks, Thr: thr, Bits: 3, Prefix: "bin"}}, expValid, nil)
							}}[style]())
							must(err)
							switch style {
							case "root":
								dr.(*MRoot).Signed.Roles["targets"].KeyIDs = lists
							case "named":
								dr.(*MTG).Signed.Delegations.Roles[0].KeyIDs = lists
							default:
								dr.(*MTG).Signed.Delegations.SuccinctRoles.KeyIDs = lists
							}
							dm, err := loadReal(mkKind(kind, good(ks)))
							must(err)
							sl := sigList(dm)
							g := append([]metadata.Signature{}, *sl...)
							*sl = nil
							have := 0
							for i := 0; i < 2; i++ {
								if mask>>i&1 == 1 {
									*sl = append(*sl, g[i])
									for _, l := range lists {
										if l == ks[i].ID {
											have++
										}
									}
								}
							}
							if mask&4 != 0 {
								*sl = append(*sl, metadata.Signature{KeyID: v, Signature: g[0].Signature})
							}
							t.Trans(1)
							t.State(fmt.Sprint(style, n, lists, thr, mask))
							if err := verifyReal(dr, role, dm); err == nil && have < thr {
								t.Fail("%s: VerifyDelegate(%q) accepted with %d signatures by listed keys for a threshold of %d, list %q, signers %b", style, role, have, thr, lists, mask)
							}
						}
					}
				}
			}
		}
	})
	// names of delegated roles count only as they are written
	c.Case(func() string { return "delegated roles with similar names" }, func(t *T) {
		var names []string
		for _, n := range []string{"Ba", "targets"} {
			for _, k := range sortedKeys(spellings(n)) {
				if v := spellings(n)[k]; !slices.Contains(names, v) {
					names = append(names, v)
				}
			}
		}
		docs := []*Doc{mkKind("targets", good(ks[:1])), mkKind("targets", good(ks[1:]))}
		var dms []any
		for _, d := range docs {
			m, err := loadReal(d)
			must(err)
			dms = append(dms, m)
		}
		for _, a := range names {
			for _, b := range names {
				dd := MkTG("targets", 1, nil, &Deleg{Roles: []DRole{{Name: a, Keys: ks[:1], Thr: 1, Paths: []string{"*"}}, {Name: b, Keys: ks[1:], Thr: 1, Paths: []string{"*"}}}}, expValid, nil)
				dr, err := loadReal(dd)
				if err != nil {
					t.Outcome("delegator refused")
					continue
				}
				for _, q := range names {
					for i, dm := range dms {
						want := verify(dd, q, docs[i])
						err := verifyReal(dr, q, dm)
						t.Trans(1)
						t.State(fmt.Sprintf("%q %q %q %d", a, b, q, i))
						if (err == nil) != (want == ok) {
							t.Fail("delegator of %q and %q: VerifyDelegate(%q) signed by the key of number %d: %s, expected %q", a, b, q, i, refused(err), want)
						}
					}
				}
			}
		}
	})
}
