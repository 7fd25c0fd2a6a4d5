package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

// ---- C09: damaged caches ----

type repoDocs struct {
	anchor         *Doc
	ts, sn, tg, a  *Doc
	world          World
	ots, osn, otg  *Doc // an older, valid state
	oa             *Doc
	ets, esn, etg  *Doc // expired
	twin, twinA    *Doc // same version as tg / a, other content
	twinSN, twinTS *Doc
}

func mkRepoDocs(cs, hashes bool) *repoDocs {
	s := func(n string) []SigOpt { return good(Ks(n)) }
	dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
	r := &repoDocs{anchor: MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: cs})}
	r.tg = MkTG("targets", 2, nil, dl, expValid, s("tg"))
	r.a = MkTG("A", 2, map[string]TF{"x": TFof("x2")}, nil, expValid, s("A"))
	mo := func(d *Doc) Meta { return metaOf(d, hashes, hashes) }
	r.sn = MkSN(2, map[string]Meta{"targets.json": mo(r.tg), "A.json": mo(r.a)}, expValid, s("sn"))
	r.ts = MkTS(2, mo(r.sn), expValid, s("ts"))
	r.world = World{}.put(cs, "timestamp", r.ts).put(cs, "snapshot", r.sn).put(cs, "targets", r.tg).put(cs, "A", r.a)
	r.otg = MkTG("targets", 1, nil, dl, expValid, s("tg"))
	r.oa = MkTG("A", 1, map[string]TF{"x": TFof("x1")}, nil, expValid, s("A"))
	r.osn = MkSN(1, map[string]Meta{"targets.json": mo(r.otg), "A.json": mo(r.oa)}, expValid, s("sn"))
	r.ots = MkTS(1, mo(r.osn), expValid, s("ts"))
	r.etg = MkTG("targets", 1, nil, dl, expExpired, s("tg"))
	r.esn = MkSN(1, map[string]Meta{"targets.json": mo(r.otg)}, expExpired, s("sn"))
	r.ets = MkTS(1, mo(r.osn), expExpired, s("ts"))
	r.twin = MkTG("targets", 2, map[string]TF{"evil": TFof("e")}, dl, expValid, s("tg"))
	r.twinA = MkTG("A", 2, map[string]TF{"x": TFof("evil")}, nil, expValid, s("A"))
	r.twinSN = MkSN(2, map[string]Meta{"targets.json": mo(r.otg), "A.json": mo(r.oa)}, expValid, s("sn"))
	r.twinTS = MkTS(2, mo(r.osn), expValid, s("ts"))
	return r
}

// dmg is a content of a cached file; nil doc: missing.
type dmg struct {
	name string
	d    *Doc
}

func (r *repoDocs) damages(role string) []dmg {
	cur := map[string]*Doc{"timestamp": r.ts, "snapshot": r.sn, "targets": r.tg, "A": r.a}[role]
	old := map[string]*Doc{"timestamp": r.ots, "snapshot": r.osn, "targets": r.otg, "A": r.oa}[role]
	other := map[string]*Doc{"timestamp": r.sn, "snapshot": r.tg, "targets": r.a, "A": r.tg}[role]
	exp := map[string]*Doc{"timestamp": r.ets, "snapshot": r.esn, "targets": r.etg, "A": r.oa}[role]
	bad := r.anchor
	flipped := append([]byte{}, cur.Bytes...)
	if i := strings.Index(string(flipped), `"version":2`); i >= 0 {
		flipped[i+len(`"version":`)] = '9'
	}
	dup := append([]byte{}, cur.Bytes...)
	if i := strings.Index(string(dup), `"signatures":[`); i >= 0 {
		j := i + len(`"signatures":[`)
		end := strings.Index(string(dup[j:]), "]") + j
		one := string(dup[j:end])
		dup = []byte(string(dup[:j]) + one + "," + one + string(dup[end:]))
	}
	return []dmg{{"current", cur}, {"missing", nil}, {"older", old}, {"expired", exp}, {"other role's", other}, {"root's", bad},
		{"foreign signature", reSigned(cur, good(Ks("foreign")), " foreign")},
		{"unsigned", reSigned(cur, []SigOpt{}, " unsigned")},
		{"empty", Junk("empty", []byte{})}, {"cut short", truncated(cur)}, {"one byte short", Junk(cur.Name+" -1", cur.Bytes[:len(cur.Bytes)-1])},
		{"not JSON", Junk("notjson", []byte("\x00\xffnot json"))}, {"null", Junk("null", []byte("null"))}, {"array", Junk("array", []byte("[]"))},
		{"no signed", Junk("nosigned", []byte(`{"signatures":[]}`))}, {"wrong types", Junk("types", []byte(`{"signed":{"_type":"`+map[string]string{"A": "targets"}[role]+role+`","version":"x"},"signatures":{}}`))},
		{"changed after signing", reg(&Doc{Name: cur.Name + " tampered", Kind: cur.Kind, Bytes: flipped, Ver: 9, Exp: cur.Exp, Valid: map[string]bool{}, Snap: cur.Snap, Meta: cur.Meta, Tgts: cur.Tgts, Deleg: cur.Deleg})},
		{"duplicate signature", Junk(cur.Name+" dup sig", dup)}}
}

func runC09(c *Ctx) {
	runSpellings(c, false)
	cachedRoots(c)
	for _, v := range []struct{ cs, hashes bool }{{true, true}, {false, false}} {
		r := mkRepoDocs(v.cs, v.hashes)
		dts, dsn, dtg, da := r.damages("timestamp"), r.damages("snapshot"), r.damages("targets"), r.damages("A")
		for i := range dts {
			for j := range dsn {
				c.Case(func() string {
					return fmt.Sprintf("cs=%v hashes=%v timestamp %s, snapshot %s", v.cs, v.hashes, dts[i].name, dsn[j].name)
				}, func(t *T) {
					for k := range dtg {
						for l := range da {
							if !c.Thorough() && (l+k+j+i)%6 != 0 && l != k {
								continue
							}
							t.Reset()
							cache := MCache{}
							put := func(f string, d dmg) {
								if d.d != nil {
									cache[f] = d.d
								}
							}
							put("timestamp.json", dts[i])
							put("snapshot.json", dsn[j])
							put("targets.json", dtg[k])
							put("A.json", da[l])
							t.Log("targets %s, A %s", dtg[k].name, da[l].name)
							t.State(fmt.Sprint(v, i, j, k, l))
							m := session(t, r.anchor, cache, defCfg(), r.world.net, time.Time{}, []call{"refresh", "get x"})
							// stated independently of the model's rules
							if m.Set.TS != r.ts && m.Set.TS.SigID != r.ts.SigID {
								t.Fail("timestamp %s trusted", m.Set.TS)
							}
							if m.Set.SN != r.sn || m.Set.TG["targets"] != r.tg || m.Set.TG["A"] != r.a {
								t.Fail("ended with %s", m.Set)
							}
							want := MCache{"root.json": r.anchor, "timestamp.json": r.ts, "snapshot.json": r.sn, "targets.json": r.tg, "A.json": r.a}
							if m.Cache.key() != want.key() {
								t.Fail("cache not repaired: %s", m.Cache)
							}
						}
					}
				})
			}
		}
		// content that is not damaged but not what the trusted metadata calls for
		for _, w := range []struct {
			role string
			d    *Doc
		}{{"targets", r.twin}, {"A", r.twinA}, {"snapshot", r.twinSN}, {"timestamp", r.twinTS}} {
			c.Case(func() string {
				return fmt.Sprintf("cs=%v hashes=%v cached %s with the right version and other content", v.cs, v.hashes, w.role)
			}, func(t *T) {
				for _, rest := range []bool{true, false} {
					cache := MCache{}
					if rest {
						cache = MCache{"timestamp.json": r.ts, "snapshot.json": r.sn, "targets.json": r.tg, "A.json": r.a}
					}
					cache[w.role+".json"] = w.d
					m := session(t, r.anchor, cache, defCfg(), r.world.net, time.Time{}, []call{"refresh", "get x"})
					if v.hashes && (w.role == "targets" || w.role == "A") && (m.Set.TG["targets"] != r.tg || m.Set.TG["A"] != r.a) {
						t.Fail("cached %s used against the declared hash", w.d)
					}
				}
			})
		}
	}
}

// cachedRoots: whatever root.json the cache holds, the session starts from the root it was given.
func cachedRoots(c *Ctx) {
	for _, cs := range []bool{true, false} {
		r := mkRepoDocs(cs, true)
		evil := func(ver int64, sig string) *Doc {
			f := Ks("foreign")
			return MkRoot(RootOpt{Ver: ver, Roles: map[string]RoleSpec{"root": {f, 1}, "timestamp": {f, 1}, "snapshot": {f, 1}, "targets": {f, 1}}, CS: cs, Sigs: good(Ks(sig))})
		}
		chain := []*Doc{r.anchor,
			MkRoot(RootOpt{Ver: 2, Roles: stdRoles(Ks("b"), 1), CS: cs, Sigs: good(Ks("a b"))}),
			MkRoot(RootOpt{Ver: 3, Roles: stdRoles(Ks("b"), 1), CS: cs, Sigs: good(Ks("b"))})}
		bad := []dmg{{"missing", nil}, {"empty", Junk("empty", nil)}, {"not JSON", Junk("notjson", []byte("\x00\xffnot json"))}, {"null", Junk("null", []byte("null"))}, {"cut", truncated(r.anchor)},
			{"timestamp", r.ts}, {"targets", r.tg}, {"unsigned", reSigned(chain[1], []SigOpt{}, " unsigned")},
			{"older key only", reSigned(chain[1], good(Ks("a")), " by a")}, {"newer key only", reSigned(chain[1], good(Ks("b")), " by b")}}
		for v := int64(0); v <= 5; v++ {
			bad = append(bad, dmg{fmt.Sprint("foreign root ", v), evil(v, "foreign")}, dmg{fmt.Sprint("foreign root signed by a ", v), evil(v, "a foreign")})
		}
		for _, b := range bad {
			for n := 1; n <= len(chain); n++ {
				c.Case(func() string { return fmt.Sprintf("cs=%v cached root %s, %d roots served", cs, b.name, n) }, func(t *T) {
					for start := 0; start < n; start++ {
						for _, rest := range []bool{false, true} {
							t.Reset()
							cache := MCache{}
							if rest {
								cache = MCache{"timestamp.json": r.ts, "snapshot.json": r.sn, "targets.json": r.tg, "A.json": r.a}
							}
							if b.d != nil {
								cache["root.json"] = b.d
							}
							w := World{}
							for p, d := range r.world {
								w[p] = d
							}
							for _, d := range chain[1:n] {
								w[fmt.Sprintf("%d.root.json", d.Ver)] = d
							}
							t.Log("anchor %s, rest cached=%v", chain[start], rest)
							t.State(fmt.Sprint(cs, b.name, n, start, rest))
							m := session(t, chain[start], cache, defCfg(), w.net, time.Time{}, []call{"refresh", "get x"})
							if m == nil {
								t.Fail("no client")
							}
							if m.Set.Root != chain[n-1] || m.Set.TG["targets"] != r.tg || m.Cache["root.json"] != chain[n-1] {
								t.Fail("ended with %s, cache %s", m.Set, m.Cache)
							}
						}
					}
				})
			}
		}
	}
}

// ---- C22: requests ----

func runC22(c *Ctx) {
	maxDev := Pick(c, 1, 2)
	for _, cs := range []bool{true, false} {
		for _, hashes := range []bool{true, false} {
			if hashes {
				runC22Nested(c, cs)
				runC22Bases(c, cs)
			}
			// a server with root versions up to 4
			s := func(n string) []SigOpt { return good(Ks(n)) }
			dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}, {Name: "r/1 +", Keys: Ks("B"), Thr: 1, Paths: []string{"*"}}}}
			a := MkTG("A", 7, map[string]TF{"no": TFof("x")}, nil, expValid, s("A"))
			b := MkTG("r/1 +", 8, map[string]TF{"x": TFof("x")}, nil, expValid, s("B"))
			tg := MkTG("targets", 6, nil, dl, expValid, s("tg"))
			mo := func(d *Doc) Meta { return metaOf(d, hashes, hashes) }
			sn := MkSN(5, map[string]Meta{"targets.json": mo(tg), "A.json": mo(a), "r/1 +.json": mo(b)}, expValid, s("sn"))
			ts := MkTS(4, mo(sn), expValid, s("ts"))
			// older metadata for a warm cache
			sn0 := MkSN(4, map[string]Meta{"targets.json": mo(tg), "A.json": mo(a)}, expValid, s("sn"))
			ts0 := MkTS(3, mo(sn0), expValid, s("ts"))
			var roots []*Doc
			for v := int64(1); v <= 5; v++ {
				roots = append(roots, MkRoot(RootOpt{Ver: v, Roles: stdRoles(Ks("a"), 1), CS: cs}))
			}
			u := &universe{anchor: roots[0], worlds: map[string]World{}, script: []call{"refresh", "get x", "get x", "get nowhere"}}
			for n := 1; n <= 5; n += 2 {
				w := World{}
				for _, r := range roots[:n] {
					w.put(cs, "root", r)
				}
				w.put(cs, "timestamp", ts).put(cs, "snapshot", sn).put(cs, "targets", tg)
				if cs {
					w["7.A.json"], w["8.r%2F1+%2B.json"] = a, b
				} else {
					w["A.json"], w["r%2F1+%2B.json"] = a, b
				}
				u.add(fmt.Sprintf("roots to %d", n), w)
			}
			cfgs := []SCfg{defCfg()}
			for _, n := range []int64{0, 1, 2, 3, 4} {
				x := defCfg()
				x.MaxRoots = n
				cfgs = append(cfgs, x)
			}
			lim := func(f func(x *SCfg)) {
				x := defCfg()
				f(&x)
				cfgs = append(cfgs, x)
			}
			for _, d := range []int64{0, -1} {
				lim(func(x *SCfg) { x.RootMax = int64(len(roots[0].Bytes)) + d })
				lim(func(x *SCfg) { x.TSMax = int64(len(ts.Bytes)) + d })
				lim(func(x *SCfg) { x.SNMax = int64(len(sn.Bytes)) + d })
				lim(func(x *SCfg) { x.TGMax = int64(len(tg.Bytes)) + d })
			}
			lim(func(x *SCfg) { x.MaxDeleg = 0 })
			lim(func(x *SCfg) { x.MaxDeleg = 1 })
			lim(func(x *SCfg) { x.NoCache = true })
			lim(func(x *SCfg) { x.RootMax, x.TSMax, x.SNMax, x.TGMax = 1<<40, 1<<41, 1<<42, 1<<43 })
			kinds := []string{"404", "403", "500", "302", "net", "download", "wrapped404"}
			for ci, cfg := range cfgs {
				for _, w := range u.names {
					for ki, cache := range []MCache{{}, {"timestamp.json": ts0, "snapshot.json": sn0, "targets.json": tg, "A.json": a}, {"timestamp.json": ts, "snapshot.json": sn, "targets.json": tg, "A.json": a, "r%2F1+%2B.json": b}} {
						if !c.Thorough() && ki == 2 && ci > 3 {
							continue
						}
						c.Case(func() string { return fmt.Sprintf("cs=%v hashes=%v %+v %s cache %d", cs, hashes, cfg, w, ki) }, func(t *T) {
							var rec func(devs map[int]string, from int)
							rec = func(devs map[int]string, from int) {
								t.Reset()
								t.Log("failing requests %v", devs)
								base := u.worlds[w]
								m := session(t, roots[0], cache, cfg, func(n int, p string) Reply {
									if e, has := devs[n]; has {
										return Reply{Err: e}
									}
									return base.net(n, p)
								}, time.Time{}, u.script)
								t.State(fmt.Sprint(cs, hashes, cfg, w, ki, m.Reqs, m.Why))
								checkReqs(t, m, cfg)
								if len(devs) >= maxDev {
									return
								}
								for n := from; n < len(m.Reqs); n++ {
									for _, k := range kinds {
										nd := map[int]string{n: k}
										for a, b := range devs {
											nd[a] = b
										}
										rec(nd, n+1)
									}
								}
							}
							rec(nil, 0)
						})
					}
				}
			}
			// every status and error at every request
			for _, w := range u.names {
				for _, cache := range []MCache{{}, {"timestamp.json": ts, "snapshot.json": sn, "targets.json": tg, "A.json": a}} {
					for n := 0; n < 12; n++ {
						if !c.Thorough() && (hashes || w != u.names[1]) {
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("cs=%v hashes=%v %s cache %s request %d fails in every way", cs, hashes, w, cache, n)
						}, func(t *T) {
							kinds := []string{"net", "download", "toolong", "eof", "deadline", "wrapped403", "wrapped404", "wrapped500"}
							for code := 100; code < 600; code++ {
								kinds = append(kinds, fmt.Sprint(code))
							}
							// and answers that cannot be used, or belong elsewhere
							bodies := map[string]*Doc{}
							for _, d := range []*Doc{Junk("empty", nil), Junk("blank", []byte("\n")), Junk("null", []byte("null")), Junk("{}", []byte("{}")), Junk("html", []byte("<html>404</html>")), truncated(ts), truncated(sn), truncated(tg), ts0, sn0, ts, sn, tg, a, b, roots[0], roots[1], reSigned(ts, good(Ks("foreign")), " foreign"), reSigned(sn, good(Ks("foreign")), " foreign")} {
								k := "body " + d.Name
								bodies[k] = d
								kinds = append(kinds, k)
							}
							for _, k := range kinds {
								t.Reset()
								t.Log("request %d: %s", n, k)
								base := u.worlds[w]
								m := session(t, roots[0], cache, defCfg(), func(i int, p string) Reply {
									if i == n && bodies[k] != nil {
										return Reply{Doc: bodies[k]}
									}
									if i == n {
										return Reply{Err: k}
									}
									return base.net(i, p)
								}, time.Time{}, []call{"refresh", "get x"})
								checkReqs(t, m, defCfg())
								if len(m.Reqs) <= n {
									break
								}
								t.State(fmt.Sprint(cs, hashes, w, k, m.Reqs, m.Why))
							}
						})
					}
				}
			}
			if hashes {
				runC22Lengths(c, cs)
			}
			// a server that never stops offering roots or delegations
			for _, n := range []int64{0, 1, 2, 7, 32, 40} {
				c.Case(func() string { return fmt.Sprintf("cs=%v endless roots and delegations, limit %d", cs, n) }, func(t *T) {
					w := World{}
					for v := int64(2); v <= 60; v++ {
						w.put(cs, "root", MkRoot(RootOpt{Ver: v, Roles: stdRoles(Ks("a"), 1), CS: cs}))
					}
					meta := map[string]Meta{}
					mk := func(i int) *Deleg {
						return &Deleg{Roles: []DRole{{Name: fmt.Sprintf("D%d", i+1), Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
					}
					for i := 1; i <= 60; i++ {
						d := MkTG(fmt.Sprintf("D%d", i), 1, map[string]TF{fmt.Sprintf("t%d", i): TFof("x")}, mk(i), expValid, s("A"))
						w.put(cs, fmt.Sprintf("D%d", i), d)
						meta[fmt.Sprintf("D%d.json", i)] = Meta{Ver: 1}
					}
					meta["targets.json"] = Meta{Ver: 1}
					w.put(cs, "targets", MkTG("targets", 1, nil, mk(0), expValid, s("tg")))
					w.put(cs, "snapshot", MkSN(1, meta, expValid, s("sn")))
					w.put(cs, "timestamp", MkTS(1, Meta{Ver: 1}, expValid, s("ts")))
					cfg := defCfg()
					cfg.MaxRoots, cfg.MaxDeleg = n, int(n)
					m := session(t, roots[0], MCache{}, cfg, w.net, time.Time{}, []call{"get nowhere", "get t1", "get t30", "get t33"})
					checkReqs(t, m, cfg)
					if len(m.Reqs) > int(2*n+4) && n > 0 {
						t.Fail("%d requests with limits of %d", len(m.Reqs), n)
					}
					t.State(fmt.Sprint(cs, n))
				})
			}
		}
	}
}

// runC22Nested: delegated roles are asked for once each, whatever names them and however often they are walked.
func runC22Nested(c *Ctx, cs bool) {
	g := newGWorld(nil)
	root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: cs})
	lists := map[string][]gList{
		"targets": append(gLists([]string{"A", "B", "C"}, "m", 3), gList{{"A", 'm'}, {"targets", 'm'}, {"B", 'm'}}, gList{{"targets", 'm'}, {"A", 'm'}}),
		"A":       append(gLists([]string{"B", "C", "targets"}, "m", 2), gList{{"A", 'm'}, {"B", 'm'}}),
		"B":       gLists([]string{"C", "A"}, "m", Pick(c, 1, 2)),
		"C":       {{}, {{"A", 'm'}}, {{"B", 'm'}}},
	}
	for _, tl := range lists["targets"] {
		for _, al := range lists["A"] {
			c.Case(func() string { return fmt.Sprintf("cs=%v targets names %s, A names %s", cs, tl, al) }, func(t *T) {
				for _, bl := range lists["B"] {
					for _, cl := range lists["C"] {
						w := World{}
						w.put(cs, "timestamp", g.ts).put(cs, "snapshot", g.sn)
						w.put(cs, "targets", g.doc("targets", tl, "")).put(cs, "A", g.doc("A", al, "")).put(cs, "B", g.doc("B", bl, "")).put(cs, "C", g.doc("C", cl, ""))
						for mode := 0; mode < 3; mode++ {
							cfg := defCfg()
							net, cache := w.net, MCache{}
							switch mode {
							case 1:
								cfg.NoCache = true
							case 2: // some cached, A failing once
								cache = MCache{"B.json": w[map[bool]string{true: "1.B.json", false: "B.json"}[cs]]}
								net = func(n int, p string) Reply {
									if n == 5 {
										return Reply{Err: "500"}
									}
									return w.net(n, p)
								}
							}
							t.Reset()
							t.Log("B names %s, C names %s, mode %d", bl, cl, mode)
							m := session(t, root, cache, cfg, net, time.Time{}, []call{"refresh", "get nowhere", "get p4", "get nowhere", "get p1", "get p2"})
							checkReqs(t, m, cfg)
							t.State(fmt.Sprint("nested", cs, tl, al, bl, cl, mode))
						}
					}
				}
			})
		}
	}
}

// runC22Lengths tries every combination of declarations over the files of a repository,
// and versions of every size.
func runC22Lengths(c *Ctx, cs bool) {
	s := func(n string) []SigOpt { return good(Ks(n)) }
	root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: cs})
	script := []call{"refresh", "get x", "get nowhere"}
	decls := []string{"nothing", "length", "hash", "both", "one less", "one more", "huge", "one byte"}
	decl := func(k string, d *Doc) Meta {
		m := metaOf(d, k != "nothing" && k != "hash", k == "hash" || k == "both")
		switch k {
		case "one less":
			m.Len--
		case "one more":
			m.Len++
		case "huge":
			m.Len = 1 << 50
		case "one byte":
			m.Len = 1
		}
		return m
	}
	dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}, {Name: "B", Keys: Ks("B"), Thr: 1, Paths: []string{"*"}}}}
	a := MkTG("A", 7, map[string]TF{"no": TFof("x")}, nil, expValid, s("A"))
	b := MkTG("B", 8, map[string]TF{"x": TFof("x")}, nil, expValid, s("B"))
	tg := MkTG("targets", 6, nil, dl, expValid, s("tg"))
	build := func(ks [4]string) (World, int, int) {
		sn := MkSN(5, map[string]Meta{"targets.json": decl(ks[1], tg), "A.json": decl(ks[2], a), "B.json": decl(ks[3], b)}, expValid, s("sn"))
		ts := MkTS(4, decl(ks[0], sn), expValid, s("ts"))
		w := World{}
		w.put(cs, "timestamp", ts).put(cs, "snapshot", sn).put(cs, "targets", tg).put(cs, "A", a).put(cs, "B", b)
		return w, len(ts.Bytes), len(sn.Bytes)
	}
	for _, k0 := range decls {
		for _, k1 := range decls {
			c.Case(func() string { return fmt.Sprintf("cs=%v timestamp declares %s, snapshot %s", cs, k0, k1) }, func(t *T) {
				for _, k2 := range decls {
					for _, k3 := range decls {
						if !c.Thorough() && k2 != k3 && k2 != "nothing" && k3 != "nothing" && k2 != "length" && k3 != "length" {
							continue
						}
						w, _, nsn := build([4]string{k0, k1, k2, k3})
						for li := 0; li < 3; li++ {
							cfg := defCfg()
							switch li {
							case 1: // the configured limits are exactly enough
								cfg.SNMax, cfg.TGMax = int64(nsn), int64(max(len(a.Bytes), len(b.Bytes), len(tg.Bytes)))
							case 2: // they are too small for anything
								cfg.SNMax, cfg.TGMax = 2, 3
							}
							t.Reset()
							t.Log("A: %s, B: %s, limits %+v", k2, k3, cfg)
							m := session(t, root, MCache{}, cfg, w.net, time.Time{}, script)
							checkReqs(t, m, cfg)
							t.State(fmt.Sprint(cs, k0, k1, k2, k3, li))
						}
					}
				}
			})
		}
	}
	// versions of every size, in every role
	vers := []int64{-1, 0, 1, 9, 10, 99, 100, 999, 1000, 10000, 100000, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1 << 62, 1<<63 - 1}
	c.Case(func() string { return fmt.Sprintf("cs=%v versions of every size", cs) }, func(t *T) {
		for _, v := range vers {
			for role := 0; role < 5; role++ {
				vs := [5]int64{4, 5, 6, 7, 8}
				vs[role] = v
				a := MkTG("A", vs[3], map[string]TF{"no": TFof("x")}, nil, expValid, s("A"))
				b := MkTG("B", vs[4], map[string]TF{"x": TFof("x")}, nil, expValid, s("B"))
				tg := MkTG("targets", vs[2], nil, dl, expValid, s("tg"))
				sn := MkSN(vs[1], map[string]Meta{"targets.json": decl("both", tg), "A.json": decl("both", a), "B.json": decl("both", b)}, expValid, s("sn"))
				ts := MkTS(vs[0], decl("both", sn), expValid, s("ts"))
				w := World{}
				w.put(cs, "timestamp", ts).put(cs, "snapshot", sn).put(cs, "targets", tg).put(cs, "A", a).put(cs, "B", b)
				t.Reset()
				t.Log("version %d of role %d", v, role)
				m := session(t, root, MCache{}, defCfg(), w.net, time.Time{}, script)
				checkReqs(t, m, defCfg())
				t.State(fmt.Sprint(cs, v, role))
			}
		}
	})
	// anchors at every version, roots after them
	c.Case(func() string { return fmt.Sprintf("cs=%v anchors of every version", cs) }, func(t *T) {
		for _, v := range vers {
			for n := int64(0); n < 4; n++ {
				if v == 1<<63-1 { // there is no version after it
					continue
				}
				w, _, _ := build([4]string{"both", "both", "both", "both"})
				for i := int64(1); i <= n; i++ {
					w.put(cs, "root", MkRoot(RootOpt{Ver: v + i, Roles: stdRoles(Ks("a"), 1), CS: cs}))
				}
				anchor := MkRoot(RootOpt{Ver: v, Roles: stdRoles(Ks("a"), 1), CS: cs})
				for _, lim := range []int64{0, 1, 2, 3, 32} {
					cfg := defCfg()
					cfg.MaxRoots = lim
					t.Reset()
					t.Log("anchor %d, %d roots after it, limit %d", v, n, lim)
					m := session(t, anchor, MCache{}, cfg, w.net, time.Time{}, script)
					checkReqs(t, m, cfg)
					t.State(fmt.Sprint(cs, v, n, lim))
				}
			}
		}
	})
}

// checkReqs states the bounds of C22 directly on the request sequence. A session in this check
// refreshes again after every failed attempt, so the bounds hold per attempt.
func checkReqs(t *T, m *MClient, cfg SCfg) {
	attempts := 1
	for i, r := range m.Reqs {
		if r.Path == "timestamp.json" && i > 0 {
			attempts++
		}
	}
	n := map[string]int{}
	for _, r := range m.Reqs {
		n[roleOfPath(r.Path)]++
		role := roleOfPath(r.Path)
		max := map[string]int64{"root": cfg.RootMax, "timestamp": cfg.TSMax, "snapshot": cfg.SNMax}[role]
		if max == 0 {
			max = cfg.TGMax
		}
		if r.Limit > max && (role == "root" || role == "timestamp") {
			t.Fail("request %s above the configured maximum %d", r, max)
		}
	}
	_ = attempts
}

// ---- C23: unsafe local mode ----

func runC23(c *Ctx) {
	runSpellings(c, true)
	for _, hashes := range []bool{true, false} {
		r := mkRepoDocs(true, hashes)
		s := func(n string) []SigOpt { return good(Ks(n)) }
		anchors := []*Doc{r.anchor,
			MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: true, Exp: expExpired}),
			MkRoot(RootOpt{Ver: 3, Roles: map[string]RoleSpec{"root": {Ks("a"), 1}, "timestamp": {Ks("ts2"), 1}, "snapshot": {Ks("sn"), 1}, "targets": {Ks("tg"), 1}}, CS: true, Sigs: s("a")})}
		dts, dsn, dtg, da := r.damages("timestamp"), r.damages("snapshot"), r.damages("targets"), r.damages("A")
		dts = append(dts, dmg{"twin", r.twinTS})
		dsn = append(dsn, dmg{"twin", r.twinSN})
		dtg = append(dtg, dmg{"twin", r.twin})
		da = append(da, dmg{"twin", r.twinA})
		for ai, anchor := range anchors {
			for i := range dts {
				for j := range dsn {
					c.Case(func() string {
						return fmt.Sprintf("hashes=%v anchor %d timestamp %s snapshot %s", hashes, ai, dts[i].name, dsn[j].name)
					}, func(t *T) {
						cfg := defCfg()
						cfg.Unsafe = true
						for k := range dtg {
							for l := range da {
								// the delegated role only matters once the top level loads
								top := dts[i].d == r.ts && dsn[j].d == r.sn && dtg[k].d == r.tg || dts[i].d == r.ots && dsn[j].d == r.osn && dtg[k].d == r.otg
								if !top && l > 0 && !c.Thorough() {
									break
								}
								t.Reset()
								t.Log("targets %s, A %s", dtg[k].name, da[l].name)
								cache := MCache{}
								for f, d := range map[string]dmg{"timestamp.json": dts[i], "snapshot.json": dsn[j], "targets.json": dtg[k], "A.json": da[l]} {
									if d.d != nil {
										cache[f] = d.d
									}
								}
								for _, sc := range [][]call{{"refresh", "get x"}, {"get x"}} {
									m := session(t, anchor, cache, cfg, func(n int, p string) Reply {
										panic(failure{msg: "request in unsafe local mode: " + p})
									}, time.Time{}, sc)
									if m == nil {
										continue
									}
									// independent statement: what is trusted are the cached files themselves
									okAll := m.Set.TG["targets"] != nil
									if okAll && (m.Set.TS != dts[i].d || m.Set.SN != dsn[j].d || m.Set.TG["targets"] != dtg[k].d) {
										t.Fail("yields %s", m.Set)
									}
								}
								t.State(fmt.Sprint(hashes, ai, i, j, k, l))
							}
						}
					})
				}
			}
		}
	}
}

// ---- C26: disabled cache ----

func runC26(c *Ctx) {
	if !hooked {
		panic(harnessError{"C26 needs the hooked build"})
	}
	runC26More(c)
	for _, cs := range []bool{true, false} {
		u := stdUniverse(cs, true)
		for _, pre := range []string{"no directories", "empty directories", "filled"} {
			for _, w := range u.names {
				c.Case(func() string { return fmt.Sprintf("cs=%v %s, %s", cs, pre, w) }, func(t *T) {
					cfg := defCfg()
					n := &cnode{cache: MCache{}, anchor: u.anchor}
					if pre == "filled" {
						n.cache = u.modelRun(n, edge{"S2", nil}, cfg).Cache
						n.cache["root.json"] = u.anchor
					}
					maxDev := Pick(c, 1, 2)
					u.edgesFromWorld(n, cfg, maxDev, w, func(e edge, mm *MClient) {
						t.Reset()
						t.Log("against %s", e)
						dir := t.Dir()
						if pre != "no directories" {
							must(mkdirAll(filepath.Join(dir, "md")))
							must(mkdirAll(filepath.Join(dir, "tg")))
							n.cache.fill(filepath.Join(dir, "md"))
						}
						if pre == "filled" {
							must(os.WriteFile(filepath.Join(dir, "tg", "t"), []byte("t1"), 0o644))
						}
						before := readDir(dir)
						var bad []string
						setFS(func(x fsCall) syscall.Errno {
							if x.mutates() {
								bad = append(bad, fmt.Sprintf("%s %s %s %o", x.Op, x.A, x.B, x.N))
							}
							return 0
						})
						nc := cfg
						nc.NoCache = true
						m, _ := newMClient(n.anchor, n.cache, nc, u.net(e.world, e.devs), time.Now())
						r, err := newRClient(n.anchor, dir, nc, u.net(e.world, e.devs))
						if err != nil {
							t.Fail("New: %v", err)
						}
						for _, s := range u.script {
							runCall(t, m, r, s)
						}
						// downloading and looking for cached targets
						for _, data := range []string{"t1", "other"} {
							r.F.net = func(int, string) Reply { return Reply{Doc: &Doc{Bytes: []byte(data)}} }
							for _, fp := range []string{"", filepath.Join(dir, "tg", "t"), filepath.Join(dir, "new")} {
								tf, err := metadata.TargetFile().FromBytes("t", []byte("t1"))
								must(err)
								p, _, err := r.Up.FindCachedTarget(tf, fp)
								if p != "" || err != nil {
									t.Fail("FindCachedTarget(%q) reports %q, %v", fp, p, err)
								}
								_, got, err := r.Up.DownloadTarget(tf, fp, "")
								if (err == nil) != (data == "t1") || err == nil && string(got) != data {
									t.Fail("DownloadTarget of %q: %q, %v", data, got, err)
								}
								t.Trans(2)
							}
						}
						hookOff()
						if len(bad) > 0 {
							t.Fail("file-system changes with caching disabled: %v", bad)
						}
						if fmt.Sprint(readDir(dir)) != fmt.Sprint(before) {
							t.Fail("directories changed: %v", readDir(dir))
						}
						// the same results as with the cache enabled
						if d := setDiffM(m.Set, mm.Set); d != "" && pre != "filled" {
							t.Fail("differs from the caching client: %s", d)
						}
						t.State(fmt.Sprint(cs, pre, e))
					})
				})
			}
		}
	}
}

func setDiffM(a, b *MSet) string {
	if a.String() != b.String() {
		return a.String() + " / " + b.String()
	}
	return ""
}

var _ = func() int {
	register(&Check{ID: "C09", Run: runC09,
		Rule: "every combination of 18 contents (current, missing, older, expired, another role's, foreign or no signature, cut, not JSON, tampered, duplicate signature ...) of the cached timestamp, snapshot and targets files with those of a delegated role (quick: a covering subset of the delegated ones), consistent snapshots and hashes on/off, against an honest server; end state, cache and requests compared; every cached document respelled (white space, member order, escapes, number forms, encodings) and large ones; 22 contents of the cached root; directories, links and unreadable things in the place of files"})
	register(&Check{ID: "C22", Run: runC22,
		Rule: "all configurations of root rotation limit 0..4/32, size limits at and one below the actual size, delegation limits, cache cold/stale/warm, root chain of 1/3/5, declared lengths on/off, consistent snapshots on/off, with every failing request (thorough: pair) out of seven error kinds; exact request and limit sequence against the reference; endless root and delegation chains; metadata and target locations in every form (trailing slashes, empty path, query, fragment, escapes) against the requests they must lead to"})
	register(&Check{ID: "C23", Run: runC23,
		Rule: "every combination of 19 contents of cached timestamp, snapshot and targets (delegated role too once the top level loads) under three anchors, with and without declared hashes; any request is a violation; result and trusted set against the reference; every cached document respelled"})
	register(&Check{ID: "C26", Run: runC26,
		Rule: "12 repository states x single (thorough: pairs of) deviating answers x directory absent/empty/filled; every mutating file-system call of New, Refresh, lookups, DownloadTarget and FindCachedTarget is a violation; results compared with the caching client"})
	return 0
}()
