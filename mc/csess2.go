package main

import (
	"fmt"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
)

// sessionsC03: histories of three sessions over a shared cache, with a monotonicity invariant on
// what ends up trusted and cached.
func sessionsC03(c *Ctx) {
	root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: true})
	s := func(n string) []SigOpt { return good(Ks(n)) }
	dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
	type st struct {
		ts, sn, tg, a int64
		drop, exp     bool
		bound         bool // lengths and hashes are declared, every document has a length of its own
	}
	var sts []st
	for ts := int64(1); ts <= 3; ts++ {
		for sn := int64(1); sn <= 2; sn++ {
			for tg := int64(1); tg <= 2; tg++ {
				for a := int64(1); a <= 2; a++ {
					if !c.Thorough() && (tg+a+ts+sn)%2 == 1 {
						continue
					}
					sts = append(sts, st{ts, sn, tg, a, false, false, false})
				}
			}
		}
	}
	sts = append(sts, st{3, 2, 2, 2, true, false, false}, st{3, 2, 2, 2, false, true, false}, st{2, 2, 1, 1, false, true, false})
	sts = append(sts, st{1, 1, 2, 2, false, false, true}, st{2, 2, 1, 2, false, false, true}, st{2, 2, 2, 1, false, false, true}, st{3, 2, 2, 2, true, false, true}, st{3, 2, 3, 3, false, false, true}, st{3, 3, 2, 2, false, false, true})
	world := func(x st) World {
		tg := MkTG("targets", x.tg, nil, dl, expValid, s("tg"))
		a := MkTG("A", x.a, map[string]TF{"x": TFof(fmt.Sprint(x.a))}, nil, expValid, s("A"))
		m := map[string]Meta{"targets.json": {Ver: x.tg}, "A.json": {Ver: x.a}}
		if x.drop {
			delete(m, "A.json")
		}
		if x.bound { // the more roles are listed, the longer
			m["targets.json"] = metaOf(tg, true, true)
			if !x.drop {
				m["A.json"] = metaOf(a, true, true)
			}
			for i := int64(0); i < 3*x.tg+x.a+2*x.sn; i++ {
				m[fmt.Sprintf("other-%d.json", i)] = Meta{Ver: 1}
			}
		}
		sn := MkSN(x.sn, m, expValid, s("sn"))
		ts := MkTS(x.ts, metaOf(sn, x.bound, x.bound), exps(x.exp), s("ts"))
		return World{}.put(true, "timestamp", ts).put(true, "snapshot", sn).put(true, "targets", tg).put(true, "A", a)
	}
	for i := range sts {
		for j := range sts {
			c.Case(func() string { return fmt.Sprintf("sessions %+v, %+v, then each state", sts[i], sts[j]) }, func(t *T) {
				for k := range sts {
					t.Reset()
					cache := MCache{}
					var hi [2]*MSet
					for n, x := range []int{i, j, k} {
						m := session(t, root, cache, defCfg(), world(sts[x]).net, time.Time{}, []call{"refresh", "get x"})
						// what this session trusts is never older than what the cache proves was trusted before
						old, now := cache, m
						if o := old["timestamp.json"]; o != nil && now.Set.TS != nil {
							if now.Set.TS.Ver < o.Ver || now.Set.TS.Snap.Ver < o.Snap.Ver {
								t.Fail("session %d trusts %s after %s", n, now.Set.TS, o)
							}
						}
						if o := old["snapshot.json"]; o != nil && now.Set.SN != nil {
							for f, w := range o.Meta {
								if g, has := now.Set.SN.Meta[f]; !has || g.Ver < w.Ver {
									t.Fail("session %d trusts %s after %s", n, now.Set.SN, o)
								}
							}
						}
						for _, f := range []string{"timestamp.json", "snapshot.json", "targets.json", "A.json"} {
							if o := old[f]; o != nil && (now.Cache[f] == nil || now.Cache[f].Ver < o.Ver) && f != "A.json" && f != "targets.json" {
								t.Fail("session %d leaves %s in the cache after %s", n, now.Cache[f], o)
							}
						}
						hi[0] = m.Set
						cache = m.Cache
						t.State(cache.key())
					}
				}
			})
		}
	}
}

// rotationsC03: the same while the root is rotated any number of times between and within the sessions,
// the timestamp and snapshot keys staying the same.
func rotationsC03(c *Ctx) {
	s := func(n string) []SigOpt { return good(Ks(n)) }
	roots := []*Doc{MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: true}),
		MkRoot(RootOpt{Ver: 2, Roles: stdRoles(Ks("a"), 1), CS: true, Exp: expExpired}),
		MkRoot(RootOpt{Ver: 3, Roles: stdRoles(Ks("b"), 1), CS: true, Sigs: good(Ks("a b"))}),
		MkRoot(RootOpt{Ver: 4, Roles: stdRoles(Ks("b"), 1), CS: true, Sigs: s("b")})}
	dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
	type st struct{ ts, sn, tg int64 }
	sts := []st{{1, 1, 1}, {2, 2, 2}, {2, 1, 1}, {1, 2, 2}, {3, 2, 1}, {3, 3, 2}}
	ends := Pick(c, []int{1, 3, 4}, []int{1, 3, 4}) // root 2 is expired and never the last
	world := func(end int, x st) World {
		w := World{}
		tg := MkTG("targets", x.tg, nil, dl, expValid, s("tg"))
		a := MkTG("A", 1, map[string]TF{"x": TFof("x")}, nil, expValid, s("A"))
		sn := MkSN(x.sn, map[string]Meta{"targets.json": {Ver: x.tg}, "A.json": {Ver: 1}}, expValid, s("sn"))
		w.put(true, "timestamp", MkTS(x.ts, metaOf(sn, false, false), expValid, s("ts"))).put(true, "snapshot", sn).put(true, "targets", tg).put(true, "A", a)
		for _, r := range roots[1:end] {
			w.put(true, "root", r)
		}
		return w
	}
	for i := range sts {
		for j := range sts {
			c.Case(func() string { return fmt.Sprintf("root rotations, states %+v, %+v, then each state", sts[i], sts[j]) }, func(t *T) {
				for k := range sts {
					for _, e1 := range ends {
						for _, e2 := range ends {
							for _, e3 := range ends {
								if !c.Thorough() && e3 < e2 {
									continue
								}
								t.Reset()
								cache := MCache{}
								ee := []int{e1, e2, e3}
								for n, x := range []int{i, j, k} {
									t.Log("session %d: roots up to %d, state %+v", n, ee[n], sts[x])
									old := cache
									m := session(t, roots[0], cache, defCfg(), world(ee[n], sts[x]).net, time.Time{}, []call{"refresh", "get x"})
									if o, now := old["timestamp.json"], m.Set.TS; o != nil && now != nil && (now.Ver < o.Ver || now.Snap.Ver < o.Snap.Ver) {
										t.Fail("session %d trusts %s after %s", n, now, o)
									}
									if o, now := old["snapshot.json"], m.Set.SN; o != nil && now != nil {
										for f, w := range o.Meta {
											if g, has := now.Meta[f]; !has || g.Ver < w.Ver {
												t.Fail("session %d trusts %s after %s", n, now, o)
											}
										}
									}
									cache = m.Cache
									t.State("rotations " + cache.key())
								}
							}
						}
					}
				}
			})
		}
	}
}

// sessionsC04: the clock moves between New, Refresh and the lookups; the reference time is that of New.
func sessionsC04(c *Ctx) {
	if !hooked {
		panic(harnessError{"C04 needs the hooked build"})
	}
	base := time.Date(2031, 3, 3, 3, 3, 3, 0, time.UTC)
	offs := []time.Duration{-time.Nanosecond, 0, time.Hour, 48 * time.Hour}
	moves := []time.Duration{-24 * time.Hour, 0, 2 * time.Hour, 24 * 365 * time.Hour}
	roles := []string{"root", "timestamp", "snapshot", "targets", "A"}
	// each role expires at one of the offsets from New, the clock then moves by m1 and m2
	for _, cached := range []bool{false, true} {
		for _, m1 := range moves {
			for _, m2 := range moves {
				for ri, r := range roles {
					c.Case(func() string {
						return fmt.Sprintf("cached=%v clock moves %v %v, expiry of %s and others", cached, m1, m2, r)
					}, func(t *T) {
						for _, o := range offs {
							for oi, other := range roles {
								if oi < ri {
									continue
								}
								for _, o2 := range offs {
									if other == r && o2 != offs[0] {
										continue
									}
									e := map[string]string{}
									for _, x := range roles {
										e[x] = expValid
									}
									e[r] = base.Add(o).Format(time.RFC3339Nano)
									if other != r {
										e[other] = base.Add(o2).Format(time.RFC3339Nano)
									}
									root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: true, Exp: e["root"]})
									dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
									w := World{}
									w.put(true, "A", MkTG("A", 1, map[string]TF{"x": TFof("x")}, nil, e["A"], good(Ks("A"))))
									w.put(true, "targets", MkTG("targets", 1, nil, dl, e["targets"], good(Ks("tg"))))
									w.put(true, "snapshot", MkSN(1, map[string]Meta{"targets.json": {Ver: 1}, "A.json": {Ver: 1}}, e["snapshot"], good(Ks("sn"))))
									w.put(true, "timestamp", MkTS(1, Meta{Ver: 1}, e["timestamp"], good(Ks("ts"))))
									cache := MCache{}
									if cached {
										for p, d := range w {
											cache[roleOfPath(p)+".json"] = d
										}
									}
									t.Reset()
									dir := t.Dir()
									must(mkdirAll(dir + "/md"))
									cache.fill(dir + "/md")
									now := base
									setClock(func() time.Time { return now })
									m, v := newMClient(root, cache, defCfg(), w.net, base)
									rc, err := newRClient(root, dir, defCfg(), w.net)
									if err != nil || v != ok {
										t.Fail("New: %v %s", err, v)
									}
									now = now.Add(m1)
									runCall(t, m, rc, "refresh")
									now = now.Add(m2)
									runCall(t, m, rc, "get x")
									set := rc.Up.GetTrustedMetadataSet()
									if !set.RefTime.Equal(base) {
										t.Fail("reference time %v, the client was created at %v", set.RefTime, base)
									}
									if d := cacheDiff(rc.Dir, m.Cache); d != "" {
										t.Fail("cache: %s", d)
									}
									setClock(nil)
									t.State(fmt.Sprint(cached, m1, m2, r, o, other, o2))
								}
							}
						}
					})
				}
			}
		}
	}
	// the trusted set itself takes its reference time when it is created
	c.Case(func() string { return "reference time of a trusted metadata set" }, func(t *T) {
		for _, zone := range []*time.Location{time.UTC, time.FixedZone("e", 9*3600)} {
			setClock(func() time.Time { return base.In(zone) })
			root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1)})
			r, err := trustedmetadata.New(root.Bytes)
			setClock(nil)
			if err != nil || !r.RefTime.Equal(base) {
				t.Fail("RefTime %v err %v", r.RefTime, err)
			}
			t.Trans(1)
		}
	})
}
