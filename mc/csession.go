package main

import (
	"fmt"
	"strings"
	"time"
)

// universe is a set of repository states for the session checks.
type universe struct {
	anchor *Doc
	names  []string
	worlds map[string]World
	pool   map[string][]*Doc // role -> documents an attacker may replay for it
	script []call
}

func (u *universe) add(name string, w World) {
	u.names = append(u.names, name)
	u.worlds[name] = w
}

func roleOfPath(p string) string {
	p = strings.TrimSuffix(p, ".json")
	if i := strings.Index(p, "."); i >= 0 && strings.Trim(p[:i], "0123456789") == "" {
		p = p[i+1:]
	}
	return p
}

// put adds documents under their paths.
func (w World) put(cs bool, role string, d *Doc) World {
	switch {
	case role == "root":
		w[fmt.Sprintf("%d.root.json", d.Ver)] = d
	case role == "timestamp" || !cs:
		w[role+".json"] = d
	default:
		w[fmt.Sprintf("%d.%s.json", d.Ver, role)] = d
	}
	return w
}

func (w World) clone() World {
	n := World{}
	for k, v := range w {
		n[k] = v
	}
	return n
}

// misSigned returns the same content with the signatures broken.
func reSigned(d *Doc, sigs []SigOpt, suffix string) *Doc {
	e := d.Exp.Format(time.RFC3339Nano)
	n := finish(d.Name+suffix, d.Kind, d.signed, d.Ver, e, sigs)
	n.Roles, n.CS, n.Snap, n.Meta, n.Tgts, n.Deleg = d.Roles, d.CS, d.Snap, d.Meta, d.Tgts, d.Deleg
	return reg(n)
}

func truncated(d *Doc) *Doc { return Junk(d.Name+" cut short", d.Bytes[:len(d.Bytes)/2]) }

// stdUniverse: three honest states, fast-forward attacks, a freeze, and recoveries through key rotation.
func stdUniverse(cs, hashes bool) *universe {
	s := func(n string) []SigOpt { return good(Ks(n)) }
	r1 := stdRoles(Ks("a"), 1)
	root1 := MkRoot(RootOpt{Ver: 1, Roles: r1, CS: cs})
	r2 := map[string]RoleSpec{"root": {Ks("b"), 1}, "timestamp": {Ks("ts2"), 1}, "snapshot": {Ks("sn2"), 1}, "targets": {Ks("tg"), 1}}
	root2 := MkRoot(RootOpt{Ver: 2, Roles: r2, CS: cs, Sigs: good(Ks("a b"))})
	rt := map[string]RoleSpec{"root": {Ks("b"), 1}, "timestamp": {Ks("ts2"), 1}, "snapshot": {Ks("sn2"), 1}, "targets": {Ks("tg2"), 1}}
	root3 := MkRoot(RootOpt{Ver: 3, Roles: rt, CS: cs, Sigs: good(Ks("b"))})
	root3exp := MkRoot(RootOpt{Ver: 3, Roles: rt, CS: cs, Sigs: good(Ks("b")), Exp: expExpired})
	root2exp := MkRoot(RootOpt{Ver: 2, Roles: r2, CS: cs, Sigs: good(Ks("a b")), Exp: expExpired})
	dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"d/*"}}, {Name: "B", Keys: Ks("B"), Thr: 1, Paths: []string{"d/*"}}}}
	tg1 := MkTG("targets", 1, map[string]TF{"t": TFof("t1")}, dl, expValid, s("tg"))
	tg2 := MkTG("targets", 2, map[string]TF{"t": TFof("t2")}, dl, expValid, s("tg"))
	tg3 := MkTG("targets", 3, map[string]TF{"t": TFof("t3")}, dl, expValid, s("tg2"))
	tgX := MkTG("targets", 2, map[string]TF{"t": TFof("t2x")}, dl, expExpired, s("tg"))
	a1 := MkTG("A", 1, map[string]TF{"d/a": TFof("a1")}, nil, expValid, s("A"))
	a2 := MkTG("A", 2, map[string]TF{"d/a": TFof("a2")}, nil, expValid, s("A"))
	b1 := MkTG("B", 1, map[string]TF{"d/a": TFof("no"), "d/b": TFof("b1")}, nil, expValid, s("B"))
	mo := func(d *Doc) Meta { return metaOf(d, hashes, hashes) }
	mm := func(t, a, b *Doc) map[string]Meta {
		return map[string]Meta{"targets.json": mo(t), "A.json": mo(a), "B.json": mo(b)}
	}
	sn1 := MkSN(1, mm(tg1, a1, b1), expValid, s("sn"))
	sn2 := MkSN(2, mm(tg1, a2, b1), expValid, s("sn"))
	sn3 := MkSN(3, mm(tg2, a2, b1), expValid, s("sn"))
	snX := MkSN(3, mm(tg2, a2, b1), expExpired, s("sn"))
	snTX := MkSN(3, mm(tgX, a2, b1), expValid, s("sn"))
	sn9 := MkSN(9, map[string]Meta{"targets.json": {Ver: 9}, "A.json": {Ver: 9}, "B.json": {Ver: 9}}, expValid, s("sn"))
	snR := MkSN(4, mm(tg2, a2, b1), expValid, s("sn2"))
	snR3 := MkSN(5, mm(tg3, a2, b1), expValid, s("sn2"))
	ts1 := MkTS(1, mo(sn1), expValid, s("ts"))
	ts2 := MkTS(2, mo(sn2), expValid, s("ts"))
	ts3 := MkTS(3, mo(sn3), expValid, s("ts"))
	tsX := MkTS(4, mo(sn3), expExpired, s("ts"))
	tsSX := MkTS(4, mo(snX), expValid, s("ts"))
	tsTX := MkTS(4, mo(snTX), expValid, s("ts"))
	ts9 := MkTS(9, mo(sn3), expValid, s("ts"))
	ts99 := MkTS(9, mo(sn9), expValid, s("ts"))
	tsR := MkTS(4, mo(snR), expValid, s("ts2"))
	tsR1 := MkTS(1, mo(snR), expValid, s("ts2"))
	tsR3 := MkTS(5, mo(snR3), expValid, s("ts2"))
	u := &universe{anchor: root1, worlds: map[string]World{}, script: []call{"refresh", "get d/a", "get d/b"}}
	mk := func(roots []*Doc, ts *Doc, sns []*Doc, tgs []*Doc, as []*Doc) World {
		w := World{}
		for _, r := range roots {
			w.put(cs, "root", r)
		}
		w.put(cs, "timestamp", ts)
		for _, d := range sns {
			w.put(cs, "snapshot", d)
		}
		for _, d := range tgs {
			w.put(cs, "targets", d)
		}
		for _, d := range as {
			w.put(cs, "A", d)
		}
		return w.put(cs, "B", b1)
	}
	L := func(d ...*Doc) []*Doc { return d }
	one := L(root1)
	u.add("S1", mk(one, ts1, L(sn1), L(tg1), L(a1)))
	u.add("S2", mk(one, ts2, L(sn1, sn2), L(tg1), L(a1, a2)))
	u.add("S3", mk(one, ts3, L(sn1, sn2, sn3), L(tg1, tg2), L(a1, a2)))
	u.add("fast-forward-ts", mk(one, ts9, L(sn3), L(tg2), L(a2)))
	u.add("fast-forward-sn", mk(one, ts99, L(sn9), L(tg2), L(a2)))
	u.add("freeze", mk(one, tsX, L(sn3), L(tg2), L(a2)))
	u.add("snapshot-expired", mk(one, tsSX, L(snX), L(tg2), L(a2)))
	u.add("targets-expired", mk(one, tsTX, L(snTX), L(tgX), L(a2)))
	u.add("rotated", mk(L(root1, root2), tsR, L(snR), L(tg2), L(a2)))
	u.add("rotated-restart", mk(L(root1, root2), tsR1, L(snR), L(tg2), L(a2)))
	u.add("rotated-twice", mk(L(root1, root2exp, root3), tsR3, L(snR3), L(tg3), L(a2)))
	u.add("root-expired", mk(L(root1, root2, root3exp), tsR3, L(snR3), L(tg3), L(a2)))
	junk := Junk("junk", []byte("{\"signed\":"))
	rootBad := MkRoot(RootOpt{Ver: 2, Roles: r2, CS: cs, Sigs: good(Ks("b"))})
	u.pool = map[string][]*Doc{
		"root":      {root1, rootBad, root3, reSigned(root2, good(Ks("a")), " old-key-only"), ts1, junk},
		"timestamp": {ts1, ts3, ts9, tsX, tsR, reSigned(ts3, s("foreign"), " foreign"), sn3, junk},
		"snapshot":  {sn1, sn3, sn9, snX, snR, reSigned(sn2, s("foreign"), " foreign"), tg1, junk},
		"targets":   {tg1, tg2, tgX, reSigned(tg2, s("A"), " by A"), a1, sn1, junk},
		"A":         {a1, a2, reSigned(a2, s("B"), " by B"), b1, junk},
		"B":         {a1, reSigned(b1, s("foreign"), " foreign"), junk},
	}
	return u
}

// dev replaces the answer to one path.
type dev struct {
	path string
	r    Reply
}

func (d dev) String() string { return d.path + " -> " + d.r.String() }

func (u *universe) net(world string, devs []dev) Net {
	w := u.worlds[world]
	return func(n int, p string) Reply {
		for _, d := range devs {
			if d.path == p {
				return d.r
			}
		}
		return w.net(n, p)
	}
}

var errKinds = []string{"404", "403", "500", "net"}

// altsFor lists the deviating answers for a path.
func (u *universe) altsFor(world, p string) []dev {
	var r []dev
	have := u.worlds[world][p]
	for _, d := range u.pool[roleOfPath(p)] {
		if d != have {
			r = append(r, dev{p, Reply{Doc: d}})
		}
	}
	for _, e := range errKinds {
		if have == nil && e == "404" {
			continue
		}
		r = append(r, dev{p, Reply{Err: e}})
	}
	if have != nil {
		r = append(r, dev{p, Reply{Doc: truncated(have)}})
	}
	return r
}

// edge is one session.
type edge struct {
	world string
	devs  []dev
}

func (e edge) String() string {
	s := e.world
	for _, d := range e.devs {
		s += " [" + d.String() + "]"
	}
	return s
}

// cnode is a state between sessions: the cache and the anchor of the next session.
type cnode struct {
	cache  MCache
	anchor *Doc
	depth  int
	trail  []string
}

func (n *cnode) key() string { return n.anchor.Name + "|" + n.cache.key() }

// modelRun runs one session in the model only.
func (u *universe) modelRun(n *cnode, e edge, cfg SCfg) *MClient {
	m, v := newMClient(n.anchor, n.cache, cfg, u.net(e.world, e.devs), time.Now())
	if v != ok {
		panic(harnessError{"anchor refused"})
	}
	for _, c := range u.script {
		if c == "refresh" {
			m.Refresh()
		} else {
			m.Lookup(string(c)[4:])
		}
	}
	return m
}

// edgesFrom lists all sessions with at most maxDev deviating answers.
func (u *universe) edgesFrom(n *cnode, cfg SCfg, maxDev int, f func(e edge, m *MClient)) {
	for _, w := range u.names {
		var rec func(devs []dev, from int)
		rec = func(devs []dev, from int) {
			m := u.modelRun(n, edge{w, devs}, cfg)
			f(edge{w, devs}, m)
			if len(devs) >= maxDev {
				return
			}
			// deviate on any later request, in order
			seen := map[string]bool{}
			for i, r := range m.Reqs {
				if seen[r.Path] || i < from {
					seen[r.Path] = true
					continue
				}
				seen[r.Path] = true
				for _, d := range u.altsFor(w, r.Path) {
					rec(append(append([]dev{}, devs...), d), i+1)
				}
			}
		}
		rec(nil, 0)
	}
}

// reach computes the model's reachable nodes.
func (u *universe) reach(start *cnode, cfg SCfg, maxDev, depth int, chain bool, limit int) []*cnode {
	seen := map[string]bool{start.key(): true}
	q := []*cnode{start}
	for i := 0; i < len(q); i++ {
		n := q[i]
		if n.depth >= depth || len(q) >= limit {
			continue
		}
		u.edgesFrom(n, cfg, maxDev, func(e edge, m *MClient) {
			x := &cnode{cache: m.Cache.clone(), anchor: n.anchor, depth: n.depth + 1}
			if chain && m.Cache["root.json"] != nil {
				x.anchor = m.Cache["root.json"]
			}
			k := x.key()
			if !seen[k] {
				seen[k] = true
				x.trail = append(append([]string{}, n.trail...), e.String())
				q = append(q, x)
			}
		})
	}
	return q
}

func runC07(c *Ctx) {
	for _, v := range []struct{ cs, hashes, chain bool }{{true, true, false}, {false, false, true}, {true, false, true}, {false, true, false}} {
		if !c.Thorough() && v.cs == v.chain {
			continue
		}
		u := stdUniverse(v.cs, v.hashes)
		cfg := defCfg()
		nodes := u.reach(&cnode{cache: MCache{}, anchor: u.anchor}, cfg, 1, Pick(c, 2, 4), v.chain, Pick(c, 4000, 4000))
		// nodes reached with fewer sessions first, so that a cap cuts the deepest ones
		for _, n := range nodes {
			maxDev := 1
			if n.depth >= 2 && !c.Thorough() {
				maxDev = 0
			}
			if n.depth <= 1 && c.Thorough() {
				maxDev = 2
			}
			for _, w := range u.names {
				c.Case(func() string {
					return fmt.Sprintf("cs=%v hashes=%v chain=%v sessions %v, then %s", v.cs, v.hashes, v.chain, n.trail, w)
				}, func(t *T) {
					t.State(fmt.Sprint(v, n.key()))
					u.edgesFromWorld(n, cfg, maxDev, w, func(e edge, mm *MClient) {
						t.Reset()
						t.Log("cache %s", n.cache)
						t.Log("session against %s", e)
						m := session(t, n.anchor, n.cache, cfg, u.net(e.world, e.devs), time.Time{}, u.script)
						if m.Cache.key() != mm.Cache.key() {
							panic(harnessError{"model not deterministic"})
						}
					})
				})
			}
		}
	}
	// repeated calls within one session: refresh twice, lookup first, recovery after a failure
	for _, v := range []struct{ cs, big bool }{{true, false}, {false, false}, {true, true}} {
		cs := v.cs
		if v.big {
			docPad = map[string]int{"root": 70000, "timestamp": 9000, "snapshot": 70000, "targets": 70000}
		}
		u := stdUniverse(cs, true)
		docPad = nil
		scripts := [][]call{{"get d/a"}, {"get t", "refresh"}, {"refresh", "refresh"}, {"refresh", "get x", "get d/a", "get d/a"}, {"get d/b", "get d/a", "refresh", "get t"}}
		for _, sc := range scripts {
			for _, w := range u.names {
				for _, pre := range []string{"", "S1", "S3", "fast-forward-ts"} {
					if v.big && (pre == "S3" || len(sc) == 1) {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("cs=%v large documents=%v after %q, script %v against %s", cs, v.big, pre, sc, w)
					}, func(t *T) {
						cfg := defCfg()
						n := &cnode{cache: MCache{}, anchor: u.anchor}
						if pre != "" {
							n.cache = u.modelRun(n, edge{pre, nil}, cfg).Cache
						}
						// the n-th request may also fail, then the caller tries again
						for fail := -1; fail < 8; fail++ {
							for _, kind := range []string{"net", "500"} {
								net := u.net(w, nil)
								session(t, n.anchor, n.cache, cfg, func(i int, p string) Reply {
									if i == fail {
										return Reply{Err: kind}
									}
									return net(i, p)
								}, time.Time{}, append(append([]call{}, sc...), "get d/b", "refresh"))
								if fail < 0 {
									break
								}
							}
						}
					})
				}
			}
		}
	}
}

// edgesFromWorld is edgesFrom for one world.
func (u *universe) edgesFromWorld(n *cnode, cfg SCfg, maxDev int, w string, f func(e edge, m *MClient)) {
	all := u.names
	u2 := *u
	u2.names = []string{w}
	_ = all
	u2.edgesFrom(n, cfg, maxDev, f)
}

var _ = func() int {
	register(&Check{ID: "C07", Run: runC07,
		Rule: "all series of client sessions (Refresh, two delegated lookups) over 12 repository states (three honest, two fast-forwards, freeze, expired snapshot/targets/root, rotations and restarts), consistent snapshots on/off, hashes in metadata on/off, anchor fixed or chained; every reachable cache state up to the session depth, every single (thorough: pair of) deviating answer out of 5-12 per requested path; result, trusted set, request sequence and cache files compared with the reference workflow; plus call scripts with repeated and retried calls and one failing request at every position"})
	return 0
}()
