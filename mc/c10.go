package main

import (
	"fmt"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C10", Run: runC10, QuickSec: 120,
		Rule:        "every delegation graph over targets, A, B, C with ordered delegation lists and edge flags {matching, matching and terminating, not matching, verified by a foreign key} within the stated list lengths x 9 target paths covering every subset of listing roles, each looked up on the real updater and compared (result, role, order of requests, trusted set) with a pre-order walk model; families: full lists, delegation limits 0..4, unreadable roles, map iteration orders, duplicated role names, succinct bins, chains / stars / trees / complete graphs of up to 300 roles",
		Assumptions: []string{"each role's metadata version is fixed at 1; the network answers deterministically", "map iteration order is controlled through the instrumented runtime (start offsets), insertion-order effects through differently ordered documents"},
	})
}

type gEdge struct {
	to   string
	flag byte // m t n k
}

func (e gEdge) String() string { return e.to + string(e.flag) }

type gList []gEdge

func (l gList) String() string {
	var s []string
	for _, e := range l {
		s = append(s, e.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

// gLists enumerates ordered lists of distinct roles up to length n with every flag combination.
func gLists(roles []string, flags string, n int) []gList {
	res := []gList{{}}
	var rec func(cur gList, used map[string]bool)
	rec = func(cur gList, used map[string]bool) {
		if len(cur) == n {
			return
		}
		for _, r := range roles {
			if used[r] {
				continue
			}
			for i := 0; i < len(flags); i++ {
				l := append(append(gList{}, cur...), gEdge{r, flags[i]})
				res = append(res, l)
				used[r] = true
				rec(l, used)
				delete(used, r)
			}
		}
	}
	rec(gList{}, map[string]bool{})
	return res
}

var gPaths = []string{"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "pT"}

func gTargets(role string) map[string]TF {
	m := map[string]TF{"own-" + role: TFof("own" + role)}
	bit := map[string]int{"A": 1, "B": 2, "C": 4}[role]
	for i := 0; i < 8; i++ {
		if i&bit != 0 {
			m[gPaths[i]] = TFof(role + gPaths[i])
		}
	}
	m["pT"] = TFof(role + "pT")
	return m
}

type gWorld struct {
	root, ts, sn *Doc
	cache        map[string]*Doc
}

func newGWorld(missing map[string]bool) *gWorld {
	g := &gWorld{cache: map[string]*Doc{}}
	g.root = MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: false})
	meta := map[string]Meta{}
	for _, r := range []string{"targets", "A", "B", "C"} {
		if !missing[r] {
			meta[r+".json"] = Meta{Ver: 1}
		}
	}
	g.sn = MkSN(1, meta, expValid, good(Ks("sn")))
	g.ts = MkTS(1, Meta{Ver: 1}, expValid, good(Ks("ts")))
	return g
}

// doc builds (once) the metadata of role with the given delegations.
func (g *gWorld) doc(role string, l gList, variant string) *Doc {
	k := role + l.String() + variant
	if d := g.cache[k]; d != nil {
		return d
	}
	var dl *Deleg
	if len(l) > 0 {
		dl = &Deleg{}
		for _, e := range l {
			key := e.to
			if e.to == "targets" {
				key = "tg"
			}
			r := DRole{Name: e.to, Keys: Ks(key), Thr: 1, Term: e.flag == 't', Paths: []string{"p*"}}
			switch e.flag {
			case 'n':
				r.Paths = []string{"q*"}
			case 'k':
				r.Keys = Ks("foreign")
			}
			dl.Roles = append(dl.Roles, r)
		}
	}
	key := role
	t := gTargets(role)
	if role == "targets" {
		key, t = "tg", map[string]TF{"own": TFof("own"), "pT": TFof("TpT")}
	}
	exp := expValid
	sigs := good(Ks(key))
	switch variant {
	case "expired":
		exp = expExpired
	case "badsig":
		sigs = []SigOpt{{Key: K(key), Corrupt: true}}
	}
	d := MkTG(role, 1, t, dl, exp, sigs)
	g.cache[k] = d
	return d
}

// lookups runs one session that looks up the paths in order, on both sides, without cache.
func lookups(t *T, root *Doc, cfg SCfg, net Net, now time.Time, paths []string) {
	cfg.NoCache = true
	m, v := newMClient(root, MCache{}, cfg, net, now)
	r, err := newRClient(root, "/nonexistent", cfg, net)
	if v != ok || err != nil {
		t.Fail("client: %v %v", v, err)
	}
	r.F.max = max(r.F.max, 50+cfg.MaxDeleg*len(paths))
	for _, p := range paths {
		runCall(t, m, r, call("get "+p))
	}
}

func rot(l []string, n int) []string {
	n %= len(l)
	return append(append([]string{}, l[n:]...), l[:n]...)
}

func runC10(c *Ctx) {
	now := time.Now()
	g := newGWorld(nil)
	cfg := defCfg()
	net := func(g *gWorld, docs map[string]*Doc, errs map[string]string) Net {
		return func(n int, p string) Reply {
			role := strings.TrimSuffix(p, ".json")
			if e := errs[role]; e != "" {
				return Reply{Err: e}
			}
			switch role {
			case "timestamp":
				return Reply{Doc: g.ts}
			case "snapshot":
				return Reply{Doc: g.sn}
			}
			if d := docs[role]; d != nil {
				return Reply{Doc: d}
			}
			return Reply{Err: "404"}
		}
	}
	all := []string{"A", "B", "C"}
	with := func(r ...string) []string { return r }
	family := func(name string, g *gWorld, ts, as, bs, cs []gList, f func(t *T, n int, docs map[string]*Doc)) {
		for _, tl := range ts {
			for _, al := range as {
				tl, al := tl, al
				c.Case(func() string { return fmt.Sprintf("%s targets=%s A=%s", name, tl, al) }, func(t *T) {
					n := 0
					for _, bl := range bs {
						for _, cl := range cs {
							t.Reset()
							t.Log("graph targets=%s A=%s B=%s C=%s", tl, al, bl, cl)
							t.State(name + tl.String() + al.String() + bl.String() + cl.String())
							f(t, n, map[string]*Doc{"targets": g.doc("targets", tl, ""), "A": g.doc("A", al, ""), "B": g.doc("B", bl, ""), "C": g.doc("C", cl, "")})
							n++
						}
					}
				})
			}
		}
	}
	// 1: all graphs
	plain := func(t *T, n int, docs map[string]*Doc) {
		lookups(t, g.root, cfg, net(g, docs, nil), now, rot(gPaths, n))
	}
	if !c.Thorough() {
		family("graph", g, gLists(all, "mt", 3), gLists(with("B", "C", "targets"), "mt", 2), gLists(with("A", "C"), "mt", 1), gLists(with("A", "B", "targets"), "m", 1), plain)
		family("flags", g, gLists(all, "mtn", 2), gLists(with("B", "C"), "mtn", 2), gLists(with("C"), "mt", 1), gLists(with("A"), "t", 1), plain)
	} else {
		family("graph", g, gLists(all, "mtn", 3), gLists(with("A", "B", "C", "targets"), "mt", 2), gLists(with("A", "C", "targets"), "mtn", 1), gLists(with("A", "B", "targets"), "mtn", 1), plain)
		family("deep", g, gLists(all, "mt", 2), gLists(with("B", "C", "targets"), "mt", 2), gLists(with("A", "C"), "mt", 2), gLists(with("A", "B"), "mt", 2), plain)
	}
	// the top-level role and the roles themselves named again, at any depth
	family("named again", g, append(gLists(with("A", "targets"), "mt", 2), gLists(with("targets", "B", "A"), Pick(c, "m", "mt"), 3)...), gLists(with("A", "B", "targets"), Pick(c, "m", "mt"), Pick(c, 2, 3)), gLists(with("B", "targets"), "m", 2), []gList{{}}, plain)
	// each path looked up alone by a fresh client
	family("fresh", g, gLists(all, "mt", Pick(c, 2, 3)), gLists(with("B", "C"), "mt", 2), gLists(with("C", "A"), "mt", 1), []gList{{}}, func(t *T, n int, docs map[string]*Doc) {
		for _, p := range gPaths {
			t.Cut(1)
			lookups(t, g.root, cfg, net(g, docs, nil), now, []string{p})
		}
	})
	// 2: delegation limits
	family("limit", g, gLists(all, Pick(c, "mt", "mtn"), 3), gLists(with("B", "C"), "m", 2), gLists(with("C", "A"), "m", 1), []gList{{}, {{"B", 'm'}}}, func(t *T, n int, docs map[string]*Doc) {
		for lim := 0; lim <= 4; lim++ {
			cf := cfg
			cf.MaxDeleg = lim
			t.Cut(1)
			t.Log("MaxDelegations=%d", lim)
			lookups(t, g.root, cf, net(g, docs, nil), now, []string{"p4", "p2", "p1", "p0", "p4"})
		}
	})
	// 3: unreadable roles
	for _, bad := range []string{"A", "B"} {
		for _, kind := range []string{"404", "403", "500", "net", "badsig", "expired", "not in snapshot", "junk", "other role", "foreign key"} {
			bad, kind := bad, kind
			gw := g
			if kind == "not in snapshot" {
				gw = newGWorld(map[string]bool{bad: true})
			}
			flags := "mt"
			if kind == "foreign key" {
				flags = "mk"
				if bad == "B" {
					continue
				}
			}
			family("unreadable "+bad+" "+kind, gw, gLists(all, flags, Pick(c, 2, 3)), gLists(with("B"), flags, 1), gLists(with("C", "A"), flags, 1), []gList{{}}, func(t *T, n int, docs map[string]*Doc) {
				errs := map[string]string{}
				switch kind {
				case "badsig", "expired":
					orig := docs[bad]
					var l gList
					if orig.Deleg != nil {
						for _, r := range orig.Deleg.Roles {
							fl := byte('m')
							if r.Term {
								fl = 't'
							}
							l = append(l, gEdge{r.Name, fl})
						}
					}
					docs[bad] = gw.doc(bad, l, kind)
				case "junk":
					docs[bad] = Junk("junk", []byte("{"))
				case "other role":
					docs[bad] = g.sn
				case "not in snapshot", "foreign key":
				default:
					errs[bad] = kind
				}
				lookups(t, gw.root, cfg, net(gw, docs, errs), now, rot(gPaths, n))
				t.Cut(1)
				lookups(t, gw.root, cfg, net(gw, docs, errs), now, []string{"p0", "p4"})
				// an outage that ends lets the same client continue
				if kind == "500" {
					t.Cut(1)
					docs := docs
					flaky := func(n int, p string) Reply {
						if p == bad+".json" && n < 5 {
							return Reply{Err: "500"}
						}
						return net(gw, docs, nil)(n, p)
					}
					lookups(t, gw.root, cfg, flaky, now, []string{"p4", "p4", "p4", "p0", "p0", "p2"})
				}
			})
		}
	}
	// 4: map iteration orders
	family("map order", g, gLists(all, Pick(c, "m", "mt"), 3), gLists(with("B", "C"), "mt", 2), []gList{{}}, []gList{{}, {{"B", 'm'}}}, func(t *T, n int, docs map[string]*Doc) {
		for o := uint64(0); o < 8; o++ {
			t.Cut(1)
			t.Log("map order %d", o)
			mapOrder(true, o)
			func() {
				defer mapOrder(false, 0)
				lookups(t, g.root, cfg, net(g, docs, nil), now, rot(gPaths, n+int(o)))
			}()
		}
	})
	// 5: a role name listed twice
	dups := []gList{}
	for _, l := range append(gLists(all, "mt", 2), gLists(with("targets", "A"), "m", 2)...) {
		for i := 0; i <= len(l); i++ {
			for _, f := range []byte("mtn") {
				if len(l) > 0 {
					d := append(append(append(gList{}, l[:i]...), gEdge{"A", f}), l[i:]...)
					dups = append(dups, d)
				}
			}
		}
	}
	family("duplicate", g, dups, gLists(with("B", "C"), "m", 1), []gList{{}}, []gList{{}}, plain)
	runC10Succinct(c, now)
	runC10Big(c, now)
	// long lists of which few roles are ever visited
	for _, n := range []int{1000, 1025, 5000, Pick(c, 10000, 70000)} {
		for _, place := range []int{0, 1, 30, 31, 32} {
			c.Case(func() string { return fmt.Sprintf("list of %d roles, target in number %d", n, place) }, func(t *T) {
				dl := &Deleg{}
				meta := map[string]Meta{"targets.json": {Ver: 1}}
				docs := World{}
				for i := 0; i < n; i++ {
					nm := fmt.Sprint("role", i)
					dl.Roles = append(dl.Roles, DRole{Name: nm, Keys: Ks("A"), Thr: 1, Paths: []string{"p*"}})
					if i <= place {
						tg := map[string]TF{}
						if i == place {
							tg["p"] = TFof("p")
						}
						docs[nm+".json"] = MkTG(nm, 1, tg, nil, expValid, good(Ks("A")))
						meta[nm+".json"] = Meta{Ver: 1}
					}
				}
				docs["targets.json"] = MkTG("targets", 1, nil, dl, expValid, good(Ks("tg")))
				docs["snapshot.json"] = MkSN(1, meta, expValid, good(Ks("sn")))
				docs["timestamp.json"] = MkTS(1, Meta{Ver: 1}, expValid, good(Ks("ts")))
				cfg := defCfg()
				cfg.TGMax = 1 << 30
				t.State(fmt.Sprint("list", n, place))
				lookups(t, MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1)}), cfg, docs.net, now, []string{"p"})
			})
		}
	}
}

// runC10Big covers long chains, wide lists and trees: every limit around the number of roles, every place of the target.
func runC10Big(c *Ctx, now time.Time) {
	type shape struct {
		name  string
		kids  func(i, n int) []int // roles 1..n, 0 is targets
		sizes []int
	}
	shapes := []shape{
		{"chain", func(i, n int) []int {
			if i < n {
				return []int{i + 1}
			}
			return nil
		}, []int{1, 2, 5, 9, 31, 32, 33, 40, 70, 130, 300}},
		{"star", func(i, n int) []int {
			var r []int
			for j := 1; i == 0 && j <= n; j++ {
				r = append(r, j)
			}
			return r
		}, []int{1, 5, 9, 10, 11, 31, 32, 33, 40, 65, 129, 257}},
		{"binary tree", func(i, n int) []int {
			var r []int
			for _, j := range []int{2*i + 1, 2*i + 2} {
				if j <= n {
					r = append(r, j)
				}
			}
			return r
		}, []int{2, 6, 14, 30, 34}},
		{"comb", func(i, n int) []int { // every second role has a leaf before and after the next
			if i%3 != 0 {
				return nil
			}
			var r []int
			for _, j := range []int{i + 1, i + 3, i + 2} {
				if j <= n {
					r = append(r, j)
				}
			}
			return r
		}, []int{6, 12, 31, 33}},
		{"all name all", func(i, n int) []int {
			var r []int
			for j := n; j >= 1; j-- {
				if j != i {
					r = append(r, j)
				}
			}
			return r
		}, []int{4, 8, 12}},
	}
	names := []func(i int) string{func(i int) string { return fmt.Sprintf("role%d", i) }, func(i int) string { return fmt.Sprintf("r%03d", 999-i) }, func(i int) string { return strings.Repeat("x", i) }}
	for _, sh := range shapes {
		for _, n := range sh.sizes {
			for ni, name := range names {
				if !c.Thorough() && n > 12 && ni != n%3 {
					continue
				}
				sh, n, name := sh, n, name
				c.Case(func() string { return fmt.Sprintf("%s of %d roles (%s ...)", sh.name, n, name(1)) }, func(t *T) {
					role := func(i int) string {
						if i == 0 {
							return "targets"
						}
						return name(i)
					}
					var terms []int // the role (of a list) that is terminating
					for i := 0; i <= n; i++ {
						if n > 60 && i != 1 && i != n && i != n/2 {
							continue
						}
						if i < 3 || i > n-2 || i == n/2 || c.Thorough() {
							terms = append(terms, i)
						}
					}
					for _, term := range terms {
						meta := map[string]Meta{}
						docs := World{}
						for i := 0; i <= n; i++ {
							var dl *Deleg
							for _, j := range sh.kids(i, n) {
								if dl == nil {
									dl = &Deleg{}
								}
								dl.Roles = append(dl.Roles, DRole{Name: name(j), Keys: Ks("A"), Thr: 1, Term: j == term, Paths: []string{"p*"}})
							}
							tg := map[string]TF{fmt.Sprintf("p%d", i): TFof(fmt.Sprint("only ", i)), "q": TFof(fmt.Sprint("not delegated ", i))}
							if i > n/2 {
								tg["p half"] = TFof(fmt.Sprint("half ", i))
							}
							k := Ks("A")
							if i == 0 {
								k = Ks("tg")
							}
							docs[role(i)+".json"] = MkTG(role(i), 1, tg, dl, expValid, good(k))
							meta[role(i)+".json"] = Meta{Ver: 1}
						}
						root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1)})
						docs["snapshot.json"] = MkSN(1, meta, expValid, good(Ks("sn")))
						docs["timestamp.json"] = MkTS(1, Meta{Ver: 1}, expValid, good(Ks("ts")))
						for _, lim := range []int{32, n - 1, n, n + 1} {
							cfg := defCfg()
							cfg.MaxDeleg = lim
							for _, ps := range [][]string{{"p half"}, {fmt.Sprintf("p%d", n)}, {fmt.Sprintf("p%d", (n+1)/2), "p none", "q", "p1"}} {
								t.Reset()
								t.Log("terminating %s, limit %d, looked up %v", role(term), lim, ps)
								t.State(fmt.Sprint(sh.name, n, name(1), term, lim, ps))
								lookups(t, root, cfg, docs.net, now, ps)
							}
						}
					}
				})
			}
		}
	}
}

// runC10Succinct covers bins as delegated roles.
func runC10Succinct(c *Ctx, now time.Time) {
	paths := []string{}
	for i := 0; i < 12; i++ {
		paths = append(paths, fmt.Sprintf("p%d", i))
	}
	for bits := 1; bits <= Pick(c, 3, 5); bits++ {
		for _, shape := range []string{"top", "under A", "under A then B", "bins delegate"} {
			for miss := -1; miss < Pick(c, 2, 4); miss++ {
				bits, shape, miss := bits, shape, miss
				c.Case(func() string { return fmt.Sprintf("succinct bits=%d %s missing=%d", bits, shape, miss) }, func(t *T) {
					s := &Succ{Keys: Ks("bin"), Thr: 1, Bits: bits, Prefix: "bin"}
					docs := World{}
					meta := map[string]Meta{"targets.json": {Ver: 1}, "A.json": {Ver: 1}, "B.json": {Ver: 1}, "C.json": {Ver: 1}}
					for n := 0; n < 1<<bits; n++ {
						name := binNameN(s, uint64(n))
						tg := map[string]TF{}
						for i, p := range paths {
							if i%3 != 0 {
								// every bin lists it: only the responsible one counts
								tg[p] = TFof(name + p)
							}
						}
						var dl *Deleg
						if shape == "bins delegate" {
							dl = &Deleg{Roles: []DRole{{Name: "C", Keys: Ks("C"), Thr: 1, Paths: []string{"p*"}}}}
						}
						docs[name+".json"] = MkTG(name, 1, tg, dl, expValid, good(Ks("bin")))
						if n != miss {
							meta[name+".json"] = Meta{Ver: 1}
						}
					}
					cT := map[string]TF{}
					bT := map[string]TF{}
					for _, p := range paths {
						cT[p], bT[p] = TFof("C"+p), TFof("B"+p)
					}
					docs["C.json"] = MkTG("C", 1, cT, nil, expValid, good(Ks("C")))
					docs["B.json"] = MkTG("B", 1, bT, nil, expValid, good(Ks("B")))
					docs["A.json"] = MkTG("A", 1, map[string]TF{"p6": TFof("Ap6")}, &Deleg{Succ: s}, expValid, good(Ks("A")))
					var dl *Deleg
					switch shape {
					case "top", "bins delegate":
						dl = &Deleg{Succ: s}
					case "under A":
						dl = &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"p*"}}}}
					default:
						dl = &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"p*"}}, {Name: "B", Keys: Ks("B"), Thr: 1, Paths: []string{"p*"}}}}
					}
					docs["targets.json"] = MkTG("targets", 1, map[string]TF{"p7": TFof("Tp7")}, dl, expValid, good(Ks("tg")))
					root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1)})
					docs["snapshot.json"] = MkSN(1, meta, expValid, good(Ks("sn")))
					docs["timestamp.json"] = MkTS(1, Meta{Ver: 1}, expValid, good(Ks("ts")))
					for i := range paths {
						t.Reset()
						t.State(fmt.Sprint("succinct", bits, shape, miss, i))
						lookups(t, root, defCfg(), docs.net, now, rot(paths, i))
					}
				})
			}
		}
	}
}
