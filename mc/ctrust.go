package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
)

// op is one call on the trusted metadata set.
type op struct {
	call    string // root timestamp snapshot snapshot-trusted targets delegated
	doc     *Doc
	role    string
	from    string
	advance time.Duration
}

func (o op) String() string {
	switch o.call {
	case "delegated":
		return fmt.Sprintf("UpdateDelegatedTargets(%s, %q from %q)", o.doc, o.role, o.from)
	case "snapshot-trusted":
		return fmt.Sprintf("UpdateSnapshot(%s, trusted)", o.doc)
	}
	return fmt.Sprintf("Update%s(%s)", strings.ToUpper(o.call[:1])+o.call[1:], o.doc)
}

func (o op) model(m *MSet) V {
	switch o.call {
	case "root":
		return m.UpdateRoot(o.doc)
	case "timestamp":
		return m.UpdateTimestamp(o.doc)
	case "snapshot":
		return m.UpdateSnapshot(o.doc, false)
	case "snapshot-trusted":
		return m.UpdateSnapshot(o.doc, true)
	case "targets":
		return m.UpdateTargets(o.doc, "targets", "root")
	}
	return m.UpdateTargets(o.doc, o.role, o.from)
}

// real performs the call; ret is the identity of the returned object.
func (o op) real(r *trustedmetadata.TrustedMetadata) (err error, ret string) {
	b := append([]byte{}, o.doc.Bytes...)
	switch o.call {
	case "root":
		x, e := r.UpdateRoot(b)
		if x != nil {
			ret = sigID(x.Signatures)
		}
		err = e
	case "timestamp":
		x, e := r.UpdateTimestamp(b)
		if x != nil {
			ret = sigID(x.Signatures)
		}
		err = e
	case "snapshot", "snapshot-trusted":
		x, e := r.UpdateSnapshot(b, o.call == "snapshot-trusted")
		if x != nil {
			ret = sigID(x.Signatures)
		}
		err = e
	case "targets":
		x, e := r.UpdateTargets(b)
		if x != nil {
			ret = sigID(x.Signatures)
		}
		err = e
	default:
		x, e := r.UpdateDelegatedTargets(b, o.role, o.from)
		if x != nil {
			ret = sigID(x.Signatures)
		}
		err = e
	}
	for i := range b { // the caller may reuse its buffer
		b[i] = 0xff
	}
	return err, ret
}

// newReal makes a real set from d and replays ops.
func newReal(t *T, d *Doc, now time.Time, ops []op) *trustedmetadata.TrustedMetadata {
	r, err := trustedmetadata.New(d.Bytes)
	if err != nil {
		t.Fail("New(%s): %v", d, err)
	}
	if !now.IsZero() {
		r.RefTime = now
	}
	for _, o := range ops {
		o.real(r)
	}
	return r
}

type exploreOpt struct {
	depth   int
	dedupe  bool
	deep    bool // compare complete dumps around refused calls and between histories
	prune   func(m *MSet) bool
	onState func(t *T, m *MSet, hist []op)
	step    func(t *T, m0, m1 *MSet, o op, v V, err error)
}

// explore runs all op sequences from the initial root and compares every step with the model.
func explore(t *T, init *Doc, now time.Time, ops func(m *MSet) []op, x exploreOpt) {
	m0, v := NewMSet(init, now)
	r, err := trustedmetadata.New(init.Bytes)
	t.Trans(1)
	if (err == nil) != (v == ok) {
		t.Fail("New(%s): %s, expected %q", init, refused(err), v)
	}
	if v != ok {
		return
	}
	if d := setDiff(r, m0); d != "" {
		t.Fail("after New(%s): %s", init, d)
	}
	modelNow := now
	if now.IsZero() {
		modelNow = time.Now()
	}
	m0.Now = modelNow
	seen := map[string]string{}
	type node struct {
		m    *MSet
		hist []op
	}
	key := func(m *MSet) string {
		id := func(d *Doc) string {
			if d == nil {
				return "-"
			}
			return d.SigID
		}
		s := id(m.Root) + "|" + id(m.TS) + "|" + id(m.SN)
		for _, k := range sortedKeys(m.TG) {
			s += "|" + k + ":" + id(m.TG[k])
		}
		return s
	}
	dumpOf := func(r *trustedmetadata.TrustedMetadata) string {
		c := *r
		c.RefTime = time.Time{}
		return dump(c)
	}
	q := []node{{m0, nil}}
	seen[key(m0)] = ""
	if x.deep {
		seen[key(m0)] = dumpOf(r)
	}
	t.State(key(m0))
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if x.onState != nil {
			x.onState(t, n.m, n.hist)
		}
		if len(n.hist) >= x.depth {
			continue
		}
		var real *trustedmetadata.TrustedMetadata
		fresh := func() {
			real = newReal(t, init, modelNow, n.hist)
		}
		fresh()
		before := ""
		if x.deep {
			before = dumpOf(real)
			if before != seen[key(n.m)] {
				t.Fail("state %s reached by %v differs from the same state reached otherwise", n.m, n.hist)
			}
		}
		for _, o := range ops(n.m) {
			m := n.m.clone()
			v := o.model(m)
			changed := key(m) != key(n.m)
			err, ret := o.real(real)
			t.Trans(1)
			t.Outcome(o.call + ":" + string(v))
			say := func(format string, a ...any) {
				t.Log("New(%s)", init)
				for _, h := range n.hist {
					t.Log("%s", h)
				}
				t.Log("%s: %s (model: %q)", o, refused(err), v)
				t.Fail(format, a...)
			}
			if (err == nil) != (v == ok) {
				say("%s: %s, expected %q", o, refused(err), v)
			}
			if d := setDiff(real, m); d != "" {
				say("after %s: %s", o, d)
			}
			if v == ok && ret != o.doc.SigID {
				say("%s returned another object than it loaded", o)
			}
			if x.step != nil {
				x.step(t, n.m, m, o, v, err)
			}
			if !changed {
				if x.deep {
					if now := dumpOf(real); now != before {
						say("refused call %s changed the trusted set:\n before %s\n after  %s", o, before, now)
					}
				}
				continue
			}
			k := key(m)
			if _, dup := seen[k]; !dup || !x.dedupe {
				if !dup {
					t.State(k)
					seen[k] = ""
					if x.deep {
						seen[k] = dumpOf(real)
					}
				}
				if x.prune == nil || !x.prune(m) {
					h := append(append([]op{}, n.hist...), o)
					q = append(q, node{m, h})
				}
			} else if x.deep && seen[k] != "" {
				if now := dumpOf(real); now != seen[k] {
					say("state %s differs from the same state reached by another history:\n here  %s\n other %s", m, now, seen[k])
				}
			}
			fresh()
		}
	}
}

func stdRoles(rootKeys []*Key, thr int) map[string]RoleSpec {
	return map[string]RoleSpec{"root": {rootKeys, thr}, "timestamp": {Ks("ts"), 1}, "snapshot": {Ks("sn"), 1}, "targets": {Ks("tg"), 1}}
}

var _ = func() int {
	register(&Check{ID: "C02", Run: runC02,
		Rule: "initial roots and candidate roots = versions {-1..4} x root key sets {a,b,a+b,b+c with thresholds 1..2} x signer subsets of {a,b,c,foreign} x expired; every acceptable and unacceptable candidate offered in every reachable state (breadth first, depth 3), plus wrong-type and damaged documents, and every root after a (final or expired) timestamp; client sessions with 22 contents of the cached root; chains of roots whose expiry goes up and down in every order; versions of 30 magnitudes, zero and below included"})
	register(&Check{ID: "C03", Run: runC03,
		Rule: "all sequences (depth 3) of timestamps version 1..3 x named snapshot 1..3 x expired; all sequences of snapshots version 1..2 x listed versions of three roles in {absent,1,2} x expired x offered as cached or downloaded; all three-session histories over repository states with versions 1..3 sharing a cache (see C07 engine), with an explicit monotonicity invariant; the same with zero to three root rotations within and between the sessions; versions of 30 magnitudes, zero and below included; timestamps declaring length and hashes of the snapshot, the cached one fitting or not"})
	register(&Check{ID: "C04", Run: runC04,
		Rule: "expiry of root, timestamp, snapshot, targets and delegated metadata in {1s before, 1ns before, equal, 1ns after, 1s after} the reference time in all combinations; IsExpired of all four types; client sessions with the clock moved between New, Refresh and GetTargetInfo"})
	register(&Check{ID: "C05", Run: runC05,
		Rule: "timestamp/snapshot entries with version right/wrong, length absent/right/off by one, sha256 and sha512 absent/right/wrong, unknown algorithm, entry absent, against documents that match, differ in version, content, whitespace or truncation, for snapshot (cached/downloaded), top-level and delegated targets"})
	register(&Check{ID: "C06", Run: runC06,
		Rule: "breadth-first search over all reachable trusted sets: 30+ documents (valid, newer, expired, badly signed, of the wrong type, damaged) offered through every update call for every role and delegator; after each refused call the deep state must be unchanged; a state must be the same whichever history reached it"})
	return 0
}()

func runC02(c *Ctx) {
	cachedRoots(c)
	type cfg struct {
		ks  []*Key
		thr int
	}
	cfgs := []cfg{{Ks("a"), 1}, {Ks("b"), 1}, {Ks("a b"), 1}, {Ks("a b"), 2}, {Ks("b c"), 2}}
	sig := Ks("a b c foreign")
	var cands []*Doc
	maxSig := 8
	if c.Thorough() {
		maxSig = 16
	}
	for _, ver := range []int64{-1, 0, 1, 2, 3, 4} {
		for _, g := range cfgs {
			for mask := 0; mask < maxSig; mask++ {
				var so []SigOpt
				so = []SigOpt{}
				for i, k := range sig {
					if mask>>i&1 == 1 {
						so = append(so, SigOpt{Key: k})
					}
				}
				for _, e := range []bool{false, true} {
					if e && (ver < 1 || ver > 3 || (!c.Thorough() && ver != 2)) {
						continue
					}
					if !c.Thorough() && (ver < 1 || ver > 3) && mask%3 != 0 {
						continue
					}
					cands = append(cands, MkRoot(RootOpt{Ver: ver, Roles: stdRoles(g.ks, g.thr), Exp: exps(e), Sigs: so}))
				}
			}
		}
	}
	tsOK := MkTS(1, Meta{Ver: 1}, expValid, good(Ks("ts")))
	tsExp := MkTS(1, Meta{Ver: 1}, expExpired, good(Ks("ts")))
	junk := []*Doc{Junk("empty", nil), Junk("notjson", []byte("{")), tsOK,
		mkKind("targets", good(Ks("a b"))), MkSN(2, map[string]Meta{"targets.json": {Ver: 1}}, expValid, good(Ks("a b")))}
	for i, in := range cands {
		if in.Ver > 3 || in.Ver < 0 || (!c.Thorough() && (in.Ver > 2 || in.Ver < 1)) {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("initial %s", cands[i]) }, func(t *T) {
			ops := func(m *MSet) []op {
				var r []op
				for _, d := range cands {
					if !c.Thorough() && (d.Ver < m.Root.Ver-1 || d.Ver > m.Root.Ver+2 || m.Root != in && (d.Ver < m.Root.Ver || d.Ver > m.Root.Ver+1)) {
						continue
					}
					r = append(r, op{call: "root", doc: d})
				}
				for _, d := range junk {
					r = append(r, op{call: "root", doc: d})
				}
				return r
			}
			depth := 2
			if c.Thorough() {
				depth = 3
			}
			nth := 0
			explore(t, in, time.Time{}, ops, exploreOpt{depth: depth, dedupe: true, onState: func(t *T, m *MSet, hist []op) {
				nth++
				// once a timestamp is loaded no root is accepted
				for _, ts := range []*Doc{tsOK, tsExp} {
					r := newReal(t, in, time.Time{}, hist)
					mm := m.clone()
					o := op{call: "timestamp", doc: ts}
					v := o.model(mm)
					err, _ := o.real(r)
					if (err == nil) != (v == ok) {
						t.Fail("%v then %s: %s, expected %q", hist, o, refused(err), v)
					}
					for j, d := range cands {
						if d.Ver != m.Root.Ver+1 || (nth > 1 && j%7 != nth%7) {
							continue
						}
						o := op{call: "root", doc: d}
						v := o.model(mm)
						err, _ := o.real(r)
						t.Trans(1)
						if (err == nil) != (v == ok) {
							t.Fail("New(%s) %v, %s, then %s: %s, expected %q", in, hist, ts, o, refused(err), v)
						}
						if df := setDiff(r, mm); df != "" {
							t.Fail("New(%s) %v, %s, then %s: %s", in, hist, ts, o, df)
						}
						if v == ok {
							break
						}
					}
				}
			}})
		})
	}
	// an expired intermediate root is as good as any, whatever the dates before and after it
	dates := []string{"0001-01-01T00:00:00Z", "2001-01-01T00:00:00Z", expExpired, expValid, "2098-12-31T23:59:59Z"}
	for _, first := range dates {
		c.Case(func() string { return "chain of expiry dates from " + first }, func(t *T) {
			in := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), Exp: first})
			var ops []op
			for v := int64(2); v <= 4; v++ {
				for _, e := range dates {
					ops = append(ops, op{call: "root", doc: MkRoot(RootOpt{Ver: v, Roles: stdRoles(Ks("a"), 1), Exp: e})})
				}
			}
			explore(t, in, time.Time{}, func(m *MSet) []op { return ops }, exploreOpt{depth: 3, dedupe: true})
		})
	}
	// magnitudes: exactly the next version, whatever its size
	for _, v := range magnitudes {
		c.Case(func() string { return fmt.Sprintf("root version %d", v) }, func(t *T) {
			in := MkRoot(RootOpt{Ver: v, Roles: stdRoles(Ks("a"), 1)})
			var ops []op
			for _, w := range append([]int64{v - 1, v + 1, v + 2, v * 10, v + 1<<8, v + 1<<16, v + 1<<32, v / 10}, magnitudes...) {
				ops = append(ops, op{call: "root", doc: MkRoot(RootOpt{Ver: w, Roles: stdRoles(Ks("a"), 1)})})
			}
			explore(t, in, time.Time{}, func(m *MSet) []op { return ops }, exploreOpt{depth: 3, dedupe: true})
		})
	}
	// roles of many keys: thresholds are numbers too
	for _, n := range Pick(c, []int{3, 10, 11}, []int{3, 5, 9, 10, 11, 20}) {
		c.Case(func() string { return fmt.Sprintf("%d root keys", n) }, func(t *T) {
			var ks []*Key
			for i := 0; i < n; i++ {
				ks = append(ks, K(fmt.Sprintf("many%d", i)))
			}
			for _, thr := range []int{1, 2, n - 1, n, n + 1} {
				if thr < 1 || thr > 11 && thr < n-1 {
					continue
				}
				in := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(ks, thr), Sigs: good(ks)})
				var ops []op
				for _, k := range Pick(c, []int{0, 1, thr - 1, thr}, []int{0, 1, 2, 8, 9, 10, 11, thr - 1, thr, n - 1, n}) {
					if k < 0 || k > n {
						continue
					}
					ops = append(ops, op{call: "root", doc: MkRoot(RootOpt{Ver: 2, Roles: stdRoles(ks, thr), Sigs: append([]SigOpt{}, good(ks[:k])...)})},
						op{call: "root", doc: MkRoot(RootOpt{Ver: 2, Roles: stdRoles(ks, thr), Sigs: append([]SigOpt{}, good(ks[n-k:])...)})},
						// rotation of all but one of the keys
						op{call: "root", doc: MkRoot(RootOpt{Ver: 2, Roles: stdRoles(append([]*Key{K("new")}, ks[1:]...), thr), Sigs: append([]SigOpt{}, good(ks[:k])...)})},
						op{call: "root", doc: MkRoot(RootOpt{Ver: 2, Roles: stdRoles(append([]*Key{K("new")}, ks[1:]...), thr), Sigs: good(append([]*Key{K("new")}, ks[:k]...))})})
				}
				explore(t, in, time.Time{}, func(m *MSet) []op { return ops }, exploreOpt{depth: 2, dedupe: true})
			}
		})
	}
	// roots of the wrong kind as trust anchors
	for _, d := range junk {
		c.Case(func() string { return "anchor " + d.Name }, func(t *T) {
			explore(t, d, time.Time{}, func(m *MSet) []op { return nil }, exploreOpt{depth: 1})
		})
	}
}

func runC03(c *Ctx) {
	root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: true})
	var tss []*Doc
	for v := int64(1); v <= 3; v++ {
		for s := int64(1); s <= 3; s++ {
			for _, e := range []bool{false, true} {
				tss = append(tss, MkTS(v, Meta{Ver: s}, exps(e), good(Ks("ts"))))
			}
		}
	}
	tss = append(tss, MkTS(9, Meta{Ver: 9}, expValid, good(Ks("foreign"))))
	for i := range tss {
		c.Case(func() string { return fmt.Sprintf("timestamp sequences from %s", tss[i]) }, func(t *T) {
			var ops []op
			for _, d := range tss {
				ops = append(ops, op{call: "timestamp", doc: d})
			}
			first := true
			explore(t, root, time.Time{}, func(m *MSet) []op {
				if first {
					first = false
					return []op{{call: "timestamp", doc: tss[i]}}
				}
				return ops
			}, exploreOpt{depth: Pick(c, 3, 4), dedupe: c.Thorough(), step: monotone})
		})
	}
	var sns []*Doc
	for v := int64(1); v <= 2; v++ {
		for tg := int64(1); tg <= 2; tg++ {
			for a := int64(0); a <= 2; a++ {
				for b := int64(0); b <= 2; b++ {
					for _, e := range []bool{false, true} {
						mt := map[string]Meta{"targets.json": {Ver: tg}}
						if a > 0 {
							mt["A.json"] = Meta{Ver: a}
						}
						if b > 0 {
							mt["B.json"] = Meta{Ver: b}
						}
						sns = append(sns, MkSN(v, mt, exps(e), good(Ks("sn"))))
					}
				}
			}
		}
	}
	sns = append(sns, MkSN(9, map[string]Meta{"targets.json": {Ver: 9}}, expValid, good(Ks("foreign"))))
	for _, tsv := range []int64{1, 2} {
		ts := MkTS(1, Meta{Ver: tsv}, expValid, good(Ks("ts")))
		for i := range sns {
			c.Case(func() string { return fmt.Sprintf("snapshot sequences under %s from %s", ts, sns[i]) }, func(t *T) {
				var ops []op
				for _, d := range sns {
					ops = append(ops, op{call: "snapshot", doc: d}, op{call: "snapshot-trusted", doc: d})
				}
				explore(t, root, time.Time{}, func(m *MSet) []op {
					if m.TS == nil {
						return []op{{call: "timestamp", doc: ts}}
					}
					if m.SN == nil {
						return []op{{call: "snapshot", doc: sns[i]}}
					}
					return ops
				}, exploreOpt{depth: Pick(c, 3, 4), dedupe: true, step: monotone})
			})
		}
	}
	// magnitudes: numbers are compared as numbers, whatever their size
	mags := magnitudes
	for i := range mags {
		a := mags[i]
		c.Case(func() string { return fmt.Sprintf("versions around %d", a) }, func(t *T) {
			g := func(n string) []SigOpt { return good(Ks(n)) }
			for _, b := range mags {
				for _, x := range mags {
					for _, y := range mags {
						if !c.Thorough() && x != a && y != b && x != b && x != y && y != 10 {
							continue
						}
						// timestamp versions a then b, naming snapshots x then y
						runOps(t, root, []op{{call: "timestamp", doc: MkTS(a, Meta{Ver: x}, expValid, g("ts"))}, {call: "timestamp", doc: MkTS(b, Meta{Ver: y}, expValid, g("ts"))}})
						// the listed version of a role goes from a to b, of another from x to y
						runOps(t, root, []op{{call: "timestamp", doc: MkTS(1, Meta{Ver: 2}, expValid, g("ts"))},
							{call: "snapshot-trusted", doc: MkSN(1, map[string]Meta{"targets.json": {Ver: a}, "A.json": {Ver: x}}, expValid, g("sn"))},
							{call: "snapshot", doc: MkSN(2, map[string]Meta{"targets.json": {Ver: b}, "A.json": {Ver: y}}, expValid, g("sn"))}})
					}
				}
				// snapshot and targets versions against what names them
				runOps(t, root, []op{{call: "timestamp", doc: MkTS(1, Meta{Ver: a}, expValid, g("ts"))},
					{call: "snapshot", doc: MkSN(b, map[string]Meta{"targets.json": {Ver: a}}, expValid, g("sn"))},
					{call: "snapshot", doc: MkSN(a, map[string]Meta{"targets.json": {Ver: b}}, expValid, g("sn"))},
					{call: "targets", doc: MkTG("targets", a, nil, nil, expValid, g("tg"))}, {call: "targets", doc: MkTG("targets", b, nil, nil, expValid, g("tg"))}})
			}
		})
	}
	// every set of listed roles followed by every other, roles going missing while others come
	names := []string{"targets.json", "A.json", "B.json", "snapshot.json", "C.json"}
	for old := 0; old < 1<<len(names); old++ {
		c.Case(func() string { return fmt.Sprintf("listed roles %05b followed by every other set", old) }, func(t *T) {
			g := func(n string) []SigOpt { return good(Ks(n)) }
			mk := func(v int64, set int, ver func(i int) int64, with int) *Doc {
				m := map[string]Meta{}
				for i, n := range names {
					if set>>i&1 == 1 {
						e := Meta{Ver: ver(i)}
						if with&1 != 0 {
							e.Len = 100
						}
						if with&2 != 0 {
							e.Hash = sha256hex([]byte("same"))
						}
						m[n] = e
					}
				}
				return MkSN(v, m, expValid, g("sn"))
			}
			two := func(int) int64 { return 2 }
			for with := 0; with < 4; with++ {
				before := mk(1, old, two, with)
				for now := 0; now < 1<<len(names); now++ {
					for low := -2; low < len(names); low++ { // which entry goes back (-1: none, -2: all go forward)
						if low >= 0 && now>>low&1 == 0 {
							continue
						}
						ver := func(i int) int64 {
							if i == low {
								return 1
							}
							if low == -2 {
								return 3
							}
							return 2
						}
						for _, with2 := range []int{with, 3 - with} {
							if with2 != with && !c.Thorough() && (low == -1 || now != old) {
								continue
							}
							runOps(t, root, []op{{call: "timestamp", doc: MkTS(1, Meta{Ver: 2}, expValid, g("ts"))}, {call: "snapshot-trusted", doc: before}, {call: "snapshot", doc: mk(2, now, ver, with2)}})
						}
						if with > 0 && !c.Thorough() && now != old {
							continue
						}
						// and the other way: offered as cached
						runOps(t, root, []op{{call: "timestamp", doc: MkTS(1, Meta{Ver: 2}, expValid, g("ts"))}, {call: "snapshot-trusted", doc: before}, {call: "snapshot-trusted", doc: mk(2, now, ver, with)}})
					}
				}
				t.State(fmt.Sprint("sets", old, with))
			}
			// the same for what a timestamp says of the snapshot
			if old == 0 {
				for _, a := range []int64{1, 2, 3} {
					for _, b := range []int64{1, 2, 3} {
						for w := 0; w < 16; w++ {
							e := func(v int64, w int) Meta {
								m := Meta{Ver: v}
								if w&1 != 0 {
									m.Len = 100
								}
								if w&2 != 0 {
									m.Hash = sha256hex([]byte("same"))
								}
								return m
							}
							for _, tv := range [][2]int64{{1, 2}, {2, 2}, {2, 1}, {1, 9}} {
								runOps(t, root, []op{{call: "timestamp", doc: MkTS(tv[0], e(a, w), expValid, g("ts"))}, {call: "timestamp", doc: MkTS(tv[1], e(b, w>>2), expValid, g("ts"))}})
							}
						}
					}
				}
			}
		})
	}
	// many roles: any one of them may be the one that goes back or goes missing
	for _, n := range []int{1, 2, 3, 8, 30} {
		c.Case(func() string { return fmt.Sprintf("snapshots listing %d roles", n) }, func(t *T) {
			g := func(n string) []SigOpt { return good(Ks(n)) }
			name := func(i int) string {
				return []string{"targets.json", "A.json", "a.json", "A.json.json", "root.json", "B.json", "snapshot.json", ".json"}[i%8] + strings.Repeat("x", i/8)
			}
			list := func(i int, v int64) map[string]Meta {
				m := map[string]Meta{}
				for j := 0; j < n; j++ {
					m[name(j)] = Meta{Ver: 5}
				}
				if i >= 0 && v == 0 {
					delete(m, name(i))
				} else if i >= 0 {
					m[name(i)] = Meta{Ver: v}
				}
				return m
			}
			for i := -1; i < n; i++ {
				for _, v := range []int64{0, 4, 5, 6, 10} {
					for _, extra := range []bool{false, true} {
						m := list(i, v)
						if extra {
							m["extra.json"] = Meta{Ver: 1}
						}
						runOps(t, root, []op{{call: "timestamp", doc: MkTS(1, Meta{Ver: 2}, expValid, g("ts"))}, {call: "snapshot-trusted", doc: MkSN(1, list(-1, 0), expValid, g("sn"))}, {call: "snapshot", doc: MkSN(2, m, expValid, g("sn"))},
							{call: "snapshot", doc: MkSN(2, list(-1, 0), expValid, g("sn"))}})
					}
				}
			}
		})
	}
	sessionsC03(c)
	rotationsC03(c)
}

// magnitudes are versions whose order differs as text, in few bits or as floating-point numbers.
var magnitudes = []int64{-1 << 63, -1 << 32, -2, -1, 0, 1, 2, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 2, 1<<63 - 1}

// monotone is the rollback invariant, stated without the model's update rules.
func monotone(t *T, a, b *MSet, o op, v V, err error) {
	if a.TS != nil && b.TS != nil && (b.TS.Ver < a.TS.Ver || b.TS.Snap.Ver < a.TS.Snap.Ver) {
		t.Fail("timestamp rolled back: %s after %s", b.TS, a.TS)
	}
	if a.SN != nil && b.SN != nil {
		for n, i := range a.SN.Meta {
			if j, found := b.SN.Meta[n]; !found || j.Ver < i.Ver {
				t.Fail("snapshot rolled back: %s after %s", b.SN, a.SN)
			}
		}
	}
}

func runC04(c *Ctx) {
	runC04Reload(c)
	ref := time.Date(2030, 6, 1, 12, 0, 0, 5, time.UTC)
	offs := []time.Duration{-time.Second, -1, 0, 1, time.Second}
	if c.Thorough() {
		offs = append(offs, -24*time.Hour, 24*time.Hour)
	}
	at := func(d time.Duration) string { return ref.Add(d).Format(time.RFC3339Nano) }
	// IsExpired itself, also with another zone for the same instant
	for _, kind := range []string{"root", "timestamp", "snapshot", "targets"} {
		for _, off := range offs {
			for _, zone := range []*time.Location{time.UTC, time.FixedZone("x", 7200), time.FixedZone("y", -3600*5)} {
				c.Case(func() string { return fmt.Sprintf("IsExpired %s %v %v", kind, off, zone) }, func(t *T) {
					e := ref.Add(off).In(zone).Format(time.RFC3339Nano)
					var d *Doc
					switch kind {
					case "root":
						d = MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), Exp: e})
					case "timestamp":
						d = MkTS(1, Meta{Ver: 1}, e, nil)
					case "snapshot":
						d = MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, e, nil)
					default:
						d = MkTG("tg", 1, nil, nil, e, nil)
					}
					x, err := loadReal(d)
					if err != nil {
						t.Fail("%v", err)
					}
					var got bool
					r := ref.In(time.FixedZone("z", 3600))
					switch m := x.(type) {
					case *MRoot:
						got = m.Signed.IsExpired(r)
					case *MTS:
						got = m.Signed.IsExpired(r)
					case *MSN:
						got = m.Signed.IsExpired(r)
					case *MTG:
						got = m.Signed.IsExpired(r)
					}
					t.Trans(1)
					t.State(kind + off.String() + zone.String())
					if got != (off < 0) {
						t.Fail("%s expiring %v after the reference time: expired=%v", kind, off, got)
					}
				})
			}
		}
	}
	// far away: years that other representations of time do not hold
	years := []string{"0001-01-01T00:00:00Z", "0001-01-01T00:00:01Z", "1600-02-29T23:59:59Z", "1677-09-21T00:12:43Z", "1901-12-13T20:45:51Z", "1969-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "2001-09-09T01:46:40Z", "2038-01-19T03:14:07Z", "2038-01-19T03:14:08Z", "2106-02-07T06:28:16Z", "2262-04-11T23:47:16Z", "2262-04-11T23:47:17Z", "2300-01-01T00:00:00Z", "2554-07-21T23:34:34Z", "9999-12-31T23:59:59Z"}
	for i, ex := range years {
		for _, kind := range []string{"root", "timestamp", "snapshot", "targets"} {
			c.Case(func() string { return fmt.Sprintf("%s expiring %s", kind, ex) }, func(t *T) {
				var d *Doc
				switch kind {
				case "root":
					d = MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), Exp: ex})
				case "timestamp":
					d = MkTS(1, Meta{Ver: 1}, ex, nil)
				case "snapshot":
					d = MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, ex, nil)
				default:
					d = MkTG("tg", 1, nil, nil, ex, nil)
				}
				x, err := loadReal(d)
				must(err)
				for j, re := range years {
					r, err := time.Parse(time.RFC3339, re)
					must(err)
					var got bool
					switch m := x.(type) {
					case *MRoot:
						got = m.Signed.IsExpired(r)
					case *MTS:
						got = m.Signed.IsExpired(r)
					case *MSN:
						got = m.Signed.IsExpired(r)
					case *MTG:
						got = m.Signed.IsExpired(r)
					}
					t.Trans(1)
					t.State(kind + ex + re)
					if got != (j > i) {
						t.Fail("%s expiring %s at %s: expired=%v", kind, ex, re, got)
					}
				}
				// and in the trusted set at the time of the run
				root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1)})
				g := func(n string) []SigOpt { return good(Ks(n)) }
				e := map[string]string{"root": expValid, "timestamp": expValid, "snapshot": expValid, "targets": expValid}
				e[kind] = ex
				if kind == "root" {
					root = MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), Exp: ex})
				}
				runOps(t, root, []op{{call: "timestamp", doc: MkTS(1, Meta{Ver: 1}, e["timestamp"], g("ts"))}, {call: "snapshot", doc: MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, e["snapshot"], g("sn"))},
					{call: "targets", doc: MkTG("targets", 1, nil, nil, e["targets"], g("tg"))}})
			})
		}
	}
	if !c.Thorough() {
		offs = []time.Duration{-1, 0, 1}
	}
	for _, r1 := range offs {
		for _, r2 := range append([]time.Duration{time.Hour * 99999}, offs...) {
			for _, ts := range offs {
				c.Case(func() string { return fmt.Sprintf("root1 %v root2 %v timestamp %v", r1, r2, ts) }, func(t *T) {
					root1 := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), Exp: at(r1)})
					dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
					for _, sn := range offs {
						for _, tg := range offs {
							for _, ag := range offs {
								// the client may also hold an older, expired timestamp and snapshot
								for old := 0; old < 2; old++ {
									var ops []op
									if r2 != time.Hour*99999 {
										ops = append(ops, op{call: "root", doc: MkRoot(RootOpt{Ver: 2, Roles: stdRoles(Ks("a"), 1), Exp: at(r2)})})
									}
									if old == 1 {
										ops = append(ops, op{call: "timestamp", doc: MkTS(1, Meta{Ver: 1}, at(-1), good(Ks("ts")))})
									}
									ops = append(ops, op{call: "timestamp", doc: MkTS(2, Meta{Ver: 2}, at(ts), good(Ks("ts")))})
									if old == 1 {
										ops = append(ops, op{call: "snapshot-trusted", doc: MkSN(1, map[string]Meta{"targets.json": {Ver: 1}}, at(-1), good(Ks("sn")))})
									}
									ops = append(ops, op{call: "snapshot", doc: MkSN(2, map[string]Meta{"targets.json": {Ver: 1}, "A.json": {Ver: 1}}, at(sn), good(Ks("sn")))},
										op{call: "targets", doc: MkTG("targets", 1, nil, dl, at(tg), good(Ks("tg")))},
										op{call: "delegated", doc: MkTG("A", 1, nil, nil, at(ag), good(Ks("A"))), role: "A", from: "targets"})
									m, _ := NewMSet(root1, ref)
									r := newReal(t, root1, ref, nil)
									t.Reset()
									for _, o := range ops {
										v := o.model(m)
										err, _ := o.real(r)
										t.Log("%s: %s", o, refused(err))
										t.Trans(1)
										if (err == nil) != (v == ok) {
											t.Fail("%s: %s, expected %q", o, refused(err), v)
										}
										if d := setDiff(r, m); d != "" {
											t.Fail("after %s: %s", o, d)
										}
									}
									t.State(fmt.Sprint(r1, r2, ts, sn, tg, ag, old))
									// the property itself: targets are trusted only if nothing final is expired
									fin := r1
									if r2 != time.Hour*99999 {
										fin = r2
									}
									all := fin >= 0 && ts >= 0 && sn >= 0 && tg >= 0
									if (r.Targets["targets"] != nil) != all {
										t.Fail("targets trusted=%v with root %v timestamp %v snapshot %v targets %v", r.Targets["targets"] != nil, fin, ts, sn, tg)
									}
									if (r.Targets["A"] != nil) != (all && ag >= 0) {
										t.Fail("delegated targets trusted=%v, expiry %v", r.Targets["A"] != nil, ag)
									}
								}
							}
						}
					}
				})
			}
		}
	}
	// every role of a chain of delegations, and roles delegated twice, must be unexpired to be trusted
	names := []string{"A", "B", "C", "D"}
	for _, aw := range offs {
		for _, bw := range offs {
			c.Case(func() string { return fmt.Sprintf("chain of delegations, expiry %v %v", aw, bw) }, func(t *T) {
				root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), Exp: at(0)})
				for _, cw := range offs {
					for _, dw := range offs {
						for _, cs := range []string{"chain", "star", "back"} {
							meta := map[string]Meta{"targets.json": {Ver: 1}}
							for _, n := range names {
								meta[n+".json"] = Meta{Ver: 1}
							}
							ops := []op{{call: "timestamp", doc: MkTS(2, Meta{Ver: 2}, at(0), good(Ks("ts")))}, {call: "snapshot", doc: MkSN(2, meta, at(0), good(Ks("sn")))}}
							to := map[string][]string{}
							from := map[string]string{}
							switch cs {
							case "chain":
								to = map[string][]string{"targets": {"A"}, "A": {"B"}, "B": {"C"}, "C": {"D"}}
							case "star":
								to = map[string][]string{"targets": {"A", "B", "C"}, "B": {"D"}}
							case "back": // D names A again
								to = map[string][]string{"targets": {"A", "B"}, "A": {"C"}, "C": {"D"}, "D": {"A", "B"}}
							}
							dl := func(n string) *Deleg {
								if len(to[n]) == 0 {
									return nil
								}
								d := &Deleg{}
								for _, x := range to[n] {
									d.Roles = append(d.Roles, DRole{Name: x, Keys: Ks("A"), Thr: 1, Paths: []string{"*"}})
									if from[x] == "" {
										from[x] = n
									}
								}
								return d
							}
							ops = append(ops, op{call: "targets", doc: MkTG("targets", 1, nil, dl("targets"), at(1), good(Ks("tg")))})
							ws := map[string]time.Duration{"A": aw, "B": bw, "C": cw, "D": dw}
							for _, n := range names {
								doc := MkTG(n, 1, map[string]TF{"f": TFof(n)}, dl(n), at(ws[n]), good(Ks("A")))
								ops = append(ops, op{call: "delegated", doc: doc, role: n, from: from[n]})
							}
							m, _ := NewMSet(root, ref)
							r := newReal(t, root, ref, nil)
							t.Reset()
							for _, o := range ops {
								if o.call == "delegated" && r.Targets[o.from] == nil {
									continue // its delegator was refused
								}
								v := o.model(m)
								err, _ := o.real(r)
								t.Log("%s: %s", o, refused(err))
								t.Trans(1)
								if (err == nil) != (v == ok) {
									t.Fail("%s: %s, expected %q", o, refused(err), v)
								}
								if d := setDiff(r, m); d != "" {
									t.Fail("after %s: %s", o, d)
								}
							}
							for n, w := range ws {
								if r.Targets[n] != nil && w < 0 {
									t.Fail("%s is trusted and expired", n)
								}
							}
							t.State(fmt.Sprint(cs, aw, bw, cw, dw))
						}
					}
				}
			})
		}
	}
	sessionsC04(c)
}

// mkRaw builds a timestamp or snapshot whose meta entries are given as JSON objects.
func mkRaw(kind string, ver int64, meta J, sigs []SigOpt) []byte {
	signed := J{"_type": kind, "spec_version": "1.0.31", "version": ver, "expires": expValid, "meta": meta}
	list, _, _ := sigsFor(signed, sigs)
	return plainJSON(J{"signed": signed, "signatures": list})
}

func runC05(c *Ctx) {
	root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1)})
	flip := func(h string) string {
		if h[0] == '0' {
			return "1" + h[1:]
		}
		return "0" + h[1:]
	}
	lens := []string{"absent", "right", "plus", "minus"}
	h256 := []string{"absent", "right", "wrong", "short"}
	h512 := []string{"absent", "right", "wrong"}
	unk := []bool{false, true}
	vers := []int64{-1, 0, 1} // entry version relative to the document
	vars := []string{"exact", "ws", "cut", "other", "badsig", "wrongtype"}
	for _, stage := range []string{"snapshot", "snapshot-trusted", "targets", "delegated", "nested"} {
		for _, dv := range vars {
			for _, ev := range vers {
				c.Case(func() string { return fmt.Sprintf("%s offered %s, entry version %+d", stage, dv, ev) }, func(t *T) {
					tgt := MkTG("targets", 2, map[string]TF{"x": TFof("1")}, &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}, expValid, good(Ks("tg")))
					adoc := MkTG("A", 2, nil, nil, expValid, good(Ks("A")))
					mid := MkTG("mid", 7, nil, &Deleg{Roles: []DRole{{Name: "B", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}, expValid, good(Ks("A")))
					snap := MkSN(2, map[string]Meta{"targets.json": {Ver: 2}}, expValid, good(Ks("sn")))
					var doc *Doc
					kind := "snapshot"
					switch stage {
					case "targets":
						doc, kind = tgt, "targets"
					case "delegated", "nested":
						doc, kind = adoc, "targets"
					default:
						doc = snap
					}
					signer := map[string]*Key{"snapshot": K("sn"), "snapshot-trusted": K("sn"), "targets": K("tg"), "delegated": K("A"), "nested": K("A")}[stage]
					offered := append([]byte{}, doc.Bytes...)
					loadable := true
					switch dv {
					case "ws": // the same JSON in other bytes
						offered = append([]byte(" "), offered...)
					case "cut":
						offered = offered[:len(offered)-1]
						loadable = false
					case "other": // another document of the same version, correctly signed
						if kind == "snapshot" {
							offered = MkSN(2, map[string]Meta{"targets.json": {Ver: 2}, "Z.json": {Ver: 1}}, expValid, []SigOpt{{Key: signer}}).Bytes
						} else {
							offered = MkTG("o", 2, map[string]TF{"evil": TFof("2")}, nil, expValid, []SigOpt{{Key: signer}}).Bytes
						}
					case "badsig":
						if kind == "snapshot" {
							offered = MkSN(2, map[string]Meta{"targets.json": {Ver: 2}}, expValid, []SigOpt{{Key: signer, Corrupt: true}}).Bytes
						} else {
							offered = MkTG("o", 2, nil, nil, expValid, []SigOpt{{Key: signer, Corrupt: true}}).Bytes
						}
						loadable = false
					case "wrongtype":
						if kind == "snapshot" {
							offered = MkTG("o", 2, nil, nil, expValid, []SigOpt{{Key: signer}}).Bytes
						} else {
							offered = MkSN(2, map[string]Meta{}, expValid, []SigOpt{{Key: signer}}).Bytes
						}
						loadable = false
					}
					// what the entry declares: relative to the offered bytes ("right" matches them)
					for _, l := range lens {
						for _, a := range h256 {
							for _, b := range h512 {
								for _, u := range unk {
									for _, listed := range []bool{true, false} {
										if !listed && (l != "absent" || a != "absent" || b != "absent" || u || kind == "snapshot") {
											continue
										}
										entry := J{"version": int64(2) + ev}
										match := true
										switch l {
										case "right":
											entry["length"] = int64(len(offered))
										case "plus":
											entry["length"] = int64(len(offered) + 1)
											match = false
										case "minus":
											entry["length"] = int64(len(offered) - 1)
											match = false
										}
										hs := J{}
										switch a {
										case "right":
											hs["sha256"] = sha256hex(offered)
										case "wrong":
											hs["sha256"] = flip(sha256hex(offered))
											match = false
										case "short":
											hs["sha256"] = sha256hex(offered)[:62]
											match = false
										}
										switch b {
										case "right":
											hs["sha512"] = sha512hex(offered)
										case "wrong":
											hs["sha512"] = flip(sha512hex(offered))
											match = false
										}
										if u {
											hs["md5"] = "00"
											match = false
										}
										if len(hs) > 0 {
											entry["hashes"] = hs
										}
										real, err := trustedmetadata.New(root.Bytes)
										if err != nil {
											t.Fail("%v", err)
										}
										want := false
										var got error
										var loaded bool
										if kind == "snapshot" {
											if _, err := real.UpdateTimestamp(mkRaw("timestamp", 1, J{"snapshot.json": entry}, good(Ks("ts")))); err != nil {
												t.Fail("timestamp refused: %v", err)
											}
											_, got = real.UpdateSnapshot(offered, stage == "snapshot-trusted")
											want = loadable && ev == 0 && (match || stage == "snapshot-trusted")
											loaded = real.Snapshot != nil
											kept := loadable && (match || stage == "snapshot-trusted")
											if loaded != kept {
												t.Fail("entry %s: snapshot kept=%v, expected %v", canon(entry), loaded, kept)
											}
										} else {
											meta := J{"targets.json": J{"version": 2}}
											role := "targets"
											if stage == "delegated" {
												role = "A"
											} else if stage == "nested" {
												role = "B"
												meta["A.json"] = J{"version": 7}
											}
											if listed {
												meta[role+".json"] = entry
											} else {
												delete(meta, role+".json")
												meta["other.json"] = entry
											}
											if _, err := real.UpdateTimestamp(mkRaw("timestamp", 1, J{"snapshot.json": J{"version": 3}}, good(Ks("ts")))); err != nil {
												t.Fail("timestamp refused: %v", err)
											}
											if _, err := real.UpdateSnapshot(mkRaw("snapshot", 3, meta, good(Ks("sn"))), false); err != nil {
												t.Fail("snapshot refused: %v", err)
											}
											if stage == "nested" {
												if _, err := real.UpdateTargets(tgt.Bytes); err != nil {
													t.Fail("targets refused: %v", err)
												}
												if _, err := real.UpdateDelegatedTargets(mid.Bytes, "A", "targets"); err != nil {
													t.Fail("delegated targets refused: %v", err)
												}
												_, got = real.UpdateDelegatedTargets(offered, "B", "A")
											} else if stage == "delegated" {
												if _, err := real.UpdateTargets(tgt.Bytes); err != nil {
													t.Fail("targets refused: %v", err)
												}
												_, got = real.UpdateDelegatedTargets(offered, "A", "targets")
											} else {
												_, got = real.UpdateTargets(offered)
											}
											want = loadable && ev == 0 && match && listed
											loaded = real.Targets[role] != nil
											if loaded != want {
												t.Fail("entry %s listed=%v: loaded=%v, expected %v", canon(entry), listed, loaded, want)
											}
										}
										t.Trans(1)
										t.State(fmt.Sprint(stage, dv, ev, l, a, b, u, listed))
										t.Outcome(fmt.Sprint(want))
										if (got == nil) != want {
											t.Fail("%s offered %s with entry %s listed=%v: %s, expected accepted=%v", stage, dv, canon(entry), listed, refused(got), want)
										}
									}
								}
							}
						}
					}
				})
			}
		}
	}
	runC05Reload(c, root)
	// metadata from different repository states is never mixed: all version vectors
	for tsn := int64(1); tsn <= 3; tsn++ {
		for sv := int64(1); sv <= 3; sv++ {
			c.Case(func() string { return fmt.Sprintf("mix: timestamp names snapshot %d, snapshot %d offered", tsn, sv) }, func(t *T) {
				for mt := int64(0); mt <= 2; mt++ {
					for ma := int64(0); ma <= 2; ma++ {
						for tv := int64(1); tv <= 2; tv++ {
							for av := int64(1); av <= 2; av++ {
								meta := map[string]Meta{}
								if mt > 0 {
									meta["targets.json"] = Meta{Ver: mt}
								}
								if ma > 0 {
									meta["A.json"] = Meta{Ver: ma}
								}
								dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
								ops := []op{{call: "timestamp", doc: MkTS(1, Meta{Ver: tsn}, expValid, good(Ks("ts")))},
									{call: "snapshot", doc: MkSN(sv, meta, expValid, good(Ks("sn")))},
									{call: "targets", doc: MkTG("targets", tv, nil, dl, expValid, good(Ks("tg")))},
									{call: "delegated", doc: MkTG("A", av, nil, nil, expValid, good(Ks("A"))), role: "A", from: "targets"}}
								runOps(t, root, ops)
							}
						}
					}
				}
			})
		}
	}
}

// runOps runs one history and compares every step.
func runOps(t *T, root *Doc, ops []op) {
	m, _ := NewMSet(root, time.Now())
	r := newReal(t, root, time.Time{}, nil)
	t.Reset()
	st := ""
	for _, o := range ops {
		v := o.model(m)
		err, _ := o.real(r)
		t.Log("%s: %s", o, refused(err))
		t.Trans(1)
		st += o.doc.SigID + string(v)
		if (err == nil) != (v == ok) {
			t.Fail("%s: %s, expected %q", o, refused(err), v)
		}
		if d := setDiff(r, m); d != "" {
			t.Fail("after %s: %s", o, d)
		}
	}
	t.State(st)
}

// c06universe is the documents and calls of C06.
func c06universe(mixed bool) (*Doc, []op) {
	rr := stdRoles(Ks("a"), 1)
	root1 := MkRoot(RootOpt{Ver: 1, Roles: rr, Exp: exps(mixed)})
	root2 := MkRoot(RootOpt{Ver: 2, Roles: rr})
	root3 := MkRoot(RootOpt{Ver: 3, Roles: rr, Exp: expExpired})
	rootBad := MkRoot(RootOpt{Ver: 2, Roles: stdRoles(Ks("b"), 1), Sigs: good(Ks("b"))})
	s := func(n string) []SigOpt { return good(Ks(n)) }
	dlT := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}, {Name: "B", Keys: Ks("B"), Thr: 1, Paths: []string{"*"}}}}
	dlA := &Deleg{Roles: []DRole{{Name: "B", Keys: Ks("B2"), Thr: 1, Paths: []string{"*"}}, {Name: "targets", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
	sn1m := map[string]Meta{"targets.json": {Ver: 1}, "A.json": {Ver: 1}, "B.json": {Ver: 1}}
	sn0m := map[string]Meta{"targets.json": {Ver: 2}, "C.json": {Ver: 1}} // newer, without roles the others have
	sn2m := map[string]Meta{"targets.json": {Ver: 2}, "A.json": {Ver: 1}, "B.json": {Ver: 1}, "C.json": {Ver: 1}}
	ts := []*Doc{MkTS(1, Meta{Ver: 1}, expValid, s("ts")), MkTS(2, Meta{Ver: 2}, expValid, s("ts")), MkTS(3, Meta{Ver: 2}, expExpired, s("ts")), MkTS(2, Meta{Ver: 2}, expValid, s("sn")), MkTS(3, Meta{Ver: 1}, expValid, s("ts")), MkTS(1, Meta{Ver: 2}, expValid, s("ts"))}
	sn := []*Doc{MkSN(1, sn1m, expValid, s("sn")), MkSN(2, sn2m, expValid, s("sn")), MkSN(2, sn2m, expExpired, s("sn")), MkSN(2, sn1m, expValid, s("tg")), MkSN(2, sn0m, expValid, s("sn"))}
	tg := []*Doc{MkTG("targets", 1, nil, dlT, expValid, s("tg")), MkTG("targets", 2, nil, dlT, expValid, s("tg")), MkTG("targets", 2, nil, nil, expExpired, s("tg")), MkTG("targets", 1, nil, dlT, expValid, s("ts"))}
	dg := []*Doc{MkTG("A", 1, nil, dlA, expValid, s("A")), MkTG("B", 1, nil, nil, expValid, s("B")), MkTG("B'", 1, nil, nil, expValid, s("B2")), MkTG("A", 2, nil, nil, expValid, s("A"))}
	junk := []*Doc{Junk("empty", nil), Junk("brace", []byte("{")), Junk("array", []byte("[]"))}
	var ops []op
	add := func(call string, ds ...*Doc) {
		for _, d := range ds {
			ops = append(ops, op{call: call, doc: d})
		}
	}
	add("root", root1, root2, root3, rootBad)
	add("root", ts[0], sn[0], tg[0])
	add("timestamp", ts...)
	add("timestamp", root2, sn[0], tg[0])
	for _, call := range []string{"snapshot", "snapshot-trusted"} {
		add(call, sn...)
		add(call, root2, ts[0], tg[0])
	}
	add("targets", tg...)
	add("targets", root2, ts[0], sn[0], dg[0])
	for _, call := range []string{"root", "timestamp", "snapshot", "snapshot-trusted", "targets"} {
		add(call, junk...)
	}
	for _, p := range [][2]string{{"A", "targets"}, {"B", "targets"}, {"B", "A"}, {"A", "B"}, {"C", "targets"}, {"targets", "A"}, {"A", "root"}, {"A", "nobody"}} {
		ds := append(append([]*Doc{}, dg...), tg[0], sn[0], junk[1])
		for _, d := range ds {
			ops = append(ops, op{call: "delegated", doc: d, role: p[0], from: p[1]})
		}
	}
	return root1, ops
}

// runC05Reload: everything may be offered again after something was accepted, and is then bound
// to what names it all the same. Every document comes with declared lengths and hashes.
func runC05Reload(c *Ctx, root *Doc) {
	s := func(n string) []SigOpt { return good(Ks(n)) }
	dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}, {Name: "B", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
	ws := func(d *Doc) *Doc { // the same JSON in other bytes
		n := *d
		n.Name += " respaced"
		n.Bytes = append([]byte(" "), d.Bytes...)
		return reg(&n)
	}
	for _, decl := range []string{"both", "length", "hash"} {
		le, ha := decl != "hash", decl != "length"
		tgs := []*Doc{MkTG("targets", 1, nil, dl, expValid, s("tg")), MkTG("targets'", 1, map[string]TF{"evil": TFof("e")}, dl, expValid, s("tg")), MkTG("targets", 2, nil, dl, expValid, s("tg"))}
		as := []*Doc{MkTG("A", 1, nil, nil, expValid, s("A")), MkTG("A'", 1, map[string]TF{"evil": TFof("e")}, nil, expValid, s("A")), MkTG("A", 2, nil, nil, expValid, s("A"))}
		meta := func(t, a *Doc) map[string]Meta {
			return map[string]Meta{"targets.json": metaOf(t, le, ha), "A.json": metaOf(a, le, ha), "B.json": metaOf(a, le, ha)}
		}
		sns := []*Doc{MkSN(1, meta(tgs[0], as[0]), expValid, s("sn")), MkSN(1, meta(tgs[1], as[1]), expValid, s("sn")), MkSN(2, meta(tgs[2], as[2]), expValid, s("sn")), MkSN(2, meta(tgs[2], as[0]), expValid, s("sn"))}
		tss := []*Doc{MkTS(1, metaOf(sns[0], le, ha), expValid, s("ts")), MkTS(2, metaOf(sns[2], le, ha), expValid, s("ts"))}
		var ops []op
		for _, d := range tss {
			ops = append(ops, op{call: "timestamp", doc: d})
		}
		for _, d := range sns {
			ops = append(ops, op{call: "snapshot", doc: d}, op{call: "snapshot", doc: ws(d)}, op{call: "snapshot-trusted", doc: d}, op{call: "snapshot-trusted", doc: ws(d)})
		}
		for _, d := range tgs {
			ops = append(ops, op{call: "targets", doc: d}, op{call: "targets", doc: ws(d)})
		}
		for _, d := range as {
			for _, r := range []string{"A", "B"} {
				ops = append(ops, op{call: "delegated", doc: d, role: r, from: "targets"}, op{call: "delegated", doc: ws(d), role: r, from: "targets"})
			}
		}
		for i := range ops[:2] {
			c.Case(func() string { return fmt.Sprintf("everything again, declaring %s, after %s", decl, ops[i]) }, func(t *T) {
				first := true
				explore(t, root, time.Time{}, func(m *MSet) []op {
					if first {
						first = false
						return ops[i : i+1]
					}
					return ops
				}, exploreOpt{depth: Pick(c, 8, 14), dedupe: true})
			})
		}
	}
}

// runC04Reload: the same with valid and expired documents of the same versions.
func runC04Reload(c *Ctx) {
	root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1)})
	s := func(n string) []SigOpt { return good(Ks(n)) }
	dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}, {Name: "B", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
	var ops []op
	for _, e := range []string{expValid, expExpired} {
		for v := int64(1); v <= 2; v++ {
			meta := map[string]Meta{"targets.json": {Ver: v}, "A.json": {Ver: 1}, "B.json": {Ver: v}}
			ops = append(ops, op{call: "timestamp", doc: MkTS(v, Meta{Ver: v}, e, s("ts"))})
			ops = append(ops, op{call: "root", doc: MkRoot(RootOpt{Ver: v + 1, Roles: stdRoles(Ks("a"), 1), Exp: e})})
			sn := MkSN(v, meta, e, s("sn"))
			ops = append(ops, op{call: "snapshot", doc: sn}, op{call: "snapshot-trusted", doc: sn})
			ops = append(ops, op{call: "targets", doc: MkTG("targets", v, nil, dl, e, s("tg"))})
			for _, r := range []string{"A", "B"} {
				ops = append(ops, op{call: "delegated", doc: MkTG("A", v, nil, nil, e, s("A")), role: r, from: "targets"})
			}
		}
	}
	for i := range ops {
		if ops[i].call != "timestamp" && ops[i].call != "root" {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("everything again, expired or not, after %s", ops[i]) }, func(t *T) {
			first := true
			explore(t, root, time.Time{}, func(m *MSet) []op {
				if first {
					first = false
					return ops[i : i+1]
				}
				return ops
			}, exploreOpt{depth: Pick(c, 8, 14), dedupe: true})
		})
	}
}

// runC06Many: many delegated roles, loaded from every delegator, loaded or not.
func runC06Many(c *Ctx) {
	root := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1)})
	s := func(n string) []SigOpt { return good(Ks(n)) }
	n := Pick(c, 5, 7)
	meta := map[string]Meta{"targets.json": {Ver: 1}}
	role := func(i int) string { return fmt.Sprintf("D%d", i) }
	all := func(skip int) *Deleg {
		d := &Deleg{}
		for i := 0; i < n; i++ {
			if i != skip {
				d.Roles = append(d.Roles, DRole{Name: role(i), Keys: Ks("A"), Thr: 1, Paths: []string{"*"}})
			}
		}
		return d
	}
	ops := []op{{call: "timestamp", doc: MkTS(1, Meta{Ver: 1}, expValid, s("ts"))}}
	var del []op
	for i := 0; i < n; i++ {
		meta[role(i)+".json"] = Meta{Ver: 1}
		d := MkTG(role(i), 1, map[string]TF{role(i): TFof("x")}, all(i), expValid, s("A"))
		for j := -1; j <= n; j++ {
			from := "targets"
			if j >= 0 {
				from = role(j)
			}
			del = append(del, op{call: "delegated", doc: d, role: role(i), from: from})
		}
	}
	tg := MkTG("targets", 1, nil, all(-1), expValid, s("tg"))
	sn := MkSN(1, meta, expValid, s("sn"))
	ops = append(ops, op{call: "snapshot", doc: sn}, op{call: "targets", doc: tg})
	c.Case(func() string { return fmt.Sprintf("%d delegated roles that delegate to each other", n) }, func(t *T) {
		explore(t, root, time.Time{}, func(m *MSet) []op {
			switch {
			case m.TS == nil:
				return ops[:1]
			case m.SN == nil:
				return ops[:2]
			case m.TG["targets"] == nil:
				return append(append([]op{}, ops...), del...)
			}
			return append(append([]op{}, ops...), del...)
		}, exploreOpt{depth: n + 4, dedupe: true, deep: true})
	})
}

func runC06(c *Ctx) {
	runC06Many(c)
	mk := c06universe
	for _, mixed := range []bool{false, true} {
		root, ops := mk(mixed)
		// sharded by the first (accepted) steps: one case per first op, dedupe inside
		for i := range ops {
			c.Case(func() string { return fmt.Sprintf("expired anchor %v, sequences starting with %s", mixed, ops[i]) }, func(t *T) {
				first := true
				explore(t, root, time.Time{}, func(m *MSet) []op {
					if first {
						first = false
						return ops[i : i+1]
					}
					return ops
				}, exploreOpt{depth: Pick(c, 7, 12), dedupe: true, deep: true})
			})
		}
	}
}
