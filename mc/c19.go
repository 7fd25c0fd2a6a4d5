package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

func init() {
	register(&Check{ID: "C19", Run: runC19,
		Rule: "all states reachable by any number of AddKey and RevokeKey calls (breadth-first to the fixpoint, each state rebuilt by replaying its history on a fresh real object) for root, targets with named delegations and targets with succinct delegations; keys x roles as stated per case, every call with known, unknown and empty role names, known and unknown key IDs, and equal keys held in different objects; lists shared between roles in memory; lists of up to 18 (70) keys; roles, key store, error and rest of the metadata against an ordered-list model; the metadata is saved and read back in every state",
	})
}

type c19op struct {
	add  bool
	key  int // index into the key objects
	role string
}

func (o c19op) String() string {
	if o.add {
		return fmt.Sprintf("add k%d to %q", o.key, o.role)
	}
	return fmt.Sprintf("revoke k%d from %q", o.key, o.role)
}

// c19model is the reference: ordered key lists per role.
type c19model struct {
	roles map[string][]string
	keys  map[string]bool // keys in the store at the start that nobody lists (kept)
}

func (m c19model) clone() c19model {
	n := c19model{roles: map[string][]string{}}
	for k, v := range m.roles {
		n.roles[k] = append([]string{}, v...)
	}
	return n
}

func (m c19model) str() string {
	var s []string
	for _, r := range sortedKeys(m.roles) {
		s = append(s, r+"="+strings.Join(m.roles[r], ","))
	}
	return strings.Join(s, " ")
}

func (m c19model) store() string {
	set := map[string]bool{}
	for _, l := range m.roles {
		for _, k := range l {
			set[k] = true
		}
	}
	return strings.Join(sortedKeys(set), ",")
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// apply returns whether the operation succeeds.
func (m c19model) apply(add bool, id, role string) bool {
	l, found := m.roles[role]
	if !found {
		return false
	}
	if add {
		if !has(l, id) {
			m.roles[role] = append(l, id)
		}
		return true
	}
	if !has(l, id) {
		return false
	}
	n := []string{}
	for _, x := range l {
		if x != id {
			n = append(n, x)
		}
	}
	m.roles[role] = n
	return true
}

type c19target struct {
	name  string
	roles []string
	// mk makes a fresh real object and returns the functions on it
	mk      func() c19real
	anyRole bool // succinct: the role argument does not matter
}

type c19real struct {
	add    func(k *metadata.Key, role string) error
	revoke func(id, role string) error
	lists  func() (map[string][]string, []string, map[string]string) // role lists, key store IDs, problems
	rest   func() string
	bytes  func() ([]byte, error)
	read   func(b []byte) (map[string][]string, []string, error)
}

func rootLists(r *metadata.RootType) (map[string][]string, []string, map[string]string) {
	l, bad := map[string][]string{}, map[string]string{}
	for n, x := range r.Roles {
		l[n] = append([]string{}, x.KeyIDs...)
	}
	var ks []string
	for id, k := range r.Keys {
		ks = append(ks, id)
		if keyIDOf(k) != id {
			bad[id] = "holds another key"
		}
	}
	sort.Strings(ks)
	return l, ks, bad
}

func tgLists(d *metadata.Delegations) (map[string][]string, []string, map[string]string) {
	l, bad := map[string][]string{}, map[string]string{}
	if d == nil {
		return l, nil, bad
	}
	for _, x := range d.Roles {
		l[x.Name] = append([]string{}, x.KeyIDs...)
	}
	if d.SuccinctRoles != nil {
		l["succinct"] = append([]string{}, d.SuccinctRoles.KeyIDs...)
	}
	var ks []string
	for id, k := range d.Keys {
		ks = append(ks, id)
		if keyIDOf(k) != id {
			bad[id] = "holds another key"
		}
	}
	sort.Strings(ks)
	return l, ks, bad
}

// keyIDOf is the reference key ID of a real key.
func keyIDOf(k *metadata.Key) string {
	b, err := json.Marshal(k)
	must(err)
	return sha256hex(canon(parseJSON(b)))
}

func runC19(c *Ctx) {
	// key objects: k0..k2 different, k3 equal to k0 in another object, k4 equal to k1 read from JSON
	mkKey := func(i int) *metadata.Key {
		k := &metadata.Key{}
		src := []string{"k0", "k1", "k2", "k0", "k1"}[i]
		must(json.Unmarshal(plainJSON(K(src).Obj), k))
		if i == 3 {
			k = &metadata.Key{Type: k.Type, Scheme: k.Scheme, Value: metadata.KeyVal{PublicKey: k.Value.PublicKey}}
		}
		return k
	}
	idOf := []string{K("k0").ID, K("k1").ID, K("k2").ID, K("k0").ID, K("k1").ID}
	rootReal := func(m *MRoot) c19real {
		return c19real{m.Signed.AddKey, m.Signed.RevokeKey, func() (map[string][]string, []string, map[string]string) { return rootLists(&m.Signed) },
			func() string {
				x := m.Signed
				x.Keys = nil
				s := dump(struct{ A, B any }{m.Signatures, m.UnrecognizedFields}) + fmt.Sprint(x.Type, x.SpecVersion, x.Version, x.Expires, x.ConsistentSnapshot, x.UnrecognizedFields)
				for _, n := range sortedKeys(x.Roles) {
					s += fmt.Sprint(n, x.Roles[n].Threshold, x.Roles[n].UnrecognizedFields)
				}
				return s
			},
			func() ([]byte, error) { return m.ToBytes(false) },
			func(b []byte) (map[string][]string, []string, error) {
				n, err := metadata.Root().FromBytes(b)
				if err != nil {
					return nil, nil, err
				}
				l, k, _ := rootLists(&n.Signed)
				return l, k, nil
			}}
	}
	tgReal := func(m *MTG) c19real {
		return c19real{m.Signed.AddKey, m.Signed.RevokeKey, func() (map[string][]string, []string, map[string]string) { return tgLists(m.Signed.Delegations) },
			func() string {
				x := m.Signed
				x.Delegations = nil
				s := dump(x)
				if d := m.Signed.Delegations; d != nil {
					for _, r := range d.Roles {
						r.KeyIDs = nil
						s += dump(r)
					}
					if d.SuccinctRoles != nil {
						y := *d.SuccinctRoles
						y.KeyIDs = nil
						s += dump(y)
					}
					s += fmt.Sprint(d.UnrecognizedFields)
				}
				return s
			},
			func() ([]byte, error) { return m.ToBytes(false) },
			func(b []byte) (map[string][]string, []string, error) {
				n, err := metadata.Targets().FromBytes(b)
				if err != nil {
					return nil, nil, err
				}
				l, k, _ := tgLists(n.Signed.Delegations)
				return l, k, nil
			}}
	}
	dr := func(names ...string) []metadata.DelegatedRole {
		var r []metadata.DelegatedRole
		for _, n := range names {
			r = append(r, metadata.DelegatedRole{Name: n, KeyIDs: []string{}, Threshold: 1, Paths: []string{"*"}})
		}
		return r
	}
	// a document with keys to start from
	preRoot := MkRoot(RootOpt{Ver: 1, Roles: map[string]RoleSpec{"root": {Ks("k0 k1"), 1}, "timestamp": {Ks("k1"), 1}, "snapshot": {Ks("k1"), 1}, "targets": {Ks("k2 k0"), 1}}})
	preTG := MkTG("tg", 1, nil, &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("k0 k1"), Thr: 1, Paths: []string{"*"}}, {Name: "B", Keys: Ks("k1"), Thr: 1, Paths: []string{"*"}}}}, expValid, good(Ks("z")))
	preSucc := MkTG("tg", 1, nil, &Deleg{Succ: &Succ{Keys: Ks("k0 k1"), Thr: 1, Bits: 2, Prefix: "bin"}}, expValid, good(Ks("z")))
	readRoot := func(b []byte) *MRoot { m, err := metadata.Root().FromBytes(b); must(err); return m }
	readTG := func(b []byte) *MTG { m, err := metadata.Targets().FromBytes(b); must(err); return m }
	tgs := []struct {
		name    string
		mk      func() c19real
		nk      int
		roles   []string // roles to operate on
		anyRole bool
		th      bool
	}{
		{"new root, 2 keys, 4 roles", func() c19real { return rootReal(metadata.Root(fixedTime)) }, 2, []string{"root", "timestamp", "snapshot", "targets"}, false, false},
		{"new root, 3 keys, 2 roles", func() c19real { return rootReal(metadata.Root(fixedTime)) }, 3, []string{"root", "targets"}, false, false},
		{"new root, 3 keys, 3 roles", func() c19real { return rootReal(metadata.Root(fixedTime)) }, 3, []string{"root", "timestamp", "targets"}, false, true},
		{"root read from bytes, 3 keys, 2 roles", func() c19real { return rootReal(readRoot(preRoot.Bytes)) }, 3, []string{"root", "targets"}, false, false},
		{"root read from bytes, 2 keys, 4 roles", func() c19real { return rootReal(readRoot(preRoot.Bytes)) }, 2, []string{"root", "timestamp", "snapshot", "targets"}, false, true},
		{"targets with three named delegations, 2 keys", func() c19real {
			m := metadata.Targets(fixedTime)
			m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: dr("A", "B", "C/d")}
			return tgReal(m)
		}, 2, []string{"A", "B", "C/d"}, false, false},
		{"targets with two named delegations, 3 keys", func() c19real {
			m := metadata.Targets(fixedTime)
			m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: dr("A", "B")}
			return tgReal(m)
		}, 3, []string{"A", "B"}, false, false},
		{"targets with a new key store", func() c19real {
			m := metadata.Targets(fixedTime)
			m.Signed.Delegations = &metadata.Delegations{Roles: dr("A", "B")}
			return tgReal(m)
		}, 2, []string{"A", "B"}, false, false},
		{"targets read from bytes", func() c19real { return tgReal(readTG(preTG.Bytes)) }, 3, []string{"A", "B"}, false, false},
		{"targets with no delegated roles", func() c19real {
			m := metadata.Targets(fixedTime)
			m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{}}
			return tgReal(m)
		}, 2, []string{}, false, false},
		{"targets with neither roles nor bins", func() c19real {
			m := metadata.Targets(fixedTime)
			m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
			return tgReal(m)
		}, 2, []string{}, false, false},
		{"root whose roles were given one list", func() c19real {
			m := readRoot(preRoot.Bytes)
			one := []string{K("k0").ID, K("k1").ID}
			delete(m.Signed.Keys, K("k2").ID)
			for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
				m.Signed.Roles[r].KeyIDs = one
			}
			return rootReal(m)
		}, 3, []string{"root", "snapshot"}, false, false},
		{"targets whose delegations were given one list", func() c19real {
			m := readTG(preTG.Bytes)
			one := []string{K("k0").ID, K("k1").ID}
			for i := range m.Signed.Delegations.Roles {
				m.Signed.Delegations.Roles[i].KeyIDs = one
			}
			return tgReal(m)
		}, 3, []string{"A", "B"}, false, false},
		{"targets without delegations", func() c19real { return tgReal(metadata.Targets(fixedTime)) }, 2, []string{}, false, false},
		{"targets with succinct delegations", func() c19real {
			m := metadata.Targets(fixedTime)
			m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: 3, NamePrefix: "bin"}}
			return tgReal(m)
		}, 3, []string{"succinct"}, true, false},
		{"succinct delegations with a new key store", func() c19real {
			m := metadata.Targets(fixedTime)
			m.Signed.Delegations = &metadata.Delegations{SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: 3, NamePrefix: "bin"}}
			return tgReal(m)
		}, 2, []string{"succinct"}, true, false},
		{"succinct delegations read from bytes", func() c19real { return tgReal(readTG(preSucc.Bytes)) }, 3, []string{"succinct"}, true, false},
	}
	c19wide(c, "root", func() c19real { return rootReal(metadata.Root(fixedTime)) }, "targets", "root")
	c19wide(c, "named delegations", func() c19real { return tgReal(readTG(preTG.Bytes)) }, "B", "A")
	c19wide(c, "bins", func() c19real { return tgReal(readTG(preSucc.Bytes)) }, "succinct", "succinct")
	for _, tg := range tgs {
		if tg.th && !c.Thorough() {
			continue
		}
		c.Case(func() string { return tg.name }, func(t *T) {
			objs := []int{}
			for i := range idOf {
				if i < tg.nk || i == 3 || i == 4 {
					objs = append(objs, i)
				}
			}
			roles := append(append([]string{}, tg.roles...), "nobody", "")
			if tg.anyRole {
				roles = []string{"succinct", "bin-0", ""}
			}
			var ops []c19op
			for _, r := range roles {
				for _, k := range objs {
					ops = append(ops, c19op{true, k, r})
				}
				for k := 0; k < 3; k++ {
					ops = append(ops, c19op{false, k, r})
				}
			}
			first := tg.mk()
			l0, _, _ := first.lists()
			m0 := c19model{roles: l0}
			restWant := first.rest()
			if d := c19diff(first, m0, restWant); d != "" {
				t.Fail("at the start: %s", d)
			}
			type st struct {
				m    c19model
				path []c19op
			}
			replay := func(path []c19op) c19real {
				r := tg.mk()
				for _, o := range path {
					c19do(r, o, mkKey, idOf)
				}
				return r
			}
			seen := map[string]bool{m0.str(): true}
			queue := []st{{m0, nil}}
			for len(queue) > 0 {
				s := queue[0]
				queue = queue[1:]
				t.State(tg.name + s.m.str())
				for _, o := range ops {
					m := s.m.clone()
					role := o.role
					if tg.anyRole {
						role = "succinct"
					}
					want := m.apply(o.add, idOf[o.key], role)
					r := replay(s.path)
					t.Reset()
					for _, p := range s.path {
						t.Log("%s", p)
					}
					var err error
					if p := guard(func() { err = c19do(r, o, mkKey, idOf) }); p != "" {
						t.Fail("%s: %s", o, p)
					}
					t.Trans(1)
					t.Log("%s: %s", o, refused(err))
					if (err == nil) != want {
						t.Fail("%s: %s, expected success=%v in %s", o, refused(err), want, s.m.str())
					}
					t.Outcome(fmt.Sprint(o.add, want))
					if d := c19diff(r, m, restWant); d != "" {
						t.Fail("after %s: %s", o, d)
					}
					if k := m.str(); !seen[k] {
						seen[k] = true
						queue = append(queue, st{m, append(append([]c19op{}, s.path...), o)})
						// saved and read back
						b, err := r.bytes()
						if err != nil {
							t.Fail("after %s: ToBytes: %v", o, err)
						}
						l, ks, err := r.read(b)
						if err != nil {
							t.Fail("after %s: reading it back: %v", o, err)
						}
						if (c19model{roles: l}).str() != m.str() || strings.Join(ks, ",") != m.store() {
							t.Fail("after %s and reading it back: %v, keys %v, expected %s", o, l, ks, m.str())
						}
					}
				}
			}
		})
	}
}

// c19wide: long key lists, every operation at every position.
func c19wide(c *Ctx, name string, mk func() c19real, role, other string) {
	max := 18
	if c.Thorough() {
		max = 70
	}
	var ks []*Key
	for i := 0; i < max; i++ {
		ks = append(ks, K(fmt.Sprintf("wide%d", i)))
	}
	real := func(k *Key) *metadata.Key {
		r := &metadata.Key{}
		must(json.Unmarshal(plainJSON(k.Obj), r))
		return r
	}
	for n := 1; n <= max; n++ {
		c.Case(func() string { return fmt.Sprintf("%s, %d keys", name, n) }, func(t *T) {
			type op struct {
				add  bool
				k    int
				role string
			}
			run := func(ops []op) {
				r := mk()
				l0, _, _ := r.lists()
				m := c19model{roles: l0}
				rest := r.rest()
				for i := 0; i < n; i++ {
					m.apply(true, ks[i].ID, role)
					if err := r.add(real(ks[i]), role); err != nil {
						t.Fail("adding key %d: %v", i, err)
					}
				}
				for _, o := range append([]op{{}}, ops...) {
					if o.role != "" {
						want := m.apply(o.add, ks[o.k].ID, o.role)
						var err error
						if o.add {
							err = r.add(real(ks[o.k]), o.role)
						} else {
							err = r.revoke(ks[o.k].ID, o.role)
						}
						t.Log("%v: %s", o, refused(err))
						if (err == nil) != want {
							t.Fail("%v: %s, expected success=%v", o, refused(err), want)
						}
					}
					t.Trans(1)
					t.State(name + m.str())
					if d := c19diff(r, m, rest); d != "" {
						t.Fail("after %v: %s", o, d)
					}
				}
				b, err := r.bytes()
				if err != nil {
					t.Fail("ToBytes: %v", err)
				}
				l, st, err := r.read(b)
				if err != nil || (c19model{roles: l}).str() != m.str() || strings.Join(st, ",") != m.store() {
					t.Fail("read back: %v, %v, expected %s", l, err, m.str())
				}
				t.Reset()
			}
			for i := 0; i < n; i++ {
				j := (i + 1) % n
				run([]op{{true, i, role}, {false, i, role}, {true, i, role}, {false, j, role}})
				run([]op{{true, i, other}, {false, i, role}, {false, i, other}, {true, j, other}})
				if c.Thorough() {
					for j := 0; j < n; j++ {
						run([]op{{false, i, role}, {false, j, role}, {true, j, role}, {true, i, role}})
					}
				}
			}
			// emptied from the front, from the back, and filled again
			var fr, ba []op
			for i := 0; i < n; i++ {
				fr = append(fr, op{false, i, role})
				ba = append(ba, op{false, n - 1 - i, role})
			}
			run(append(fr, op{true, 0, role}))
			run(append(ba, op{true, n - 1, role}))
		})
	}
}

func c19do(r c19real, o c19op, mkKey func(int) *metadata.Key, idOf []string) error {
	if o.add {
		return r.add(mkKey(o.key), o.role)
	}
	return r.revoke(idOf[o.key], o.role)
}

func c19diff(r c19real, m c19model, rest string) string {
	l, ks, bad := r.lists()
	if got := (c19model{roles: l}).str(); got != m.str() {
		return fmt.Sprintf("roles %s, expected %s", got, m.str())
	}
	if got := strings.Join(ks, ","); got != m.store() {
		return fmt.Sprintf("key store %s, expected %s", got, m.store())
	}
	if len(bad) > 0 {
		return fmt.Sprintf("key store: %v", bad)
	}
	if got := r.rest(); got != rest {
		return fmt.Sprintf("other parts of the metadata changed: %s, before %s", got, rest)
	}
	return ""
}

var fixedTime = time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
