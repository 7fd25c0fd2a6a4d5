package main

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

func init() {
	register(&Check{ID: "C11", Run: runC11,
		Rule:        "all patterns up to length 6 (quick) or 7 (thorough) over {a,b,*,?,/} x all paths up to the same length over {a,b,/}; all patterns and paths up to 4 atoms over a richer alphabet (character classes, multi-byte characters, dots, blanks, upper case); all pairs of patterns in one role; roles read from bytes and used through every lookup function; hash prefixes of every length for every path, in hexadecimal; roles carrying patterns together with prefixes; empty prefixes and prefixes longer than a hash",
		Assumptions: []string{"negated classes, escapes and malformed patterns are outside the stated alphabet"},
	})
	register(&Check{ID: "C12", Run: runC12,
		Rule:        "bit lengths 1..32 x enough paths to reach every bin (up to 2^10 bins quick, 2^14 thorough); every candidate bin name of width 0..3 over an alphabet with hexadecimal digits of both cases, signs, blanks and underscores, and boundary names for larger widths; complete bin lists up to 2^14 (2^20) bins; acceptance through VerifyDelegate of metadata signed by the bins' key; name prefixes with dashes, digits, separators, percent signs and none at all",
		Assumptions: []string{"the listing of all bins is not produced beyond 2^20 bins (memory)"},
	})
}

// words enumerates all sequences of atoms up to length n.
func words(atoms []string, n int) []string {
	res := []string{""}
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range level {
			for _, a := range atoms {
				next = append(next, w+a)
			}
		}
		res = append(res, next...)
		level = next
	}
	return res
}

// globRich is globMatch plus positive character classes over runes.
func globRich(pattern, path string) bool {
	a, b := strings.Split(pattern, "/"), strings.Split(path, "/")
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !globPartRich(a[i], b[i]) {
			return false
		}
	}
	return true
}

func globPartRich(p, s string) bool {
	if p == "" {
		return s == ""
	}
	_, w := utf8.DecodeRuneInString(s)
	switch p[0] {
	case '*':
		if globPartRich(p[1:], s) {
			return true
		}
		return s != "" && globPartRich(p, s[w:])
	case '?':
		return s != "" && globPartRich(p[1:], s[w:])
	case '[':
		end := strings.IndexByte(p, ']')
		set := p[1:end]
		if s == "" {
			return false
		}
		r, _ := utf8.DecodeRuneInString(s)
		in := false
		rs := []rune(set)
		for i := 0; i < len(rs); i++ {
			if i+2 < len(rs) && rs[i+1] == '-' {
				in = in || rs[i] <= r && r <= rs[i+2]
				i += 2
			} else {
				in = in || rs[i] == r
			}
		}
		return in && globPartRich(p[end+1:], s[w:])
	}
	return s != "" && s[0] == p[0] && globPartRich(p[1:], s[1:])
}

func delegated(t *T, r *metadata.DelegatedRole, path string) bool {
	var got bool
	var err error
	if x := guard(func() { got, err = r.IsDelegatedPath(path) }); x != "" {
		t.Fail("IsDelegatedPath(%q): %s", path, x)
	}
	return got && err == nil
}

func runC11(c *Ctx) {
	n := Pick(c, 6, 7)
	pats := words([]string{"a", "b", "*", "?", "/"}, n)
	paths := words([]string{"a", "b", "/"}, n)
	matrix := func(name string, pats, paths []string, ref func(a, b string) bool) {
		const chunk = 200
		for i := 0; i < len(pats); i += chunk {
			ps := pats[i:min(i+chunk, len(pats))]
			c.Case(func() string { return fmt.Sprintf("%s %q..%q", name, ps[0], ps[len(ps)-1]) }, func(t *T) {
				for _, p := range ps {
					r := &metadata.DelegatedRole{Name: "A", Threshold: 1, Paths: []string{p}}
					for _, path := range paths {
						if got, want := delegated(t, r, path), ref(p, path); got != want {
							t.Fail("pattern %q, path %q: delegated=%v, expected %v", p, path, got, want)
						}
					}
					t.Trans(len(paths))
					t.State(p)
				}
				t.Outcome("matched")
			})
		}
	}
	matrix("glob", pats, paths, globMatch)
	k := Pick(c, 3, 4)
	rich := words([]string{"a", "é", ".", "*", "?", "/", "[ab]", "[a-c]", "A", " ", "-"}, k)
	richPaths := words([]string{"a", "b", "é", ".", "/", "A", " ", "-", "["}, k)
	matrix("rich", rich, richPaths, globRich)
	// through metadata read from bytes: all short patterns as roles of one document, and pairs of patterns
	small := words([]string{"a", "b", "*", "?", "/"}, Pick(c, 3, 4))
	smallPaths := words([]string{"a", "b", "/"}, 4)
	mkDoc := func(roles []DRole) *metadata.Delegations {
		d := MkTG("targets", 1, map[string]TF{}, &Deleg{Roles: roles}, expValid, good(Ks("tg")))
		m, err := metadata.Targets().FromBytes(d.Bytes)
		must(err)
		return m.Signed.Delegations
	}
	lookup := func(t *T, dl *metadata.Delegations, path string, want map[string]bool) {
		var got map[string]bool
		if x := guard(func() { got = dl.GetRolesForTarget(path) }); x != "" {
			t.Fail("GetRolesForTarget(%q): %s", path, x)
		}
		for _, r := range sortedKeys(want) {
			term, has := got[r]
			if !has || term != want[r] {
				t.Fail("GetRolesForTarget(%q): role %q present=%v terminating=%v, expected terminating=%v", path, r, has, term, want[r])
			}
		}
		for _, r := range sortedKeys(got) {
			if _, w := want[r]; !w {
				t.Fail("GetRolesForTarget(%q) contains %q, which is not responsible", path, r)
			}
		}
		t.Trans(1)
	}
	c.Case(func() string { return "short patterns read from bytes" }, func(t *T) {
		var roles []DRole
		for i, p := range small {
			roles = append(roles, DRole{Name: "r" + p, Keys: Ks("A"), Thr: 1, Term: i%2 == 0, Paths: []string{p}})
		}
		roles = append(roles, DRole{Name: "neither", Keys: Ks("A"), Thr: 1}, DRole{Name: "empty", Keys: Ks("A"), Thr: 1, Paths: []string{}},
			DRole{Name: "emptyprefixes", Keys: Ks("A"), Thr: 1, Prefixes: []string{}})
		dl := mkDoc(roles)
		for _, p := range smallPaths {
			want := map[string]bool{}
			for i, q := range small {
				if globMatch(q, p) {
					want["r"+q] = i%2 == 0
				}
			}
			lookup(t, dl, p, want)
			t.State("bytes" + p)
		}
	})
	// a role that carries both: the patterns alone decide
	for i, p := range small {
		p := p
		c.Case(func() string { return fmt.Sprintf("pattern %q together with hash prefixes", p) }, func(t *T) {
			for _, path := range smallPaths {
				hx := sha256hex([]byte(path))
				sum := sha256.Sum256([]byte(path))
				b64 := base64.URLEncoding.EncodeToString(sum[:])
				for _, l := range [][]string{{}, {""}, {"zz"}, {hx}, {hx[:1]}, {hx[:8], "00"}, {b64[:1]}, {b64}} {
					r := &metadata.DelegatedRole{Name: "A", Threshold: 1, Paths: []string{p}, PathHashPrefixes: l}
					if got, want := delegated(t, r, path), globMatch(p, path); got != want {
						t.Fail("pattern %q with prefixes %q, path %q: delegated=%v, expected %v", p, l, path, got, want)
					}
					t.Trans(1)
				}
				if i%8 == 0 {
					dl := mkDoc([]DRole{{Name: "both", Keys: Ks("A"), Thr: 1, Paths: []string{p}, Prefixes: []string{hx[:2], b64[:2]}}})
					want := map[string]bool{}
					if globMatch(p, path) {
						want["both"] = false
					}
					lookup(t, dl, path, want)
				}
			}
			t.State("both" + p)
			t.Outcome("both forms")
		})
	}
	two := words([]string{"a", "*", "?", "/"}, Pick(c, 2, 3))
	for _, p := range two {
		p := p
		c.Case(func() string { return fmt.Sprintf("pairs with %q", p) }, func(t *T) {
			for _, q := range two {
				for _, list := range [][]string{{p, q}, {q, "zz", p}} {
					r := &metadata.DelegatedRole{Name: "A", Threshold: 1, Paths: list}
					for _, path := range smallPaths {
						if got, want := delegated(t, r, path), globMatch(p, path) || globMatch(q, path); got != want {
							t.Fail("patterns %q, path %q: delegated=%v, expected %v", list, path, got, want)
						}
					}
					t.Trans(len(smallPaths))
				}
			}
		})
	}
	// hash prefixes
	hpaths := append(words([]string{"a", "b", "/", "x.y"}, Pick(c, 3, 5)), "é", "a b", "A")
	const chunk = 20
	for i := 0; i < len(hpaths); i += chunk {
		ps := hpaths[i:min(i+chunk, len(hpaths))]
		c.Case(func() string { return fmt.Sprintf("hash prefixes of %q..", ps[0]) }, func(t *T) {
			for _, p := range ps {
				hx := sha256hex([]byte(p))
				sum := sha256.Sum256([]byte(p))
				b64 := base64.URLEncoding.EncodeToString(sum[:])
				var lists [][]string
				for n := 1; n <= 64; n++ {
					lists = append(lists, []string{hx[:n]})
					// last digit off by one
					x := []byte(hx[:n])
					x[n-1] = "123456789abcdef0"[strings.IndexByte("0123456789abcdef", x[n-1])]
					lists = append(lists, []string{string(x)}, []string{string(x), hx[:n]}, []string{hx[:n], string(x)})
				}
				for d := 0; d < 16; d++ {
					lists = append(lists, []string{fmt.Sprintf("%x", d)})
				}
				for d := 0; d < 256; d++ {
					lists = append(lists, []string{fmt.Sprintf("%02x", d)})
				}
				lists = append(lists, []string{hx + "0"}, []string{"zz"}, []string{b64[:4] + "!"}, []string{"00", "01", "02"}, nil, []string{}, []string{""}, []string{"", "zz"}, []string{"zz", ""})
				for _, l := range lists {
					want, base := false, false
					for _, x := range l {
						want = want || strings.HasPrefix(hx, x)
						base = base || strings.HasPrefix(b64, x)
					}
					r := &metadata.DelegatedRole{Name: "A", Threshold: 1, PathHashPrefixes: l}
					got := delegated(t, r, p)
					t.Trans(1)
					if got != want {
						if got == base {
							t.Finding("hash-prefix-base64", "path %q (SHA-256 %s), prefixes %v: delegated=%v, expected %v (prefixes are compared with the base64 form of the digest)", p, hx, l, got, want)
						} else {
							t.Fail("path %q (SHA-256 %s), prefixes %v: delegated=%v, expected %v", p, hx, l, got, want)
						}
					}
				}
				t.State("hash" + p)
				// both forms at once in one document with path patterns
				dl := mkDoc([]DRole{{Name: "glob", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}, {Name: "none", Keys: Ks("A"), Thr: 1, Prefixes: []string{"zz", "!"}}})
				want := map[string]bool{}
				if !strings.Contains(p, "/") {
					want["glob"] = false
				}
				lookup(t, dl, p, want)
			}
		})
	}
}

// ---- C12 ----

func runC12(c *Ctx) {
	maxAll := Pick(c, 10, 14)
	nPaths := Pick(c, 12000, 250000)
	for bits := 1; bits <= 32; bits++ {
		bits := bits
		const parts = 8
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() string { return fmt.Sprintf("bins of paths, bits=%d part %d", bits, part) }, func(t *T) {
				for _, prefix := range c12prefixes {
					s := &Succ{Bits: bits, Prefix: prefix}
					r := &metadata.SuccinctRoles{BitLength: bits, NamePrefix: prefix, Threshold: 1}
					dl := &metadata.Delegations{SuccinctRoles: r}
					seen := map[string]bool{}
					n := nPaths
					if prefix != "bin" {
						n = 200
					}
					for i := part; i < n; i += parts {
						p := pathN(i)
						want := binName(s, p)
						var a, b map[string]bool
						if x := guard(func() { a, b = r.GetRolesForTarget(p), dl.GetRolesForTarget(p) }); x != "" {
							t.Fail("bits %d, path %q: %s", bits, p, x)
						}
						for _, g := range []map[string]bool{a, b} {
							if len(g) != 1 || !g[want] {
								t.Fail("bits %d, path %q: bins %v, expected {%s: terminating}", bits, p, g, want)
							}
						}
						if !seen[want] {
							seen[want] = true
							t.State(want)
							if !r.IsDelegatedRole(want) {
								t.Fail("bits %d: IsDelegatedRole(%q) = false", bits, want)
							}
						}
						t.Trans(1)
					}
				}
			})
		}
		if bits <= maxAll {
			// all bins are reached by some path (so the enumeration above was complete)
			c.Case(func() string { return fmt.Sprintf("all bins reached, bits=%d", bits) }, func(t *T) {
				seen := map[string]bool{}
				s := &Succ{Bits: bits, Prefix: "bin"}
				for i := 0; i < nPaths && len(seen) < 1<<bits; i++ {
					seen[binName(s, pathN(i))] = true
				}
				if len(seen) != 1<<bits {
					panic(harnessError{fmt.Sprintf("only %d bins reached with bits=%d", len(seen), bits)})
				}
			})
		}
		if bits <= Pick(c, 14, 20) {
			c.Case(func() string { return fmt.Sprintf("list of bins, bits=%d", bits) }, func(t *T) {
				for _, prefix := range c12prefixes {
					if bits > 10 && prefix != "bin" && prefix != "a-b" && prefix != "" {
						continue
					}
					s := &Succ{Bits: bits, Prefix: prefix}
					r := &metadata.SuccinctRoles{BitLength: bits, NamePrefix: prefix, Threshold: 1}
					var got []string
					if x := guard(func() { got = r.GetRoles() }); x != "" {
						t.Fail("GetRoles with %d bits: %s", bits, x)
					}
					if len(got) != 1<<bits {
						t.Fail("GetRoles with %d bits returns %d names", bits, len(got))
					}
					for i, g := range got {
						if w := binNameN(s, uint64(i)); g != w {
							t.Fail("GetRoles with %d bits: name %d is %q, expected %q", bits, i, g, w)
						}
						if bits <= 14 && !r.IsDelegatedRole(g) {
							t.Fail("IsDelegatedRole(%q) with %d bits = false", g, bits)
						}
					}
					t.Trans(len(got))
				}
			})
		}
		// candidate names
		c.Case(func() string { return fmt.Sprintf("names, bits=%d", bits) }, func(t *T) {
			prefix := "bin"
			s := &Succ{Bits: bits, Prefix: prefix}
			r := &metadata.SuccinctRoles{BitLength: bits, NamePrefix: prefix, Threshold: 1}
			w := hexWidth(bits)
			max := uint64(1)<<bits - 1
			atoms := []string{"0", "1", "7", "8", "9", "a", "f", "A", "F", "g", "+", "-", "_", " ", "x", "٣"}
			var names []string
			for _, x := range words(atoms, Pick(c, 3, 4)) {
				names = append(names, prefix+"-"+x)
				if len(x) < w {
					// the same at the front and the back of a full-width suffix
					pad := strings.Repeat("0", w-len(x))
					names = append(names, prefix+"-"+pad+x, prefix+"-"+x+pad)
				}
			}
			for _, n := range []uint64{0, 1, max - 1, max, max + 1, max * 2, max*16 + 15} {
				for _, f := range []string{"%0*x", "%0*X", "%0*d", "%0*o", "+%0*x"} {
					for dw := -2; dw <= 2; dw++ {
						if w+dw >= 0 {
							names = append(names, prefix+"-"+fmt.Sprintf(f, w+dw, n))
						}
					}
				}
			}
			ok0 := binNameN(s, 0)
			names = append(names, "", prefix, prefix+"-", ok0[3:], "x"+ok0, strings.ToUpper(ok0), "BIN-"+ok0[4:], ok0+"0", ok0+".json", "bin"+ok0[4:], "bin--"+ok0[4:],
				"bin-bin-"+ok0[4:], " "+ok0, ok0+"\n", ok0+"\x00", "targets", "root", "bin_"+ok0[4:])
			for _, n := range names {
				var got bool
				if x := guard(func() { got = r.IsDelegatedRole(n) }); x != "" {
					t.Fail("IsDelegatedRole(%q): %s", n, x)
				}
				t.Trans(1)
				if want := isBin(s, n); got != want {
					t.Fail("bits %d: IsDelegatedRole(%q) = %v, expected %v", bits, n, got, want)
				}
				t.Outcome(fmt.Sprint(got))
			}
			// through the verification of metadata read from bytes
			sk := &Succ{Keys: Ks("bin"), Thr: 1, Bits: bits, Prefix: prefix}
			d := MkTG("targets", 1, map[string]TF{}, &Deleg{Succ: sk}, expValid, good(Ks("tg")))
			from, err := metadata.Targets().FromBytes(d.Bytes)
			must(err)
			b := MkTG("bin", 1, map[string]TF{"t": TFof("t")}, nil, expValid, good(Ks("bin")))
			sub, err := metadata.Targets().FromBytes(b.Bytes)
			must(err)
			step := len(names)/300 + 1
			for i := 0; i < len(names); i++ {
				n := names[i]
				if !isBin(s, n) && i%step != 0 && i < len(names)-80 {
					continue
				}
				err := from.VerifyDelegate(n, sub)
				t.Trans(1)
				if want := isBin(s, n); (err == nil) != want {
					t.Fail("bits %d: VerifyDelegate(%q): %s, expected accepted=%v", bits, n, refused(err), want)
				}
			}
		})
	}
}

// c12prefixes are what bin names can start with.
var c12prefixes = []string{"bin", "a-b", "", "-", "a-", "--", "a/b", "../a", "%s", "%d%", "%20", "é", "a b", "A.json", "0", "0-0", "\n", strings.Repeat("x", 300)}

func pathN(i int) string {
	switch i % 4 {
	case 0:
		return fmt.Sprintf("file%d.txt", i)
	case 1:
		return fmt.Sprintf("dir/%d", i)
	case 2:
		return fmt.Sprintf("é %d", i)
	}
	return fmt.Sprintf("%x", i*7919)
}
