package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

func init() {
	register(&Check{ID: "C20", Run: runC20,
		Rule: "VerifyLengthHashes of target and metadata file information: 7 data x 9 lengths x every combination of {absent, right, first/last/middle bit flipped, cut, extended, empty, digest of other data, the other algorithm's digest} for SHA-256 and SHA-512 x unknown algorithm names x both map iteration orders, each also after a JSON round trip; FromBytes and FromFile for every list of algorithms up to three against all the data; Equal over all pairs of {length, per-algorithm digest} combinations in both directions; oracle: digests computed by the harness",
	})
}

// hv is one hash entry: how it is made from the data.
type hv struct {
	name string
	f    func(right, other, cross []byte) []byte // nil func: absent
	good bool
}

func flip(b []byte, i int) []byte { c := append([]byte{}, b...); c[i] ^= 1; return c }

func runC20(c *Ctx) {
	datas := []string{"", "a", "b", "hello", "hello\n", strings.Repeat("x", 4096), strings.Repeat("y", 70000)}
	hvs := []hv{
		{"absent", nil, true},
		{"right", func(r, o, x []byte) []byte { return r }, true},
		{"first bit", func(r, o, x []byte) []byte { return flip(r, 0) }, false},
		{"last bit", func(r, o, x []byte) []byte { return flip(r, len(r)-1) }, false},
		{"middle", func(r, o, x []byte) []byte { return flip(r, len(r)/2) }, false},
		{"cut", func(r, o, x []byte) []byte { return r[:len(r)-1] }, false},
		{"one byte", func(r, o, x []byte) []byte { return r[:1] }, false},
		{"extended", func(r, o, x []byte) []byte { return append(append([]byte{}, r...), 0) }, false},
		{"empty", func(r, o, x []byte) []byte { return []byte{} }, false},
		{"null", func(r, o, x []byte) []byte { return nil }, false},
		{"of other data", func(r, o, x []byte) []byte { return o }, false},
		{"of the other algorithm", func(r, o, x []byte) []byte { return x }, false},
	}
	unknown := []string{"", "md5", "SHA256", "sha1", "sha-256", "sha384", " sha256", "blake2b-256", "\x00empty"}
	orders := []uint64{0, 1}
	if !hooked {
		orders = []uint64{0, 0, 0, 0} // map order is random: repeat
	}
	for di, data := range datas {
		c.Case(func() string { return fmt.Sprintf("verify data %d (%d bytes)", di, len(data)) }, func(t *T) {
			h2, h5 := sha256.Sum256([]byte(data)), sha512.Sum512([]byte(data))
			o2, o5 := sha256.Sum256([]byte(data+"!")), sha512.Sum512([]byte(data+"!"))
			for _, a := range hvs {
				for _, b := range hvs {
					for _, u := range unknown {
						if u != "" && (a.name != "absent" && a.name != "right" || b.name != "absent" && b.name != "right") {
							continue
						}
						hs := metadata.Hashes{}
						if a.f != nil {
							hs["sha256"] = a.f(h2[:], o2[:], h5[:])
						}
						if b.f != nil {
							hs["sha512"] = b.f(h5[:], o5[:], h2[:])
						}
						bad := false
						switch {
						case u == "":
						case u == "\x00empty":
							hs[""] = h2[:]
							bad = true
						default:
							hs[u] = h2[:]
							bad = true
						}
						n := int64(len(data))
						for _, l := range []int64{n, n + 1, n - 1, 0, -1, -n, 1 << 32, math.MaxInt64, n + 1<<32} {
							okHash := a.good && b.good && !bad
							wantT := okHash && l == n
							wantM := okHash && (l == n || l == 0)
							for _, ord := range orders {
								mapOrder(hooked, ord)
								tf := &metadata.TargetFiles{Length: l, Hashes: hs, Path: "p"}
								mf := &metadata.MetaFiles{Length: l, Hashes: hs, Version: 1}
								before := dump(tf)
								buf := []byte(data)
								et, em := tf.VerifyLengthHashes(buf), mf.VerifyLengthHashes(buf)
								t.Trans(2)
								if (et == nil) != wantT {
									t.Fail("target info with length %d, sha256 %s, sha512 %s, extra %q on %d bytes: %s, expected acceptance=%v", l, a.name, b.name, u, n, refused(et), wantT)
								}
								if (em == nil) != wantM {
									t.Fail("metadata file info with length %d, sha256 %s, sha512 %s, extra %q on %d bytes: %s, expected acceptance=%v", l, a.name, b.name, u, n, refused(em), wantM)
								}
								if dump(tf) != before || string(buf) != data {
									t.Fail("checking changed its input")
								}
							}
							t.Outcome(fmt.Sprint(wantT, wantM))
							t.State(fmt.Sprint(di, l-n, a.name, b.name, u))
						}
					}
				}
			}
			// no hashes at all
			for _, hs := range []metadata.Hashes{nil, {}} {
				for _, l := range []int64{int64(len(data)), 0, int64(len(data)) + 1} {
					em := (&metadata.MetaFiles{Length: l, Hashes: hs}).VerifyLengthHashes([]byte(data))
					if want := l == 0 || l == int64(len(data)); (em == nil) != want {
						t.Fail("metadata file info with length %d and no hashes on %d bytes: %s", l, len(data), refused(em))
					}
					et := (&metadata.TargetFiles{Length: l, Hashes: hs}).VerifyLengthHashes([]byte(data))
					if want := l == int64(len(data)); (et == nil) != want {
						t.Fail("target info with length %d and no hashes on %d bytes: %s", l, len(data), refused(et))
					}
				}
			}
		})
		// generation
		c.Case(func() string { return fmt.Sprintf("generate from data %d", di) }, func(t *T) {
			dir := t.Dir()
			algs := []string{"sha256", "sha512", "md5", ""}
			lists := [][]string{nil}
			for _, a := range algs {
				lists = append(lists, []string{a})
				for _, b := range algs {
					lists = append(lists, []string{a, b})
					for _, d := range algs {
						lists = append(lists, []string{a, b, d})
					}
				}
			}
			p := filepath.Join(dir, "target")
			must(os.WriteFile(p, []byte(data), 0o644))
			for _, l := range lists {
				wantErr := false
				want := map[string]string{}
				for _, a := range l {
					switch a {
					case "sha256":
						want[a] = sha256hex([]byte(data))
					case "sha512":
						want[a] = sha512hex([]byte(data))
					default:
						wantErr = true
					}
				}
				if len(l) == 0 {
					want["sha256"] = sha256hex([]byte(data))
				}
				for _, file := range []bool{false, true} {
					var tf *metadata.TargetFiles
					var err error
					name := "some/path"
					rcv := metadata.TargetFile()
					if file {
						name = p
						tf, err = rcv.FromFile(p, l...)
					} else {
						tf, err = rcv.FromBytes(name, []byte(data), l...)
					}
					t.Trans(1)
					t.State(fmt.Sprint("gen", di, l, file))
					if (err != nil) != wantErr {
						t.Fail("generating with %q (file %v): %s, expected failure=%v", l, file, refused(err), wantErr)
					}
					if err != nil {
						continue
					}
					got := map[string]string{}
					for a, h := range tf.Hashes {
						got[a] = h.String()
					}
					if fmt.Sprint(got) != fmt.Sprint(want) || tf.Length != int64(len(data)) || tf.Path != name {
						t.Fail("generating with %q (file %v): length %d path %q hashes %v, expected %v", l, file, tf.Length, tf.Path, got, want)
					}
					variants := append([]string{}, datas...)
					if data != "" {
						variants = append(variants, data[:len(data)-1], data+"\x00", "\x00"+data, string(flip([]byte(data), 0)), string(flip([]byte(data), len(data)-1)), string(flip([]byte(data), len(data)/2)))
					} else {
						variants = append(variants, "\x00")
					}
					for _, v := range variants {
						e := tf.VerifyLengthHashes([]byte(v))
						t.Trans(1)
						if (e == nil) != (v == data) {
							t.Fail("information generated with %q from %d bytes on %d other bytes: %s", l, len(data), len(v), refused(e))
						}
					}
				}
			}
			if _, err := metadata.TargetFile().FromFile(filepath.Join(dir, "missing")); err == nil {
				t.Fail("FromFile of a missing file succeeds")
			}
		})
	}
	// Equal
	vals := []string{"", "00", "01", "0001", "empty"}
	type fi struct {
		l          int64
		a, b, d    string
		name       string
		real, twin metadata.TargetFiles
	}
	var fis []fi
	for _, l := range []int64{0, 5, 6} {
		for _, a := range vals {
			for _, b := range vals {
				for _, d := range []string{"", "00", "01"} {
					hs := metadata.Hashes{}
					for n, v := range map[string]string{"sha256": a, "sha512": b, "md5": d} {
						switch v {
						case "":
						case "empty":
							hs[n] = metadata.HexBytes{}
						case "00":
							hs[n] = metadata.HexBytes{0}
						case "01":
							hs[n] = metadata.HexBytes{1}
						case "0001":
							hs[n] = metadata.HexBytes{0, 1}
						}
					}
					fis = append(fis, fi{l: l, a: a, b: b, d: d, name: fmt.Sprintf("length %d sha256 %q sha512 %q md5 %q", l, a, b, d), real: metadata.TargetFiles{Length: l, Hashes: hs, Path: "p"}})
				}
			}
		}
	}
	for i := range fis {
		c.Case(func() string { return "Equal of " + fis[i].name }, func(t *T) {
			for j := range fis {
				x, y := &fis[i], &fis[j]
				common, agree := 0, true
				for _, p := range [][2]string{{x.a, y.a}, {x.b, y.b}, {x.d, y.d}} {
					if p[0] != "" && p[1] != "" {
						common++
						agree = agree && p[0] == p[1]
					}
				}
				want := x.l == y.l && common > 0 && agree
				other := y.real
				other.Path = "elsewhere"
				for _, ord := range orders {
					mapOrder(hooked, ord)
					if got := x.real.Equal(other); got != want {
						t.Fail("%s equal to %s: %v, expected %v", x.name, y.name, got, want)
					}
				}
				if got := x.real.Hashes.Equal(y.real.Hashes); got != (common > 0 && agree) {
					t.Fail("hashes of %s equal to those of %s: %v", x.name, y.name, got)
				}
				t.Trans(1)
				t.Outcome(fmt.Sprint("equal ", want))
			}
			t.State("eq" + fis[i].name)
		})
	}
}
