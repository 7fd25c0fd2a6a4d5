package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// spelled is the same metadata in other bytes.
func spelled(d *Doc, f func(b []byte) []byte, suffix string) *Doc {
	n := *d
	n.Name, n.Bytes = d.Name+suffix, f(append([]byte{}, d.Bytes...))
	return reg(&n)
}

type spelling struct {
	name string
	f    func(b []byte) []byte
}

// alterSpellings are ways to write down one JSON document.
func alterSpellings(thorough bool) []spelling {
	pad := func(n int) func(b []byte) []byte {
		return func(b []byte) []byte { return append(b, bytes.Repeat([]byte(" "), n)...) }
	}
	inside := func(n int) func(b []byte) []byte {
		return func(b []byte) []byte {
			return append(append([]byte("{"), bytes.Repeat([]byte(" "), n)...), b[1:]...)
		}
	}
	r := []spelling{{"indented", func(b []byte) []byte {
		var o bytes.Buffer
		must(json.Indent(&o, b, "", "\t"))
		return o.Bytes()
	}}, {"a line", func(b []byte) []byte { return append(b, '\n') }}, {"two lines", func(b []byte) []byte { return append(b, '\r', '\n', '\n') }},
		{"blanks before", func(b []byte) []byte { return append([]byte(" \t\r\n"), b...) }},
		{"escapes", func(b []byte) []byte {
			return []byte(strings.Replace(string(b), `"signed"`, `"\u0073igned"`, 1))
		}},
		{"4 KiB", pad(1 << 12)}, {"64 KiB", pad(1 << 16)}, {"64 KiB inside", inside(1 << 16)}, {"600 KiB", pad(600 << 10)}}
	if thorough {
		r = append(r, spelling{"1 MiB inside", inside(1 << 20)}, spelling{"4 MiB", pad(4 << 20)})
	}
	return r
}

// runSpellings: a repository whose files are written down in other ways, and large, is cached and used like any other.
func runSpellings(c *Ctx, unsafe bool) {
	for _, cs := range []bool{true, false} {
		for _, hashes := range []bool{true, false} {
			r := mkRepoDocs(cs, hashes)
			for _, sp := range alterSpellings(c.Thorough()) {
				for mask := 1; mask < 16; mask++ {
					if !c.Thorough() && mask != 15 && mask&(mask-1) != 0 || !c.Thorough() && cs != hashes {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("cs=%v hashes=%v files %04b written with %s", cs, hashes, mask, sp.name)
					}, func(t *T) {
						s := func(n string) []SigOpt { return good(Ks(n)) }
						w := func(i int, d *Doc) *Doc {
							if mask>>i&1 == 0 {
								return d
							}
							return spelled(d, sp.f, " "+sp.name)
						}
						tg, a := w(2, r.tg), w(3, r.a)
						sn := w(1, MkSN(2, map[string]Meta{"targets.json": metaOf(tg, hashes, hashes), "A.json": metaOf(a, hashes, hashes)}, expValid, s("sn")))
						ts := w(0, MkTS(2, metaOf(sn, hashes, hashes), expValid, s("ts")))
						world := World{}.put(cs, "timestamp", ts).put(cs, "snapshot", sn).put(cs, "targets", tg).put(cs, "A", a)
						cfg := defCfg()
						cfg.TSMax, cfg.SNMax, cfg.TGMax = 8<<20, 8<<20, 8<<20
						full := MCache{"timestamp.json": ts, "snapshot.json": sn, "targets.json": tg, "A.json": a}
						// as cached files an honest newer state must go beyond
						sn3 := MkSN(3, map[string]Meta{"targets.json": metaOf(tg, hashes, hashes), "A.json": metaOf(a, hashes, hashes)}, expValid, s("sn"))
						world3 := World{}.put(cs, "timestamp", MkTS(3, metaOf(sn3, hashes, hashes), expValid, s("ts"))).put(cs, "snapshot", sn3).put(cs, "targets", tg).put(cs, "A", a)
						// and an older one must not
						world1 := World{}.put(cs, "timestamp", r.ots).put(cs, "snapshot", r.osn).put(cs, "targets", r.otg).put(cs, "A", r.oa)
						t.State(fmt.Sprint(cs, hashes, sp.name, mask))
						if unsafe {
							cfg.Unsafe = true
							m := session(t, r.anchor, full, cfg, func(n int, p string) Reply {
								panic(failure{msg: "request in unsafe local mode: " + p})
							}, time.Time{}, []call{"refresh", "get x"})
							if m.Set.TG["targets"] != tg || m.Set.TG["A"] != a {
								t.Fail("ended with %s", m.Set)
							}
							return
						}
						for _, start := range []MCache{{}, full} {
							m := session(t, r.anchor, start, cfg, world.net, time.Time{}, []call{"refresh", "get x"})
							if m.Set.TG["targets"] != tg || m.Set.TG["A"] != a {
								t.Fail("ended with %s", m.Set)
							}
							m = session(t, r.anchor, m.Cache, cfg, world.net, time.Time{}, []call{"refresh", "get x"})
							if m.Set.TG["targets"] != tg || m.Set.TG["A"] != a {
								t.Fail("ended with %s", m.Set)
							}
							session(t, r.anchor, m.Cache, cfg, world1.net, time.Time{}, []call{"refresh", "get x"})
							session(t, r.anchor, m.Cache, cfg, world3.net, time.Time{}, []call{"refresh", "get x"})
						}
					})
				}
			}
		}
	}
}
