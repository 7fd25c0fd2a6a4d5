package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

// urlFetcher serves a repository below any base URL and records the URLs.
type urlFetcher struct {
	base string
	w    World
	urls []string
}

func (f *urlFetcher) DownloadFile(u string, maxLength int64, timeout time.Duration) ([]byte, error) {
	f.urls = append(f.urls, u)
	if d := f.w[strings.TrimPrefix(u, f.base)]; d != nil && strings.HasPrefix(u, f.base) {
		return append([]byte{}, d.Bytes...), nil
	}
	return nil, netErr("404", u)
}

// runC22Bases: requests go below the configured location, however it is written, and to nothing else.
func runC22Bases(c *Ctx, cs bool) {
	s := func(n string) []SigOpt { return good(Ks(n)) }
	names := []string{"A", "r/1 +", "é", "a%2Fb", "a&b=c", "#", "?", "1.root"}
	var roles []DRole
	meta := map[string]Meta{}
	w := World{}
	for i, n := range names {
		roles = append(roles, DRole{Name: n, Keys: Ks("A"), Thr: 1, Paths: []string{"*"}})
		d := MkTG(n, int64(11+i), map[string]TF{fmt.Sprint("x", i): TFof("x")}, nil, expValid, s("A"))
		w.put(cs, escaped(n), d)
		meta[n+".json"] = Meta{Ver: int64(11 + i)}
	}
	tg := MkTG("targets", 7, nil, &Deleg{Roles: roles}, expValid, s("tg"))
	meta["targets.json"] = Meta{Ver: 7}
	w.put(cs, "targets", tg).put(cs, "snapshot", MkSN(6, meta, expValid, s("sn"))).put(cs, "timestamp", MkTS(5, Meta{Ver: 6}, expValid, s("ts")))
	r1 := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1), CS: cs})
	w["2.root.json"] = MkRoot(RootOpt{Ver: 2, Roles: stdRoles(Ks("a"), 1), CS: cs, Sigs: good(Ks("a"))})
	for _, base := range []string{"https://h", "https://h/", "https://h:8443/a", "https://h/a/", "https://h/a//", "https://h//a", "https://h/a%20b", "https://h/a%2Fb/", "https://u:p@h/é/", "http://h/x?token=1", "file:///srv/md", "h", "/md/", "https://h/metadata.json", "https://h/a/../b", "https://h/%"} {
		for _, caching := range []bool{true, false} {
			c.Case(func() string { return fmt.Sprintf("location %s, cs=%v, caching=%v", base, cs, caching) }, func(t *T) {
				cfg := defCfg()
				cfg.NoCache = !caching
				rc := cfg.real(r1.Bytes, t.Dir(), nil)
				f := &urlFetcher{base: base, w: w}
				if !strings.HasSuffix(base, "/") {
					f.base += "/"
				}
				rc.Fetcher, rc.RemoteMetadataURL = f, base
				up, err := updater.New(rc)
				must(err)
				want := []string{"2.root.json", "3.root.json", "timestamp.json"}
				v := func(n string, ver int) string {
					if n = escaped(n) + ".json"; cs {
						n = fmt.Sprint(ver, ".", n)
					}
					return n
				}
				check := func() {
					t.Trans(1)
					if strings.Join(f.urls, " ") != f.base+strings.Join(want, " "+f.base) {
						t.Fail("requests %q, expected %q below %s", f.urls, want, f.base)
					}
				}
				if err := up.Refresh(); err != nil {
					t.Log("Refresh: %v", err)
				}
				want = append(want, v("snapshot", 6), v("targets", 7))
				check()
				for i, n := range names {
					_, err := up.GetTargetInfo(fmt.Sprint("x", i))
					want = append(want, v(n, 11+i))
					check()
					if err != nil {
						t.Fail("lookup in role %q: %v", n, err)
					}
				}
				t.State(fmt.Sprint(base, cs, caching))
			})
		}
	}
}
