package main

import (
	"errors"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
)

func init() {
	register(&Check{ID: "C30", Run: runC30,
		Rule: "every refusal met in a breadth-first search of the trusted set (the documents of C06) and in client sessions and downloads, each tested with errors.Is and errors.As against all error classes, bare, wrapped one to three times and joined with others; all pairs of error classes with several messages against the class tree; every HTTP status 200..599; expected classes from the model's verdict",
	})
}

type eclass struct {
	name   string
	zero   error
	mk     func(msg string) error
	as     func(err error) bool
	parent []string
}

var eclasses = []eclass{
	{"Repository", metadata.ErrRepository{}, func(m string) error { return metadata.ErrRepository{Msg: m} }, func(e error) bool { var x metadata.ErrRepository; return errors.As(e, &x) }, nil},
	{"Unsigned", metadata.ErrUnsignedMetadata{}, func(m string) error { return metadata.ErrUnsignedMetadata{Msg: m} }, func(e error) bool { var x metadata.ErrUnsignedMetadata; return errors.As(e, &x) }, []string{"Repository"}},
	{"BadVersion", metadata.ErrBadVersionNumber{}, func(m string) error { return metadata.ErrBadVersionNumber{Msg: m} }, func(e error) bool { var x metadata.ErrBadVersionNumber; return errors.As(e, &x) }, []string{"Repository"}},
	{"EqualVersion", metadata.ErrEqualVersionNumber{}, func(m string) error { return metadata.ErrEqualVersionNumber{Msg: m} }, func(e error) bool { var x metadata.ErrEqualVersionNumber; return errors.As(e, &x) }, []string{"BadVersion", "Repository"}},
	{"Expired", metadata.ErrExpiredMetadata{}, func(m string) error { return metadata.ErrExpiredMetadata{Msg: m} }, func(e error) bool { var x metadata.ErrExpiredMetadata; return errors.As(e, &x) }, []string{"Repository"}},
	{"Mismatch", metadata.ErrLengthOrHashMismatch{}, func(m string) error { return metadata.ErrLengthOrHashMismatch{Msg: m} }, func(e error) bool { var x metadata.ErrLengthOrHashMismatch; return errors.As(e, &x) }, []string{"Repository"}},
	{"Download", metadata.ErrDownload{}, func(m string) error { return metadata.ErrDownload{Msg: m} }, func(e error) bool { var x metadata.ErrDownload; return errors.As(e, &x) }, nil},
	{"DownloadLength", metadata.ErrDownloadLengthMismatch{}, func(m string) error { return metadata.ErrDownloadLengthMismatch{Msg: m} }, func(e error) bool { var x metadata.ErrDownloadLengthMismatch; return errors.As(e, &x) }, []string{"Download"}},
	{"DownloadHTTP", metadata.ErrDownloadHTTP{}, func(m string) error { return metadata.ErrDownloadHTTP{StatusCode: 404 + len(m), URL: m} }, func(e error) bool { var x metadata.ErrDownloadHTTP; return errors.As(e, &x) }, []string{"Download"}},
	{"Value", metadata.ErrValue{}, func(m string) error { return metadata.ErrValue{Msg: m} }, func(e error) bool { var x metadata.ErrValue; return errors.As(e, &x) }, nil},
	{"Type", metadata.ErrType{}, func(m string) error { return metadata.ErrType{Msg: m} }, func(e error) bool { var x metadata.ErrType; return errors.As(e, &x) }, nil},
	{"Runtime", metadata.ErrRuntime{}, func(m string) error { return metadata.ErrRuntime{Msg: m} }, func(e error) bool { var x metadata.ErrRuntime; return errors.As(e, &x) }, nil},
}

func eclassOf(n string) eclass {
	for _, e := range eclasses {
		if e.name == n {
			return e
		}
	}
	panic(harnessError{n})
}

// isAll checks errors.Is of err against every class: exactly the specific class and its parents.
func isAll(t *T, what string, err error, specific string) {
	want := map[string]bool{}
	if specific != "" {
		want[specific] = true
		for _, p := range eclassOf(specific).parent {
			want[p] = true
		}
	}
	other := errors.New("something else")
	forms := []struct {
		name string
		e    error
	}{
		{"bare", err},
		{"wrapped", fmt.Errorf("a: %w", err)},
		{"wrapped twice", fmt.Errorf("b: %w", fmt.Errorf("a: %w", err))},
		{"wrapped three times", fmt.Errorf("c: %w", fmt.Errorf("b: %w", fmt.Errorf("a: %w", err)))},
		{"joined", errors.Join(other, err)},
		{"wrapped with another", fmt.Errorf("%w and %w", other, err)},
	}
	for _, f := range forms {
		for _, cl := range eclasses {
			got := errors.Is(f.e, cl.zero)
			t.Trans(1)
			if cl.name == specific && (specific == "Value" || specific == "Type" || specific == "Runtime") {
				continue // no class of its own for errors.Is is promised here
			}
			if got != want[cl.name] {
				t.Fail("%s: %q (%s): recognised as %s error: %v, expected %v", what, err.Error(), f.name, cl.name, got, want[cl.name])
			}
		}
		if specific != "" && !eclassOf(specific).as(f.e) {
			t.Fail("%s: %q (%s) is no Err%s for errors.As", what, err.Error(), f.name, specific)
		}
	}
	t.Outcome(specific)
}

func classFor(v V) (string, bool) {
	switch v {
	case vUnsigned:
		return "Unsigned", true
	case vVersion:
		return "BadVersion", true
	case vEqual:
		return "EqualVersion", true
	case vExpired:
		return "Expired", true
	case vMismatch:
		return "Mismatch", true
	case vMissing:
		return "Repository", true
	}
	return "", false
}

func runC30(c *Ctx) {
	// the class tree
	for i := range eclasses {
		c.Case(func() string { return "class " + eclasses[i].name }, func(t *T) {
			for _, m := range []string{"", "x", "a longer message", "repository error"} {
				e := eclasses[i].mk(m)
				t.State(fmt.Sprint(i, m))
				isAll(t, "class", e, eclasses[i].name)
				if !strings.Contains(e.Error(), m) {
					t.Fail("Err%s loses its message %q: %q", eclasses[i].name, m, e.Error())
				}
			}
		})
	}
	step := func(t *T, m0, m1 *MSet, o op, v V, err error) {
		if v == ok || err == nil {
			return
		}
		what := fmt.Sprintf("in state {%s} %s", m0, o)
		if v == vOrder {
			for _, n := range []string{"Repository", "Download"} {
				if errors.Is(err, eclassOf(n).zero) || errors.Is(fmt.Errorf("w: %w", err), eclassOf(n).zero) {
					t.Fail("%s: a call out of order is reported as a %s error: %v", what, n, err)
				}
			}
			t.Outcome("order")
			return
		}
		if cl, strict := classFor(v); strict {
			if strings.HasPrefix(o.call, "snapshot") && m0.SN != nil && (v == vMissing || v == vVersion) {
				drops, lowers := false, false
				for n, i := range m0.SN.Meta {
					j, found := o.doc.Meta[n]
					drops = drops || !found
					lowers = lowers || found && j.Ver < i.Ver
				}
				if drops && lowers { // two reasons, either may be named
					if !errors.Is(err, metadata.ErrRepository{}) {
						t.Fail("%s: no repository error: %v", what, err)
					}
					return
				}
			}
			isAll(t, what, err, cl)
		}
	}
	for _, mixed := range []bool{false, true} {
		root, ops := c06universe(mixed)
		ops = append(ops, c30extra()...)
		for i := range ops {
			c.Case(func() string { return fmt.Sprintf("expired anchor %v, sequences starting with %s", mixed, ops[i]) }, func(t *T) {
				first := true
				explore(t, root, time.Time{}, func(m *MSet) []op {
					if first {
						first = false
						return ops[i : i+1]
					}
					return ops
				}, exploreOpt{depth: Pick(c, 5, 9), dedupe: true, step: step})
			})
		}
	}
	// anchors, equal and older roots, thresholds
	c.Case(func() string { return "trust anchors" }, func(t *T) {
		for thr := 1; thr <= 3; thr++ {
			for n := 0; n <= 3; n++ {
				d := MkRoot(RootOpt{Ver: 1, Roles: map[string]RoleSpec{"root": {Ks("a b c"), thr}, "timestamp": {Ks("ts"), 1}, "snapshot": {Ks("sn"), 1}, "targets": {Ks("tg"), 1}}, Sigs: append([]SigOpt{}, good(Ks("a b c")[:n])...)})
				_, err := trustedmetadata.New(d.Bytes)
				t.State(d.Name)
				if n < thr {
					if err == nil {
						t.Fail("anchor %s accepted", d)
					}
					isAll(t, "anchor "+d.Name, err, "Unsigned")
				}
			}
		}
	})
	c30roots(c, step)
	c30targets(c)
	c30sessions(c)
	c30fetch(c)
}

func c30extra() []op {
	s := func(n string) []SigOpt { return good(Ks(n)) }
	// length and hash mismatches, and a snapshot that drops a role
	sn1 := MkSN(1, map[string]Meta{"targets.json": {Ver: 1, Len: 7}, "A.json": {Ver: 1, Hash: sha256hex([]byte("z"))}}, expValid, s("sn"))
	tsL := MkTS(1, Meta{Ver: 1, Len: 9}, expValid, s("ts"))
	tsH := MkTS(1, Meta{Ver: 1, Hash: sha256hex([]byte("y"))}, expValid, s("ts"))
	drop := MkSN(2, map[string]Meta{"targets.json": {Ver: 2}}, expValid, s("sn"))
	return []op{{call: "timestamp", doc: tsL}, {call: "timestamp", doc: tsH}, {call: "snapshot", doc: sn1}, {call: "snapshot-trusted", doc: sn1}, {call: "snapshot", doc: drop}}
}

func c30roots(c *Ctx, step func(t *T, m0, m1 *MSet, o op, v V, err error)) {
	root := MkRoot(RootOpt{Ver: 5, Roles: stdRoles(Ks("a"), 1)})
	var ops []op
	for _, v := range []int64{1, 4, 5, 6, 7} {
		for _, sg := range [][]SigOpt{good(Ks("a")), good(Ks("b")), good(Ks("a b")), {}} {
			for _, ks := range []string{"a", "b", "a b"} {
				ops = append(ops, op{call: "root", doc: MkRoot(RootOpt{Ver: v, Roles: stdRoles(Ks(ks), len(strings.Fields(ks))), Sigs: sg})})
			}
		}
	}
	c.Case(func() string { return "root updates" }, func(t *T) {
		explore(t, root, time.Time{}, func(m *MSet) []op { return ops }, exploreOpt{depth: 3, dedupe: true, step: step})
	})
}

// c30targets: what target files and metadata entries answer.
func c30targets(c *Ctx) {
	c.Case(func() string { return "length and hash verification" }, func(t *T) {
		data := []byte("hello")
		for _, alg := range []string{"sha256", "sha512"} {
			tf, err := metadata.TargetFile().FromBytes("x", data, alg)
			if err != nil {
				t.Fail("%v", err)
			}
			for _, bad := range [][]byte{nil, []byte("hell"), []byte("hello!"), []byte("hellO")} {
				err := tf.VerifyLengthHashes(bad)
				if err == nil {
					t.Fail("wrong data verifies")
				}
				isAll(t, "target file", err, "Mismatch")
				mf := metadata.MetaFile(1)
				mf.Hashes = tf.Hashes
				isAll(t, "meta file hashes", mf.VerifyLengthHashes(bad), "Mismatch")
				if len(bad) != len(data) {
					mf := metadata.MetaFile(1)
					mf.Length = int64(len(data))
					isAll(t, "meta file length", mf.VerifyLengthHashes(bad), "Mismatch")
				}
				t.State(alg + string(bad))
			}
		}
		// delegators report missing signatures as such
		for _, n := range []int{0, 1} {
			for _, typ := range []string{"ed25519", "ecdsa", "rsa"} {
				r := metadata.Root(time.Now().UTC().Add(time.Hour))
				r.Signed.AddKey(PKey(typ, 0).key(), "root")
				if n == 1 {
					_, _ = r.Sign(PKey(typ, 1).signer())
				}
				isAll(t, "VerifyDelegate", r.VerifyDelegate("root", r), "Unsigned")
			}
		}
	})
}

// c30sessions: the same through the client.
func c30sessions(c *Ctx) {
	anchor := MkRoot(RootOpt{Ver: 1, Roles: stdRoles(Ks("a"), 1)})
	dl := &Deleg{Roles: []DRole{{Name: "A", Keys: Ks("A"), Thr: 1, Paths: []string{"*"}}}}
	s := func(n string) []SigOpt { return good(Ks(n)) }
	tg := MkTG("targets", 1, map[string]TF{"own": TFof("own")}, dl, expValid, s("tg"))
	ag := MkTG("A", 1, map[string]TF{"a": TFof("a")}, nil, expValid, s("A"))
	sn := MkSN(1, map[string]Meta{"targets.json": {Ver: 1}, "A.json": {Ver: 1}}, expValid, s("sn"))
	ts := MkTS(1, Meta{Ver: 1}, expValid, s("ts"))
	cur := map[string]*Doc{"timestamp.json": ts, "snapshot.json": sn, "targets.json": tg, "A.json": ag}
	type bad struct {
		file string
		doc  *Doc
		cls  string
		what string
	}
	var bads []bad
	add := func(file, what, cls string, d *Doc) { bads = append(bads, bad{file, d, cls, what}) }
	add("timestamp.json", "unsigned", "Unsigned", MkTS(1, Meta{Ver: 1}, expValid, s("sn")))
	add("timestamp.json", "expired", "Expired", MkTS(1, Meta{Ver: 1}, expExpired, s("ts")))
	add("snapshot.json", "unsigned", "Unsigned", MkSN(1, sn.Meta, expValid, s("ts")))
	add("snapshot.json", "expired", "Expired", MkSN(1, sn.Meta, expExpired, s("sn")))
	add("snapshot.json", "other version", "BadVersion", MkSN(2, sn.Meta, expValid, s("sn")))
	add("targets.json", "unsigned", "Unsigned", MkTG("t", 1, nil, dl, expValid, s("sn")))
	add("targets.json", "expired", "Expired", MkTG("t", 1, nil, dl, expExpired, s("tg")))
	add("targets.json", "other version", "BadVersion", MkTG("t", 2, nil, dl, expValid, s("tg")))
	add("A.json", "unsigned", "Unsigned", MkTG("A", 1, nil, nil, expValid, s("sn")))
	add("A.json", "expired", "Expired", MkTG("A", 1, nil, nil, expExpired, s("A")))
	add("A.json", "other version", "BadVersion", MkTG("A", 2, nil, nil, expValid, s("A")))
	run := func(t *T, what string, world map[string]Reply, cls string, file string) {
		{
			dir := t.Dir()
			r, err := newRClient(anchor, dir, defCfg(), func(n int, path string) Reply {
				p := strings.TrimPrefix(path, "/")
				if x, found := world[p]; found {
					return x
				}
				return Reply{Err: "404"}
			})
			if err != nil {
				t.Fail("%v", err)
			}
			err = r.Up.Refresh()
			if err == nil && file != "A.json" {
				t.Fail("%s: refresh succeeds", what)
			}
			if file == "A.json" {
				if err != nil {
					t.Fail("%s: refresh: %v", what, err)
				}
				_, err = r.Up.GetTargetInfo("a")
				if err == nil {
					t.Fail("%s: lookup succeeds", what)
				}
			}
			t.State(what)
			isAll(t, what, err, cls)
		}
	}
	base := func() map[string]Reply {
		w := map[string]Reply{}
		for n, d := range cur {
			w[n] = Reply{Doc: d}
		}
		return w
	}
	for _, b := range bads {
		c.Case(func() string { return "session: " + b.file + " " + b.what }, func(t *T) {
			w := base()
			w[b.file] = Reply{Doc: b.doc}
			run(t, b.file+" "+b.what, w, b.cls, b.file)
		})
	}
	for _, file := range sortedKeys(cur) {
		for _, e := range []string{"404", "403", "500", "410", "toolong"} {
			c.Case(func() string { return "session: " + file + " " + e }, func(t *T) {
				w := base()
				w[file] = Reply{Err: e}
				cls := "DownloadHTTP"
				if e == "toolong" {
					cls = "DownloadLength"
				}
				run(t, file+" answered "+e, w, cls, file)
			})
		}
	}
	// a download
	for _, body := range []string{"404", "503", "wrong", "short"} {
		c.Case(func() string { return "download: " + body }, func(t *T) {
			w := base()
			cls := "Mismatch"
			rep := Reply{Doc: Junk("xwn", []byte("xwn"))}
			switch body {
			case "404", "503":
				rep, cls = Reply{Err: body}, "DownloadHTTP"
			case "short":
				rep = Reply{Doc: Junk("ow", []byte("ow"))}
			}
			dir := t.Dir()
			r, err := newRClient(anchor, dir, defCfg(), func(n int, path string) Reply {
				p := strings.TrimPrefix(path, "/")
				if x, found := w[p]; found {
					return x
				}
				if strings.HasSuffix(p, "own") {
					return rep
				}
				return Reply{Err: "404"}
			})
			must(err)
			if err := r.Up.Refresh(); err != nil {
				t.Fail("%v", err)
			}
			ti, err := r.Up.GetTargetInfo("own")
			if err != nil {
				t.Fail("%v", err)
			}
			_, _, err = r.Up.DownloadTarget(ti, "", "")
			if err == nil {
				t.Fail("download succeeds")
			}
			t.State(body)
			isAll(t, "download "+body, err, cls)
		})
	}
	// a call out of order
	c.Case(func() string { return "refreshing twice" }, func(t *T) {
		dir := t.Dir()
		w := base()
		r, err := newRClient(anchor, dir, defCfg(), func(n int, path string) Reply {
			if x, found := w[strings.TrimPrefix(path, "/")]; found {
				return x
			}
			return Reply{Err: "404"}
		})
		must(err)
		var u *updater.Updater = r.Up
		if err := u.Refresh(); err != nil {
			t.Fail("%v", err)
		}
		t.State("twice")
		if err := u.Refresh(); err == nil {
			t.Fail("a second refresh succeeds")
		} else {
			for _, n := range []string{"Repository", "Download"} {
				if errors.Is(err, eclassOf(n).zero) {
					t.Fail("a second refresh is reported as a %s error: %v", n, err)
				}
			}
		}
	})
}

// c30fetch: the default fetcher's errors carry their class and status.
func c30fetch(c *Ctx) {
	h := newHTTP(c)
	for hundred := 2; hundred <= 5; hundred++ {
		c.Case(func() string { return fmt.Sprintf("default fetcher, statuses %dxx", hundred) }, func(t *T) {
			f := &fetcher.DefaultFetcher{}
			for s := hundred * 100; s < hundred*100+100; s++ {
				if s == 200 {
					continue
				}
				h.set(func(path string) (int, []byte) { return s, []byte("body") })
				_, err := f.DownloadFile(h.url+"/x", 100, 5*time.Second)
				t.State(fmt.Sprint(s))
				if err == nil {
					t.Fail("status %d is a success", s)
				}
				isAll(t, fmt.Sprintf("status %d", s), err, "DownloadHTTP")
				var he metadata.ErrDownloadHTTP
				if !errors.As(fmt.Errorf("w: %w", err), &he) || he.StatusCode != s || he.URL != h.url+"/x" {
					t.Fail("status %d is reported as %d for %q", s, he.StatusCode, he.URL)
				}
			}
		})
	}
	c.Case(func() string { return "default fetcher, too long" }, func(t *T) {
		h.set(func(path string) (int, []byte) { return http.StatusOK, []byte("0123456789") })
		f := &fetcher.DefaultFetcher{}
		for limit := int64(0); limit < 10; limit++ {
			_, err := f.DownloadFile(h.url+"/x", limit, 5*time.Second)
			t.State(fmt.Sprint("limit", limit))
			if err == nil {
				t.Fail("10 bytes pass a limit of %d", limit)
			}
			isAll(t, "too long", err, "DownloadLength")
		}
	})
}
