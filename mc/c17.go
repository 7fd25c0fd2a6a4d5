package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

func init() {
	register(&Check{ID: "C17", Run: runC17, QuickSec: 200,
		Rule:        "11 base documents covering every role, delegation form and optional field; every object of each document x 40 unknown field names (including the known names of every other object) x 36 JSON values (quick: 5 values for all but one of the names); every optional field absent, present, empty and null in all combinations; pairs of unknown fields at different places (thorough: all pairs of places); each read from bytes and file, written compact and indented to bytes and over an existing longer file, read again, three times over; oracle: JSON value equality with exact numbers, harness signatures and harness canonical form; whole and fractional numbers at every boundary of exact representation",
		Assumptions: []string{"times without fractions in Z form, lower-case hexadecimal, valid UTF-8, no duplicate member names; numbers that canonical JSON cannot express are checked for preservation only"}})
}

var unkValues = []any{nil, true, false, json.Number("0"), json.Number("-1"), json.Number("9007199254740991"), json.Number("9007199254740992"), json.Number("9007199254740993"), json.Number("-9007199254740993"),
	json.Number("9223372036854775807"), json.Number("-9223372036854775808"), json.Number("123456789012345678"), json.Number("18446744073709551617"), json.Number("1.5"), json.Number("-0.25"),
	json.Number("1152921504606846976"), json.Number("-4611686018427387904"), json.Number("9223372036854774784"), json.Number("18014398509481984"), json.Number("36893488147419103232"), json.Number("1e3"), json.Number("1.0"), json.Number("1E-7"), json.Number("123456789.12345678901"), json.Number("0.1"), json.Number("100000000000000000000000"),
	"", "text", "<>&\u2028\u00e9\\\"/\n\u0000\U0001F600", "a\\u003cb\\\\u0026 \\n\\t\\\\", []any{}, []any{nil}, []any{json.Number("9007199254740993"), []any{J{}}, "x"}, J{}, J{"a": nil}, J{"a": J{"b": []any{json.Number("9007199254740993"), true}}, "": ""}, J{"keyid": "x", "version": json.Number("1")}}

// every member name the formats know
var knownNames = []string{"signed", "signatures", "keyid", "sig", "_type", "spec_version", "consistent_snapshot", "version", "expires", "keys", "roles", "keytype", "scheme", "keyval", "public", "keyids", "threshold",
	"meta", "length", "hashes", "targets", "custom", "delegations", "succinct_roles", "name", "terminating", "paths", "path_hash_prefixes", "bit_length", "name_prefix"}

// knownAt gives the names that have a meaning in the object at p (nil: the object is a map or has no unknown fields).
func knownAt(kind string, p []any) []string {
	str := func(i int) string { s, _ := p[i].(string); return s }
	if len(p) == 0 {
		return []string{"signed", "signatures"}
	}
	if str(0) == "signatures" {
		if len(p) == 2 {
			return []string{"keyid", "sig"}
		}
		return nil
	}
	if len(p) == 1 {
		base := []string{"_type", "spec_version", "version", "expires"}
		switch kind {
		case "root":
			return append(base, "consistent_snapshot", "keys", "roles")
		case "targets":
			return append(base, "targets", "delegations")
		}
		return append(base, "meta")
	}
	key := func(q []any) []string {
		if len(q) == 1 {
			return []string{"keytype", "scheme", "keyval"}
		}
		if len(q) == 2 && q[1] == "keyval" {
			return []string{"public"}
		}
		return nil
	}
	switch str(1) {
	case "keys":
		if len(p) > 2 {
			return key(p[2:])
		}
	case "roles":
		if len(p) == 3 {
			return []string{"keyids", "threshold"}
		}
	case "meta":
		if len(p) == 3 {
			return []string{"version", "length", "hashes"}
		}
	case "targets":
		if len(p) == 3 {
			return []string{"length", "hashes", "custom"}
		}
	case "delegations":
		if len(p) == 2 {
			return []string{"keys", "roles", "succinct_roles"}
		}
		switch str(2) {
		case "keys":
			if len(p) > 3 {
				return key(p[3:])
			}
		case "roles":
			if len(p) == 4 {
				return []string{"name", "keyids", "threshold", "terminating", "paths", "path_hash_prefixes"}
			}
		case "succinct_roles":
			if len(p) == 3 {
				return []string{"keyids", "threshold", "bit_length", "name_prefix"}
			}
		}
	}
	return nil
}

// openObjects lists the objects of a document that may have unknown fields.
func openObjects(kind string, doc any) [][]any {
	var r [][]any
	for _, p := range nodePaths(doc, nil) {
		if _, is := getNode(doc, p).(map[string]any); is && knownAt(kind, p) != nil {
			r = append(r, p)
		}
	}
	return r
}

// lib17root verifies documents of every role signed by key a.
func lib17root() *MRoot {
	d := MkRoot(RootOpt{Ver: 1, Roles: map[string]RoleSpec{"root": {Ks("a"), 1}, "timestamp": {Ks("a"), 1}, "snapshot": {Ks("a"), 1}, "targets": {Ks("a"), 1}}})
	r, err := metadata.Root().FromBytes(d.Bytes)
	must(err)
	return r
}

// roundTrip checks one document. key names the known finding it may belong to.
func roundTrip(t *T, root *MRoot, dir, kind, what string, doc J, full bool) {
	in := plainJSON(doc)
	inV := parseJSON(in)
	payload, can := canonOK(doc["signed"])
	t.State(what)
	first, err := libLoad(kind, in)
	t.Trans(1)
	if err != nil {
		t.Fail("%s: a well-formed document is refused: %v\n%s", what, err, in)
	}
	check := func(how string, d libDoc) {
		if can {
			// the library's canonical signed bytes
			c, err := libLoad(kind, mustBytes(t, what+how, d))
			if err != nil {
				t.Fail("%s %s: what was written is refused: %v", what, how, err)
			}
			p, err := payloadOf(c)
			if err != nil || !bytes.Equal(p, payload) {
				t.Fail("%s %s: the signed bytes differ (%v):\n have %s\n want %s", what, how, err, p, payload)
			}
			if err := root.VerifyDelegate(kind, d); err != nil {
				t.Fail("%s %s: the signature no longer verifies: %v", what, how, err)
			}
		}
	}
	same := func(how string, b []byte) libDoc {
		v, err := readJSON(b)
		if err != nil {
			t.Fail("%s %s: no JSON is written: %v", what, how, err)
		}
		if d := diffJSON(inV, v, ""); d != "" {
			t.Fail("%s %s: the value changed: %s", what, how, d)
		}
		again, err := libLoad(kind, b)
		if err != nil {
			t.Fail("%s %s: what was written is refused: %v", what, how, err)
		}
		if !reflect.DeepEqual(normal(first), normal(again)) {
			t.Fail("%s %s: reading again gives another object:\n %s\n %s", what, how, dump(first), dump(again))
		}
		t.Trans(2)
		return again
	}
	check("as read", first)
	d := first
	for i := 0; i < 3; i++ {
		d = same(fmt.Sprintf("compact %d", i), mustBytes(t, what, d))
	}
	check("after three times", d)
	b, err := first.ToBytes(true)
	if err != nil {
		t.Fail("%s: indented: %v", what, err)
	}
	d = same("indented", b)
	check("indented", d)
	if !full {
		return
	}
	name := filepath.Join(dir, "doc.json")
	for _, pretty := range []bool{false, true} {
		must(os.WriteFile(name, bytes.Repeat([]byte("}"), len(in)*3), 0o644)) // an older, longer file
		if err := d.ToFile(name, pretty); err != nil {
			t.Fail("%s: writing a file: %v", what, err)
		}
		fb, err := os.ReadFile(name)
		must(err)
		same("file", fb)
		d, err = libFile(kind, name)
		if err != nil {
			t.Fail("%s: reading a file: %v", what, err)
		}
		if !reflect.DeepEqual(normal(first), normal(d)) {
			t.Fail("%s: reading the file gives another object", what)
		}
		check("through a file", d)
	}
}

// normal brings the spelling of custom fields, which is kept as read, to one form.
func normal(d libDoc) libDoc {
	if m, is := d.(*MTG); is {
		for _, tf := range m.Signed.Targets {
			if tf.Custom != nil {
				c := json.RawMessage(plainJSON(parseJSON(*tf.Custom)))
				tf.Custom = &c
			}
		}
	}
	return d
}

func mustBytes(t *T, what string, d libDoc) []byte {
	b, err := d.ToBytes(false)
	if err != nil {
		t.Fail("%s: writing: %v", what, err)
	}
	return b
}

func runC17(c *Ctx) {
	root := lib17root()
	docs := fullDocs()
	names := append([]string{"", "x-unknown", "x.json", "\\u003cx\\n", "__proto__", "é<>&\"\\", "signature", "Path", "unrecognized_fields", "UnrecognizedFields", "Type", "method", "keyid_hash_algorithms", "certificate", "private", "comment", "x", "path", "scheme", "sigs", "other_headers", "spec-version", "signatures-old", "a/b"}, knownNames...)
	withA := func(signed any) J { return signedBy(signed, K("a")) }
	for di := range docs {
		d := docs[di]
		c.Case(func() string { return "plain " + d.name }, func(t *T) {
			roundTrip(t, root, t.Dir(), d.kind, d.name, withA(cloneJ(d.signed)), true)
			// several and no signatures
			roundTrip(t, root, t.Dir(), d.kind, d.name+" with three signatures", signedBy(cloneJ(d.signed), K("b"), K("a"), K("c")), true)
		})
		objs := openObjects(d.kind, withA(d.signed))
		for oi := range objs {
			p := objs[oi]
			known := map[string]bool{}
			for _, k := range knownAt(d.kind, p) {
				known[k] = true
			}
			for ni := range names {
				n := names[ni]
				if known[n] {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s: unknown field %q at %s", d.name, n, pathStr(p)) }, func(t *T) {
					dir := t.Dir()
					for vi, v := range unkValues {
						if !c.Thorough() && n != "x-unknown" && vi != 0 && vi != 7 && vi != 28 && vi != 29 && vi != 34 && vi != 3 {
							continue
						}
						tree := J{"signed": cloneJ(d.signed), "signatures": []any{J{"keyid": "x", "sig": "00"}}}
						if len(p) > 0 && p[0] == "signed" {
							getNode(tree, p).(map[string]any)[n] = cloneJ(v)
							tree = withA(tree["signed"])
						} else {
							tree = withA(tree["signed"])
							getNode(tree, p).(map[string]any)[n] = cloneJ(v)
						}
						roundTrip(t, root, dir, d.kind, fmt.Sprintf("%s with %q=%s at %s", d.name, n, plainJSON(v), pathStr(p)), tree, vi == 0 || c.Thorough())
					}
				})
			}
		}
		// two unknown fields at different places
		for oi := range objs {
			c.Case(func() string { return fmt.Sprintf("%s: two unknown fields, one at %s", d.name, pathStr(objs[oi])) }, func(t *T) {
				dir := t.Dir()
				vals := []any{nil, json.Number("9007199254740993"), J{"a": []any{}}}
				if c.Thorough() {
					vals = unkValues
				}
				for oj := range objs {
					for _, v := range vals {
						for _, w := range vals {
							tree := J{"signed": cloneJ(d.signed), "signatures": []any{J{"keyid": "x", "sig": "00"}}}
							for pass := 0; pass < 2; pass++ {
								for k, q := range [][]any{objs[oi], objs[oj]} {
									if (len(q) > 0 && q[0] == "signed") == (pass == 0) {
										getNode(tree, q).(map[string]any)[fmt.Sprintf("x%d", k)] = cloneJ([]any{v, w}[k])
									}
								}
								if pass == 0 {
									tree = withA(tree["signed"])
								}
							}
							roundTrip(t, root, dir, d.kind, fmt.Sprintf("%s with %s at %s and %s at %s", d.name, plainJSON(v), pathStr(objs[oi]), plainJSON(w), pathStr(objs[oj])), tree, false)
						}
					}
				}
			})
		}
	}
	c17optional(c, root)
	c17many(c, root)
	c17api(c, root)
}

// filler is the i-th extra element or member of the collection, or open object, v at p (false: it takes none).
func filler(kind string, p []any, v any, i int) (name string, e any, takes bool) {
	last := ""
	if len(p) > 0 {
		last, _ = p[len(p)-1].(string)
	}
	hex := sha256hex([]byte(fmt.Sprint("filler ", i)))
	switch x := v.(type) {
	case []any:
		switch last {
		case "keyids":
			return "", hex, true
		case "paths":
			return "", fmt.Sprintf("d%d/*", i), true
		case "path_hash_prefixes":
			return "", hex[:2+i%8], true
		case "signatures":
			return "", J{"keyid": hex, "sig": hex}, true
		case "roles":
			return "", J{"name": fmt.Sprintf("more %d", i), "keyids": []any{K("a").ID}, "threshold": json.Number("1"), "terminating": i%2 == 0, "paths": []any{"*"}}, true
		}
	case map[string]any:
		if knownAt(kind, p) != nil {
			return fmt.Sprintf("u%d", (i*7919)%10007), []any{json.Number(fmt.Sprint(i)), "v", J{"w": nil}}[i%3], true
		}
		switch last {
		case "keys":
			return hex, J{"keytype": "ed25519", "scheme": "ed25519", "keyval": J{"public": hex}}, true
		case "meta":
			return fmt.Sprintf("r%d.json", i), J{"version": json.Number(fmt.Sprint(i + 1))}, true
		case "targets":
			return fmt.Sprintf("t/%d", i), J{"length": json.Number(fmt.Sprint(i)), "hashes": J{"sha256": hex}}, true
		case "hashes":
			return fmt.Sprintf("alg%d", i), hex, true
		}
		_ = x
	}
	return "", nil, false
}

// grown is v with n extra elements or members (nil: it takes none).
func grown(kind string, p []any, v any, n int) any {
	switch x := cloneJ(v).(type) {
	case []any:
		for i := 0; i < n; i++ {
			_, e, takes := filler(kind, p, v, i)
			if !takes {
				return nil
			}
			x = append(x, e)
		}
		return x
	case map[string]any:
		for i := 0; i < n; i++ {
			k, e, takes := filler(kind, p, v, i)
			if !takes {
				return nil
			}
			x[k] = e
		}
		return x
	}
	return nil
}

// c17many: every collection and every open object with many members, integers and strings of every magnitude.
func c17many(c *Ctx, root *MRoot) {
	counts := []int{2, 3, 4, 5, 6, 8, 9, 10, 15, 16, 17, 31, 33, 64, 65, 100, 129, 257}
	if c.Thorough() {
		counts = nil
		for i := 2; i <= 70; i++ {
			counts = append(counts, i)
		}
		counts = append(counts, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 2049, 4097, 10001)
	}
	ints := []string{"1", "2", "9", "10", "99", "100", "127", "128", "255", "256", "999", "1000", "32767", "65535", "65536", "999999", "1000000", "16777217", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297",
		"999999999999", "281474976710657", "9007199254740991", "9007199254740992", "9007199254740993", "1000000000000000001", "4611686018427387904", "1152921504606846976", "4611686018427387905", "9223372036854775806", "9223372036854775807"}
	for _, d := range fullDocs() {
		tree := parseJSON(plainJSON(signedBy(d.signed, K("a"))))
		for _, p := range nodePaths(tree, nil) {
			v := getNode(tree, p)
			name := ""
			if len(p) > 0 {
				name, _ = p[len(p)-1].(string)
			}
			try := func(t *T, dir, what string, nv any, full bool) {
				x := setNode(cloneJ(tree), p, nv).(map[string]any)
				if len(p) > 0 && p[0] == "signed" {
					x = signedBy(x["signed"], K("a"))
				}
				roundTrip(t, root, dir, d.kind, fmt.Sprintf("%s with %s at %s", d.name, what, pathStr(p)), x, full)
			}
			switch v.(type) {
			case []any, map[string]any:
				if _, _, takes := filler(d.kind, p, v, 0); !takes {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s: many members at %s", d.name, pathStr(p)) }, func(t *T) {
					dir := t.Dir()
					for i, n := range counts {
						try(t, dir, fmt.Sprintf("%d more members", n), grown(d.kind, p, v, n), i%5 == 0)
					}
				})
			case json.Number:
				if name != "version" && name != "length" && name != "threshold" {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s: magnitudes of %s", d.name, pathStr(p)) }, func(t *T) {
					for _, n := range ints {
						try(t, t.Dir(), n, json.Number(n), false)
					}
				})
			case string:
				if name == "public" || name == "expires" || name == "_type" || name == "sig" || name == "spec_version" || len(p) > 2 && p[len(p)-2] == "hashes" {
					continue
				}
				if len(p) > 0 && p[0] == "signatures" {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s: strings at %s", d.name, pathStr(p)) }, func(t *T) {
					for _, s := range []string{"x", " ", "a b", "\t", "a\\b", "q\"q", "é", "\u2028", "<>&", "\U0001F600", "\u0000", "\u007f", strings.Repeat("n", 63), strings.Repeat("n", 64), strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("é", 5000), "1", "null", "{}", "%", "../x", "X" + v.(string), strings.ToUpper(v.(string))} {
						try(t, t.Dir(), fmt.Sprintf("%.40q", s), s, false)
					}
					// every short combination of what writing and reading treat specially
					for _, s := range words([]string{"\\", "u003c", "u2028", "<", "&", "\"", "/", "\u2029", "\n", "\x00", "n", " ", "\t"}, Pick(c, 2, 3)) {
						try(t, t.Dir(), fmt.Sprintf("%.40q", s), s, false)
					}
				})
			}
		}
		// dates
		c.Case(func() string { return "dates of " + d.name }, func(t *T) {
			for _, e := range []string{"0001-01-01T00:00:00Z", "0999-12-31T23:59:59Z", "1000-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "1999-12-31T23:59:59Z", "2000-02-29T12:30:00Z", "2024-02-29T00:00:01Z",
				"2038-01-19T03:14:07Z", "2038-01-19T03:14:08Z", "2100-03-01T00:00:00Z", "2262-04-11T23:47:16Z", "2262-04-11T23:47:17Z", "9999-12-31T23:59:59Z"} {
				x := cloneJ(d.signed).(J)
				x["expires"] = e
				roundTrip(t, root, t.Dir(), d.kind, d.name+" expiring "+e, signedBy(x, K("a")), false)
			}
		})
	}
}

// absent marks a field that is left out.
type absent struct{}

// c17optional: every optional field absent, empty, null or present, in all combinations.
func c17optional(c *Ctx, root *MRoot) {
	h := sha256hex([]byte("x"))
	lens := []any{absent{}, json.Number("0"), json.Number("5"), json.Number("9007199254740993"), nil}
	hashes := []any{absent{}, J{}, J{"sha256": h}, J{"sha256": h, "sha512": sha512hex(nil)}, J{"md5": "00"}, J{"": ""}, nil}
	set := func(o J, n string, v any) {
		if _, is := v.(absent); !is {
			o[n] = cloneJ(v)
		}
	}
	for _, kind := range []string{"timestamp", "snapshot"} {
		for li, l := range lens {
			c.Case(func() string { return fmt.Sprintf("optional fields of %s entries, length %d", kind, li) }, func(t *T) {
				dir := t.Dir()
				for hi, hh := range hashes {
					for hj, h2 := range hashes {
						e := J{"version": 1}
						set(e, "length", l)
						set(e, "hashes", hh)
						e2 := J{"version": 2}
						set(e2, "hashes", h2)
						s := J{"_type": kind, "spec_version": "1.0.31", "version": 1, "expires": expValid, "meta": J{"snapshot.json": e, "targets.json": e2}}
						roundTrip(t, root, dir, kind, fmt.Sprintf("%s entries length %d hashes %d, %d", kind, li, hi, hj), signedBy(s, K("a")), true)
					}
				}
			})
		}
	}
	customs := []any{absent{}, nil, J{}, []any{}, "", "x", json.Number("0"), json.Number("9007199254740993"), json.Number("1.5"), json.Number("1e3"), true, J{"b": nil, "a": []any{json.Number("9223372036854775807"), "<&>"}}}
	for ci, cu := range customs {
		c.Case(func() string { return fmt.Sprintf("custom field %d", ci) }, func(t *T) {
			dir := t.Dir()
			for _, cu2 := range customs {
				e := J{"length": 3, "hashes": J{"sha256": h}}
				set(e, "custom", cu)
				e2 := J{"length": 0, "hashes": J{"sha256": h, "sha512": sha512hex(nil)}}
				set(e2, "custom", cu2)
				s := J{"_type": "targets", "spec_version": "1.0.31", "version": 1, "expires": expValid, "targets": J{"a": e, "b/c": e2}}
				roundTrip(t, root, dir, "targets", fmt.Sprintf("targets with custom %d %T", ci, cu2), signedBy(s, K("a")), true)
			}
		})
	}
	a := K("a")
	paths := []any{absent{}, []any{}, []any{"*"}, []any{"a", "b"}, nil}
	keyids := []any{[]any{a.ID}, []any{}}
	c.Case(func() string { return "delegation forms" }, func(t *T) {
		dir := t.Dir()
		for pi, ps := range paths {
			for hi, hp := range paths {
				if _, n := ps.([]any); n {
					if _, n := hp.([]any); n {
						continue // both: not well-formed
					}
				}
				for ki, ks := range keyids {
					for _, term := range []bool{false, true} {
						r := J{"name": "A", "keyids": cloneJ(ks), "threshold": 1, "terminating": term}
						set(r, "paths", ps)
						set(r, "path_hash_prefixes", hp)
						r2 := J{"name": "", "keyids": []any{}, "threshold": 1, "terminating": !term, "paths": []any{"x"}}
						for form := 0; form < 5; form++ {
							dl := J{"keys": J{a.ID: cloneJ(a.Obj)}}
							switch form {
							case 0:
								dl["roles"] = []any{cloneJ(r)}
							case 1:
								dl["roles"] = []any{cloneJ(r2), cloneJ(r), cloneJ(r)}
							case 2:
								dl["roles"] = []any{cloneJ(r)}
								dl["succinct_roles"] = nil
							case 3:
								dl["succinct_roles"] = J{"keyids": cloneJ(ks), "threshold": 1, "bit_length": 1 + pi, "name_prefix": strings.Repeat("p", hi)}
								dl["roles"] = nil
							case 4:
								dl["succinct_roles"] = J{"keyids": cloneJ(ks), "threshold": 1, "bit_length": 32, "name_prefix": "<&>"}
							}
							s := J{"_type": "targets", "spec_version": "1.0.31", "version": 1, "expires": expValid, "targets": J{}, "delegations": dl}
							roundTrip(t, root, dir, "targets", fmt.Sprintf("delegation paths %d prefixes %d keyids %d terminating %v form %d", pi, hi, ki, term, form), signedBy(s, a), false)
						}
					}
				}
			}
		}
		for i, dl := range []any{nil, J{"keys": J{}}, J{"keys": J{}, "roles": []any{}}, J{"keys": J{}, "roles": nil}, J{"keys": nil, "roles": []any{}}} {
			s := J{"_type": "targets", "spec_version": "1.0.31", "version": 1, "expires": expValid, "targets": J{}, "delegations": dl}
			roundTrip(t, root, dir, "targets", fmt.Sprintf("delegations %d", i), signedBy(s, a), true)
		}
		for i, sg := range []any{[]any{}, []any{J{"keyid": "", "sig": ""}}, []any{J{"keyid": "a", "sig": "00"}, J{"keyid": "b", "sig": "ff00"}}} {
			for _, d := range fullDocs() {
				in := plainJSON(J{"signed": d.signed, "signatures": sg})
				m, err := libLoad(d.kind, in)
				if err != nil {
					t.Fail("signatures %d: %v", i, err)
				}
				out := mustBytes(t, "signatures", m)
				if df := diffJSON(parseJSON(in), parseJSON(out), ""); df != "" {
					t.Fail("%s with signatures %d: %s", d.name, i, df)
				}
			}
		}
	})
	// a field name that differs from a known one in case only is an unknown field, too
	c.Case(func() string { return "names that differ in case only" }, func(t *T) {
		for _, d := range fullDocs() {
			for _, p := range openObjects(d.kind, signedBy(d.signed, a)) {
				for _, n := range knownAt(d.kind, p) {
					for _, alt := range []string{strings.ToUpper(n), strings.ToUpper(n[:1]) + n[1:]} {
						if alt == n {
							continue
						}
						tree := signedBy(cloneJ(d.signed), a)
						o := getNode(tree, p).(map[string]any)
						for _, v := range []any{"x", json.Number("5")} {
							o[alt] = v
							in := plainJSON(tree)
							m, err := libLoad(d.kind, in)
							t.Trans(1)
							if err == nil {
								var b []byte
								if b, err = m.ToBytes(false); err == nil {
									if df := diffJSON(parseJSON(in), parseJSON(b), ""); df != "" {
										err = fmt.Errorf("changed: %s", df)
									}
								}
							}
							if err != nil {
								t.Finding("case-variant-names", "a member whose name differs from a known one in upper and lower case only (%q at %s of %s) is taken for the known one: %v", alt, pathStr(p), d.name, err)
							}
						}
					}
				}
			}
		}
	})
}

// c17api: documents made with the API, with every form of expiry time.
func c17api(c *Ctx, root *MRoot) {
	for zi, z := range []*time.Location{time.UTC, time.FixedZone("", 7200), time.FixedZone("x", -5*3600-1800), time.Local} {
		c.Case(func() string { return fmt.Sprintf("made with the API, zone %d", zi) }, func(t *T) {
			dir := t.Dir()
			for _, ns := range []int{0, 1, 500000000, 123456000} {
				exp := time.Date(2042, 3, 4, 5, 6, 7, ns, z)
				for _, kind := range []string{"root", "timestamp", "snapshot", "targets"} {
					var m libDoc
					switch kind {
					case "root":
						x := metadata.Root(exp)
						x.Signed.AddKey(PKey("ecdsa", 1).key(), "root")
						x.Signed.UnrecognizedFields = map[string]any{"x": int64(9007199254740993), "y": []string{"a"}, "z": map[string]any{"a": 1}}
						m = x
					case "timestamp":
						x := metadata.Timestamp(exp)
						x.Signed.Meta["snapshot.json"].UnrecognizedFields = map[string]any{"x": json.Number("9007199254740993")}
						m = x
					case "snapshot":
						x := metadata.Snapshot(exp)
						x.Signed.Meta["A.json"] = metadata.MetaFile(3)
						x.UnrecognizedFields = map[string]any{"x": uint64(9007199254740993)}
						m = x
					default:
						x := metadata.Targets(exp)
						tf, err := metadata.TargetFile().FromBytes("some/p", []byte("data"), "sha256", "sha512")
						must(err)
						cu := json.RawMessage(`{"a": 9007199254740993}`)
						tf.Custom = &cu
						x.Signed.Targets["some/p"] = tf
						m = x
					}
					if _, err := m.Sign(sigFor(K("a"))); err != nil {
						t.Fail("signing: %v", err)
					}
					if err := root.VerifyDelegate(kind, m); err != nil {
						t.Fail("%s made with the API does not verify: %v", kind, err)
					}
					b0 := mustBytes(t, kind, m)
					d := m
					for i := 0; i < 3; i++ {
						name := filepath.Join(dir, "f")
						if err := d.ToFile(name, i%2 == 1); err != nil {
							t.Fail("%v", err)
						}
						var err error
						d, err = libFile(kind, name)
						if err != nil {
							t.Fail("%s made with the API is refused: %v", kind, err)
						}
						t.Trans(1)
						t.State(fmt.Sprint("api", zi, ns, kind, i))
						if err := root.VerifyDelegate(kind, d); err != nil {
							t.Fail("%s made with the API (expiry %v) no longer verifies after saving: %v", kind, exp, err)
						}
						if df := diffJSON(parseJSON(b0), parseJSON(mustBytes(t, kind, d)), ""); df != "" {
							t.Fail("%s made with the API changes when saved: %s", kind, df)
						}
					}
				}
			}
		})
	}
}
