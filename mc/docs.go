package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- canonical JSON (own implementation, OLPC style as TUF uses it) ----

type J = map[string]any

func canonW(b *bytes.Buffer, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case string:
		b.WriteByte('"')
		for i := 0; i < len(x); i++ {
			if x[i] == '\\' || x[i] == '"' {
				b.WriteByte('\\')
			}
			b.WriteByte(x[i])
		}
		b.WriteByte('"')
	case int:
		b.WriteString(strconv.Itoa(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case json.Number:
		b.WriteString(x.String())
	case []string:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canonW(b, e)
		}
		b.WriteByte(']')
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canonW(b, e)
		}
		b.WriteByte(']')
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			canonW(b, k)
			b.WriteByte(':')
			canonW(b, x[k])
		}
		b.WriteByte('}')
	default:
		panic(harnessError{fmt.Sprintf("canon: %T", v)})
	}
}

func canon(v any) []byte {
	var b bytes.Buffer
	canonW(&b, v)
	return b.Bytes()
}

func plainJSON(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(v))
	return bytes.TrimRight(b.Bytes(), "\n")
}

func sha256hex(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }
func sha512hex(b []byte) string { h := sha512.Sum512(b); return hex.EncodeToString(h[:]) }

// ---- keys ----

type Key struct {
	Name string
	ID   string
	Pub  ed25519.PublicKey
	Priv ed25519.PrivateKey
	Obj  J
}

var keyMu sync.Mutex
var keyCache = map[string]*Key{}

// K returns the deterministic ed25519 key called name.
func K(name string) *Key {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k := keyCache[name]; k != nil {
		return k
	}
	seed := sha256.Sum256([]byte("key:" + name))
	p := ed25519.NewKeyFromSeed(seed[:])
	pub := p.Public().(ed25519.PublicKey)
	obj := J{"keytype": "ed25519", "scheme": "ed25519", "keyval": J{"public": hex.EncodeToString(pub)}}
	k := &Key{Name: name, Pub: pub, Priv: p, Obj: obj, ID: sha256hex(canon(obj))}
	keyCache[name] = k
	return k
}

func Ks(names ...string) []*Key {
	var r []*Key
	for _, n := range names {
		for _, f := range strings.Fields(n) {
			r = append(r, K(f))
		}
	}
	return r
}

func keyNames(ks []*Key) string {
	var s []string
	for _, k := range ks {
		s = append(s, k.Name)
	}
	return strings.Join(s, "+")
}

// ---- documents ----

const (
	expValid   = "2090-01-01T00:00:00Z"
	expExpired = "2001-01-01T00:00:00Z"
)

type RoleSpec struct {
	Keys []*Key
	Thr  int
}

type Meta struct {
	Ver  int64
	Len  int64  // 0: absent
	Hash string // sha256 hex, "": absent
}

type TF struct {
	Len  int64
	Hash string // sha256
}

type DRole struct {
	Name     string
	Keys     []*Key
	Thr      int
	Term     bool
	Paths    []string
	Prefixes []string
}

type Succ struct {
	Keys   []*Key
	Thr    int
	Bits   int
	Prefix string
}

type Deleg struct {
	Roles []DRole
	Succ  *Succ
}

// Doc is a metadata document together with what the model needs to know about it.
type Doc struct {
	Name   string
	Kind   string // root timestamp snapshot targets; junk: not loadable at all
	Bytes  []byte
	Ver    int64
	Exp    time.Time
	Valid  map[string]bool // key IDs with a valid signature
	Roles  map[string]RoleSpec
	CS     bool
	Snap   Meta
	Meta   map[string]Meta
	Tgts   map[string]TF
	Deleg  *Deleg
	SigID  string // identity of the loaded object: its signatures
	signed J
}

func (d *Doc) String() string {
	if d == nil {
		return "none"
	}
	return d.Name
}

func (d *Doc) expiredAt(t time.Time) bool { return t.After(d.Exp) }

var docReg = map[string]*Doc{} // by bytes
var docMu sync.Mutex

// regOn makes every built document findable by its bytes.
var regOn bool

func reg(d *Doc) *Doc {
	if !regOn {
		return d
	}
	docMu.Lock()
	defer docMu.Unlock()
	if o, ok := docReg[string(d.Bytes)]; ok {
		return o
	}
	docReg[string(d.Bytes)] = d
	return d
}

// docOf finds the document with exactly these bytes (nil: unknown).
func docOf(b []byte) *Doc {
	docMu.Lock()
	defer docMu.Unlock()
	return docReg[string(b)]
}

type SigOpt struct {
	Key     *Key
	Corrupt bool // one bit of the signature flipped
	Other   bool // signature over different content
	By      *Key // made by this key but labelled Key.ID
	Empty   bool // empty sig value
}

func sigsFor(signed J, opts []SigOpt) ([]any, map[string]bool, string) {
	payload := canon(signed)
	list := []any{}
	valid := map[string]bool{}
	id := ""
	for _, o := range opts {
		k := o.Key
		if o.By != nil {
			k = o.By
		}
		p := payload
		if o.Other {
			p = append(append([]byte{}, payload...), ' ')
		}
		s := ed25519.Sign(k.Priv, p)
		if o.Corrupt {
			s[5] ^= 1
		}
		hx := hex.EncodeToString(s)
		if o.Empty {
			hx = ""
		}
		list = append(list, J{"keyid": o.Key.ID, "sig": hx})
		id += hx + ","
		if !o.Corrupt && !o.Other && !o.Empty && (o.By == nil || o.By == o.Key) {
			valid[o.Key.ID] = true
		}
	}
	return list, valid, id
}

func good(ks []*Key) []SigOpt {
	var r []SigOpt
	for _, k := range ks {
		r = append(r, SigOpt{Key: k})
	}
	return r
}

func exps(expired bool) string {
	if expired {
		return expExpired
	}
	return expValid
}

// docPad makes documents large: an unrecognized member of that many bytes, by document type.
var docPad map[string]int

func finish(name, kind string, signed J, ver int64, exp string, sigs []SigOpt) *Doc {
	if n := docPad[kind]; n > 0 {
		signed["x-padding"] = strings.Repeat("padding ", n/8)
	}
	list, valid, id := sigsFor(signed, sigs)
	e, err := time.Parse(time.RFC3339Nano, exp)
	must(err)
	return &Doc{Name: name, Kind: kind, Bytes: plainJSON(J{"signed": signed, "signatures": list}), Ver: ver, Exp: e, Valid: valid, SigID: id, signed: signed}
}

type RootOpt struct {
	Ver   int64
	Roles map[string]RoleSpec
	CS    bool
	Exp   string
	Sigs  []SigOpt
	Name  string
}

func keysObj(specs ...[]*Key) J {
	m := J{}
	for _, s := range specs {
		for _, k := range s {
			m[k.ID] = k.Obj
		}
	}
	return m
}

func ids(ks []*Key) []string {
	r := []string{}
	for _, k := range ks {
		r = append(r, k.ID)
	}
	return r
}

func MkRoot(o RootOpt) *Doc {
	if o.Exp == "" {
		o.Exp = expValid
	}
	var all [][]*Key
	roles := J{}
	for n, r := range o.Roles {
		all = append(all, r.Keys)
		roles[n] = J{"keyids": ids(r.Keys), "threshold": r.Thr}
	}
	signed := J{"_type": "root", "spec_version": "1.0.31", "version": o.Ver, "expires": o.Exp, "consistent_snapshot": o.CS,
		"keys": keysObj(all...), "roles": roles}
	if o.Sigs == nil {
		o.Sigs = good(o.Roles["root"].Keys)
	}
	d := finish(o.Name, "root", signed, o.Ver, o.Exp, o.Sigs)
	d.Roles, d.CS = o.Roles, o.CS
	if d.Name == "" {
		d.Name = fmt.Sprintf("root.v%d[%s/%d]%s", o.Ver, keyNames(o.Roles["root"].Keys), o.Roles["root"].Thr, sigName(d, o.Sigs, o.Exp))
	}
	return reg(d)
}

func sigName(d *Doc, sigs []SigOpt, exp string) string {
	s := "{"
	for i, o := range sigs {
		if i > 0 {
			s += ","
		}
		s += o.Key.Name
		if o.Corrupt {
			s += "!corrupt"
		}
		if o.Other {
			s += "!other"
		}
		if o.Empty {
			s += "!empty"
		}
		if o.By != nil {
			s += "!by-" + o.By.Name
		}
	}
	s += "}"
	if exp == expExpired {
		s += " expired"
	} else if exp != expValid {
		s += " exp=" + exp
	}
	return s
}

func metaObj(m Meta) J {
	r := J{"version": m.Ver}
	if m.Len != 0 {
		r["length"] = m.Len
	}
	if m.Hash != "" {
		r["hashes"] = J{"sha256": m.Hash}
	}
	return r
}

func MkTS(ver int64, snap Meta, exp string, sigs []SigOpt) *Doc {
	signed := J{"_type": "timestamp", "spec_version": "1.0.31", "version": ver, "expires": exp, "meta": J{"snapshot.json": metaObj(snap)}}
	d := finish("", "timestamp", signed, ver, exp, sigs)
	d.Snap = snap
	d.Name = fmt.Sprintf("ts.v%d(sn=%s)%s", ver, snap, sigName(d, sigs, exp))
	return reg(d)
}

func (m Meta) String() string {
	s := fmt.Sprintf("%d", m.Ver)
	if m.Len != 0 {
		s += fmt.Sprintf(",len%d", m.Len)
	}
	if m.Hash != "" {
		s += ",h" + m.Hash[:4]
	}
	return s
}

func metaMapName(m map[string]Meta) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, strings.TrimSuffix(k, ".json")+"="+m[k].String())
	}
	return strings.Join(s, " ")
}

func MkSN(ver int64, meta map[string]Meta, exp string, sigs []SigOpt) *Doc {
	mo := J{}
	for k, m := range meta {
		mo[k] = metaObj(m)
	}
	signed := J{"_type": "snapshot", "spec_version": "1.0.31", "version": ver, "expires": exp, "meta": mo}
	d := finish("", "snapshot", signed, ver, exp, sigs)
	d.Meta = meta
	d.Name = fmt.Sprintf("sn.v%d(%s)%s", ver, metaMapName(meta), sigName(d, sigs, exp))
	return reg(d)
}

func tfObj(t TF) J { return J{"length": t.Len, "hashes": J{"sha256": t.Hash}} }

func TFof(data string) TF { return TF{int64(len(data)), sha256hex([]byte(data))} }

func delegObj(dl *Deleg) J {
	var all [][]*Key
	r := J{}
	if dl.Succ != nil {
		all = append(all, dl.Succ.Keys)
		r["succinct_roles"] = J{"keyids": ids(dl.Succ.Keys), "threshold": dl.Succ.Thr, "bit_length": dl.Succ.Bits, "name_prefix": dl.Succ.Prefix}
	} else {
		rs := []any{}
		for _, x := range dl.Roles {
			all = append(all, x.Keys)
			o := J{"name": x.Name, "keyids": ids(x.Keys), "threshold": x.Thr, "terminating": x.Term}
			if x.Paths != nil {
				o["paths"] = x.Paths
			}
			if x.Prefixes != nil {
				o["path_hash_prefixes"] = x.Prefixes
			}
			rs = append(rs, o)
		}
		r["roles"] = rs
	}
	r["keys"] = keysObj(all...)
	return r
}

func MkTG(label string, ver int64, tgts map[string]TF, dl *Deleg, exp string, sigs []SigOpt) *Doc {
	to := J{}
	for k, t := range tgts {
		to[k] = tfObj(t)
	}
	signed := J{"_type": "targets", "spec_version": "1.0.31", "version": ver, "expires": exp, "targets": to}
	if dl != nil {
		signed["delegations"] = delegObj(dl)
	}
	d := finish("", "targets", signed, ver, exp, sigs)
	d.Tgts, d.Deleg = tgts, dl
	d.Name = fmt.Sprintf("%s.v%d(%s)%s", label, ver, strings.Join(sortedKeys(tgts), ","), sigName(d, sigs, exp))
	return reg(d)
}

// Junk is a document nothing can load.
func Junk(name string, b []byte) *Doc {
	return reg(&Doc{Name: name, Kind: "junk", Bytes: b})
}

func metaOf(d *Doc, length, hash bool) Meta {
	m := Meta{Ver: d.Ver}
	if length {
		m.Len = int64(len(d.Bytes))
	}
	if hash {
		m.Hash = sha256hex(d.Bytes)
	}
	return m
}

func cloneJ(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := J{}
		for k, e := range x {
			m[k] = cloneJ(e)
		}
		return m
	case []any:
		r := make([]any, len(x))
		for i, e := range x {
			r[i] = cloneJ(e)
		}
		return r
	case []string:
		r := make([]any, len(x))
		for i, e := range x {
			r[i] = e
		}
		return r
	}
	return v
}

func hexOf(b []byte) string { return hex.EncodeToString(b) }

func rawSig(k *Key, payload []byte) []byte { return ed25519.Sign(k.Priv, payload) }
