package main

import (
	"bytes"
	"crypto"
	"encoding/json"
	"io"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/sigstore/sigstore/pkg/signature"
)

// libDoc is a metadata object of any role.
type libDoc interface {
	ToBytes(pretty bool) ([]byte, error)
	ToFile(name string, pretty bool) error
	Sign(s signature.Signer) (*metadata.Signature, error)
	ClearSignatures()
	VerifyDelegate(role string, d any) error
}

func wrapNil[P any, T interface {
	*P
	libDoc
}](m T, err error) (libDoc, error) {
	if m == nil {
		return nil, err
	}
	return m, err
}

// libLoad reads bytes as the given role.
func libLoad(kind string, b []byte) (libDoc, error) {
	b = append([]byte{}, b...)
	defer func() { // the caller may reuse its buffer
		for i := range b {
			b[i] = '#'
		}
	}()
	switch kind {
	case "root":
		return wrapNil[MRoot](metadata.Root().FromBytes(b))
	case "timestamp":
		return wrapNil[MTS](metadata.Timestamp().FromBytes(b))
	case "snapshot":
		return wrapNil[MSN](metadata.Snapshot().FromBytes(b))
	}
	return wrapNil[MTG](metadata.Targets().FromBytes(b))
}

func libFile(kind, name string) (libDoc, error) {
	switch kind {
	case "root":
		return wrapNil[MRoot](metadata.Root().FromFile(name))
	case "timestamp":
		return wrapNil[MTS](metadata.Timestamp().FromFile(name))
	case "snapshot":
		return wrapNil[MSN](metadata.Snapshot().FromFile(name))
	}
	return wrapNil[MTG](metadata.Targets().FromFile(name))
}

// recorder is a signer that records what it is given to sign.
type recorder struct {
	pub     crypto.PublicKey
	payload []byte
}

func (r *recorder) PublicKey(...signature.PublicKeyOption) (crypto.PublicKey, error) {
	return r.pub, nil
}

func (r *recorder) SignMessage(m io.Reader, _ ...signature.SignOption) ([]byte, error) {
	b, err := io.ReadAll(m)
	r.payload = b
	return []byte{1}, err
}

// payloadOf is the byte string the library signs for d.
func payloadOf(d libDoc) ([]byte, error) {
	r := &recorder{pub: K("rec").Pub}
	if _, err := d.Sign(r); err != nil {
		return nil, err
	}
	return r.payload, nil
}

// fullDocs are complete documents of every role (the signed part), as plain JSON trees.
type fullDoc struct {
	name, kind string
	signed     J
}

func fullDocs() []fullDoc {
	ed, ec, rs := PKey("ed25519", 0), PKey("ecdsa", 0), PKey("rsa", 0)
	keys := J{ed.ID: cloneJ(ed.Obj), ec.ID: cloneJ(ec.Obj), rs.ID: cloneJ(rs.Obj), K("a").ID: cloneJ(K("a").Obj)}
	role := func(thr int, ids ...string) J {
		var l []any
		for _, i := range ids {
			l = append(l, i)
		}
		return J{"keyids": l, "threshold": thr}
	}
	root := J{"_type": "root", "spec_version": "1.0.31", "version": 3, "expires": expValid, "consistent_snapshot": true, "keys": keys,
		"roles": J{"root": role(1, K("a").ID), "timestamp": role(1, ed.ID), "snapshot": role(2, ed.ID, ec.ID), "targets": role(3, rs.ID, ed.ID, ec.ID)}}
	root2 := J{"_type": "root", "spec_version": "1.0", "version": 1, "expires": expValid, "consistent_snapshot": false, "keys": J{K("a").ID: cloneJ(K("a").Obj)},
		"roles": J{"root": role(1, K("a").ID), "timestamp": role(1, K("a").ID), "snapshot": role(1, K("a").ID), "targets": role(1, K("a").ID)}}
	h := sha256hex([]byte("x"))
	h5 := sha512hex([]byte("x"))
	ts := J{"_type": "timestamp", "spec_version": "1.0.31", "version": 7, "expires": expValid, "meta": J{"snapshot.json": J{"version": 7, "length": 100, "hashes": J{"sha256": h, "sha512": h5}}}}
	ts2 := J{"_type": "timestamp", "spec_version": "1.0.31", "version": 7, "expires": expValid, "meta": J{"snapshot.json": J{"version": 1}, "other.json": J{"version": 2, "length": 5}}}
	sn := J{"_type": "snapshot", "spec_version": "1.0.31", "version": 2, "expires": expValid, "meta": J{"targets.json": J{"version": 1}, "A.json": J{"version": 3, "length": 5},
		"B.json": J{"version": 4, "hashes": J{"sha256": h}}, "a/b c.json": J{"version": 4, "length": 1, "hashes": J{"sha512": h5}}}}
	sn2 := J{"_type": "snapshot", "spec_version": "1.0.31", "version": 2, "expires": expValid, "meta": J{}}
	tgts := func() J {
		return J{"a.txt": J{"length": 1, "hashes": J{"sha256": h}}, "dir/b": J{"length": 0, "hashes": J{"sha256": h, "sha512": h5}, "custom": J{"k": []any{1, "v", nil}}},
			"c": J{"length": 9007199254740993, "hashes": J{"sha512": h5}, "custom": "text"}}
	}
	tg := J{"_type": "targets", "spec_version": "1.0.31", "version": 1, "expires": expValid, "targets": tgts()}
	tg0 := J{"_type": "targets", "spec_version": "1.0.31", "version": 1, "expires": expValid, "targets": J{}}
	drole := func(name string, term bool, extra J) J {
		r := role(1, ed.ID)
		r["name"], r["terminating"] = name, term
		for k, v := range extra {
			r[k] = v
		}
		return r
	}
	dk := J{ed.ID: cloneJ(ed.Obj), ec.ID: cloneJ(ec.Obj)}
	tgd := J{"_type": "targets", "spec_version": "1.0.31", "version": 1, "expires": expValid, "targets": tgts(), "delegations": J{"keys": cloneJ(dk), "roles": []any{
		drole("A", true, J{"paths": []any{"*", "d/*"}}), drole("B", false, J{"path_hash_prefixes": []any{"00", "ab12"}}), drole("C", false, J{}), drole("D", true, J{"paths": []any{}}), drole("E", true, J{"path_hash_prefixes": []any{}})}}}
	tge := J{"_type": "targets", "spec_version": "1.0.31", "version": 1, "expires": expValid, "targets": J{}, "delegations": J{"keys": J{}, "roles": []any{}}}
	succ := role(1, ec.ID)
	succ["bit_length"], succ["name_prefix"] = 4, "bin"
	tgs := J{"_type": "targets", "spec_version": "1.0.31", "version": 1, "expires": expValid, "targets": J{}, "delegations": J{"keys": cloneJ(dk), "succinct_roles": succ}}
	return []fullDoc{{"root", "root", root}, {"small root", "root", root2}, {"timestamp", "timestamp", ts}, {"timestamp with more entries", "timestamp", ts2}, {"snapshot", "snapshot", sn}, {"empty snapshot", "snapshot", sn2},
		{"targets", "targets", tg}, {"empty targets", "targets", tg0}, {"delegating targets", "targets", tgd}, {"targets with empty delegations", "targets", tge}, {"succinct targets", "targets", tgs}}
}

// signedBy makes the whole document as a tree, signed with harness keys over the harness's canonical form.
// It returns nil when the content has no canonical form (floating point numbers).
func signedBy(signed any, ks ...*Key) J {
	p, can := canonOK(signed)
	if !can {
		p = []byte("none")
	}
	l := []any{}
	for _, k := range ks {
		l = append(l, J{"keyid": k.ID, "sig": hexOf(rawSig(k, p))})
	}
	return J{"signed": signed, "signatures": l}
}

func canonOK(v any) (b []byte, can bool) {
	if !onlyInts(v) {
		return nil, false
	}
	return canon(v), true
}

func onlyInts(v any) bool {
	switch x := v.(type) {
	case map[string]any:
		for _, e := range x {
			if !onlyInts(e) {
				return false
			}
		}
	case []any:
		for _, e := range x {
			if !onlyInts(e) {
				return false
			}
		}
	case json.Number:
		if _, err := x.Int64(); err != nil || bytes.ContainsAny([]byte(x), ".eE") || x == "-0" {
			return false
		}
	}
	return true
}

// sigFor is the library-side signer of a harness key.
func sigFor(k *Key) signature.Signer {
	s, err := signature.LoadSigner(k.Priv, crypto.Hash(0))
	must(err)
	return s
}
