package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"strings"
	"time"
)

// V is the model's verdict: "" accepted, else why refused.
type V string

const (
	ok        V = ""
	vFormat   V = "format"   // cannot be loaded as this role
	vUnsigned V = "unsigned" // not enough signatures
	vNoDeleg  V = "nodeleg"  // delegator does not delegate to it
	vVersion  V = "version"
	vEqual    V = "equal"
	vExpired  V = "expired"
	vMismatch V = "mismatch" // length or hash
	vMissing  V = "missing"  // inconsistency: not listed
	vOrder    V = "order"    // called out of order
)

// MSet is the reference trusted metadata set.
type MSet struct {
	Root, TS, SN *Doc
	TG           map[string]*Doc
	Now          time.Time
}

func (m *MSet) clone() *MSet {
	c := *m
	c.TG = map[string]*Doc{}
	for k, v := range m.TG {
		c.TG[k] = v
	}
	return &c
}

func (m *MSet) String() string {
	s := fmt.Sprintf("root=%s ts=%s sn=%s", m.Root, m.TS, m.SN)
	for _, k := range sortedKeys(m.TG) {
		s += " " + k + "=" + m.TG[k].String()
	}
	return s
}

// binName is the succinct bin responsible for path.
func binName(s *Succ, path string) string {
	h := sha256.Sum256([]byte(path))
	n := uint64(binary.BigEndian.Uint32(h[:4])) >> (32 - s.Bits)
	return binNameN(s, n)
}

func hexWidth(bits int) int { return (bits + 3) / 4 }

func binNameN(s *Succ, n uint64) string {
	return fmt.Sprintf("%s-%0*x", s.Prefix, hexWidth(s.Bits), n)
}

func isBin(s *Succ, name string) bool {
	p := s.Prefix + "-"
	if !strings.HasPrefix(name, p) {
		return false
	}
	x := name[len(p):]
	if len(x) != hexWidth(s.Bits) {
		return false
	}
	var n uint64
	for i := 0; i < len(x); i++ {
		c := x[i]
		switch {
		case c >= '0' && c <= '9':
			n = n*16 + uint64(c-'0')
		case c >= 'a' && c <= 'f':
			n = n*16 + uint64(c-'a') + 10
		default:
			return false
		}
	}
	return n < uint64(1)<<s.Bits
}

func count(keys []*Key, thr int, d *Doc) V {
	seen := map[string]bool{}
	for _, k := range keys {
		if d.Valid[k.ID] {
			seen[k.ID] = true
		}
	}
	if thr < 1 || len(seen) < thr {
		return vUnsigned
	}
	return ok
}

// verify is the reference signature verification.
func verify(delegator *Doc, role string, d *Doc) V {
	if delegator.Kind == "root" {
		r, found := delegator.Roles[role]
		if !found || len(r.Keys) == 0 {
			return vNoDeleg
		}
		return count(r.Keys, r.Thr, d)
	}
	if delegator.Deleg == nil {
		return vNoDeleg
	}
	if s := delegator.Deleg.Succ; s != nil {
		if !isBin(s, role) || len(s.Keys) == 0 {
			return vNoDeleg
		}
		return count(s.Keys, s.Thr, d)
	}
	for _, r := range delegator.Deleg.Roles {
		if r.Name == role {
			if len(r.Keys) == 0 {
				return vNoDeleg
			}
			return count(r.Keys, r.Thr, d)
		}
	}
	return vNoDeleg
}

func NewMSet(d *Doc, now time.Time) (*MSet, V) {
	if d == nil || d.Kind != "root" {
		return nil, vFormat
	}
	if v := verify(d, "root", d); v != ok {
		return nil, v
	}
	return &MSet{Root: d, TG: map[string]*Doc{}, Now: now}, ok
}

func (m *MSet) UpdateRoot(d *Doc) V {
	if m.TS != nil {
		return vOrder
	}
	if d.Kind != "root" {
		return vFormat
	}
	if v := verify(m.Root, "root", d); v != ok {
		return v
	}
	if d.Ver <= m.Root.Ver || d.Ver != m.Root.Ver+1 { // no wrapping around
		return vVersion
	}
	if v := verify(d, "root", d); v != ok {
		return v
	}
	m.Root = d
	return ok
}

func (m *MSet) UpdateTimestamp(d *Doc) V {
	if m.SN != nil {
		return vOrder
	}
	if m.Root.expiredAt(m.Now) {
		return vExpired
	}
	if d.Kind != "timestamp" {
		return vFormat
	}
	if v := verify(m.Root, "timestamp", d); v != ok {
		return v
	}
	if m.TS != nil {
		if d.Ver < m.TS.Ver {
			return vVersion
		}
		if d.Ver == m.TS.Ver {
			return vEqual
		}
		if d.Snap.Ver < m.TS.Snap.Ver {
			return vVersion
		}
	}
	m.TS = d
	if d.expiredAt(m.Now) {
		return vExpired
	}
	return ok
}

func matches(w Meta, d *Doc) bool {
	return (w.Len == 0 || w.Len == int64(len(d.Bytes))) && (w.Hash == "" || w.Hash == sha256hex(d.Bytes))
}

func (m *MSet) finalSN() V {
	if m.SN.expiredAt(m.Now) {
		return vExpired
	}
	if m.SN.Ver != m.TS.Snap.Ver {
		return vVersion
	}
	return ok
}

func (m *MSet) UpdateSnapshot(d *Doc, trusted bool) V {
	if m.TS == nil || m.TG["targets"] != nil {
		return vOrder
	}
	if m.TS.expiredAt(m.Now) {
		return vExpired
	}
	if !trusted && !matches(m.TS.Snap, d) {
		return vMismatch
	}
	if d.Kind != "snapshot" {
		return vFormat
	}
	if v := verify(m.Root, "snapshot", d); v != ok {
		return v
	}
	if m.SN != nil {
		for n, i := range m.SN.Meta {
			j, found := d.Meta[n]
			if !found {
				return vMissing
			}
			if j.Ver < i.Ver {
				return vVersion
			}
		}
	}
	m.SN = d
	return m.finalSN()
}

func (m *MSet) UpdateTargets(d *Doc, role, delegator string) V {
	if m.SN == nil {
		return vOrder
	}
	if v := m.finalSN(); v != ok {
		return v
	}
	from := m.Root
	if delegator != "root" {
		from = m.TG[delegator]
		if from == nil {
			return vOrder
		}
	}
	w, found := m.SN.Meta[role+".json"]
	if !found {
		return vMissing
	}
	if !matches(w, d) {
		return vMismatch
	}
	if d.Kind != "targets" {
		return vFormat
	}
	if v := verify(from, role, d); v != ok {
		return v
	}
	if d.Ver != w.Ver {
		return vVersion
	}
	if d.expiredAt(m.Now) {
		return vExpired
	}
	m.TG[role] = d
	return ok
}
