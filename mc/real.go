package main

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
)

type (
	MRoot = metadata.Metadata[metadata.RootType]
	MTS   = metadata.Metadata[metadata.TimestampType]
	MSN   = metadata.Metadata[metadata.SnapshotType]
	MTG   = metadata.Metadata[metadata.TargetsType]
)

func sigID(s []metadata.Signature) string {
	r := ""
	for _, x := range s {
		r += hex.EncodeToString(x.Signature) + ","
	}
	return r
}

// setDiff compares the real trusted set with the model ("" = same).
func setDiff(r *trustedmetadata.TrustedMetadata, m *MSet) string {
	var out []string
	cmp := func(role string, has bool, id func() string, d *Doc) {
		if has != (d != nil) {
			out = append(out, fmt.Sprintf("%s: loaded=%v, expected %s", role, has, d))
			return
		}
		if has && id() != d.SigID {
			out = append(out, fmt.Sprintf("%s: other document than %s", role, d))
		}
	}
	cmp("root", r.Root != nil, func() string { return sigID(r.Root.Signatures) }, m.Root)
	cmp("timestamp", r.Timestamp != nil, func() string { return sigID(r.Timestamp.Signatures) }, m.TS)
	cmp("snapshot", r.Snapshot != nil, func() string { return sigID(r.Snapshot.Signatures) }, m.SN)
	names := map[string]bool{}
	for k := range r.Targets {
		names[k] = true
	}
	for k := range m.TG {
		names[k] = true
	}
	for _, k := range sortedKeys(names) {
		k := k
		cmp("targets role "+k, r.Targets[k] != nil, func() string { return sigID(r.Targets[k].Signatures) }, m.TG[k])
	}
	return strings.Join(out, "; ")
}

// dump is a deep textual form of a value, of its exported fields; pointers are followed.
func dump(v any) string {
	var sb strings.Builder
	dumpV(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

var timeType = reflect.TypeOf(time.Time{})

func dumpV(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 30 {
		sb.WriteString("...")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dumpV(sb, v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == timeType {
			fmt.Fprintf(sb, "%v", v)
			return
		}
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteByte(':')
			dumpV(sb, v.Field(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nilmap")
			return
		}
		type kv struct{ k, v string }
		var es []kv
		it := v.MapRange()
		for it.Next() {
			var a, b strings.Builder
			dumpV(&a, it.Key(), depth+1)
			dumpV(&b, it.Value(), depth+1)
			es = append(es, kv{a.String(), b.String()})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		sb.WriteByte('[')
		for _, e := range es {
			sb.WriteString(e.k + "=" + e.v + ",")
		}
		sb.WriteByte(']')
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nilslice")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%x", v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteByte('(')
		for i := 0; i < v.Len(); i++ {
			dumpV(sb, v.Index(i), depth+1)
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		sb.WriteString(v.Kind().String())
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

func refused(err error) string {
	if err == nil {
		return "accepted"
	}
	return "refused (" + oneLine(err.Error()) + ")"
}
