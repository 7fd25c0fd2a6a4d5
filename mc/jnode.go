package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sort"
)

// nodePaths lists the position of every node of a JSON value (strings for members, ints for elements).
func nodePaths(v any, at []any) [][]any {
	res := [][]any{append([]any{}, at...)}
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			res = append(res, nodePaths(x[k], append(append([]any{}, at...), k))...)
		}
	case []any:
		for i := range x {
			res = append(res, nodePaths(x[i], append(append([]any{}, at...), i))...)
		}
	}
	return res
}

func getNode(v any, p []any) any {
	for _, e := range p {
		switch k := e.(type) {
		case string:
			v = v.(map[string]any)[k]
		case int:
			v = v.([]any)[k]
		}
	}
	return v
}

// setNode replaces the node at p and returns the (changed) value.
func setNode(v any, p []any, n any) any {
	if len(p) == 0 {
		return n
	}
	c := getNode(v, p[:len(p)-1])
	switch k := p[len(p)-1].(type) {
	case string:
		c.(map[string]any)[k] = n
	case int:
		c.([]any)[k] = n
	}
	return v
}

// delNode removes the node at p.
func delNode(v any, p []any) any {
	if len(p) == 0 {
		return nil
	}
	c := getNode(v, p[:len(p)-1])
	switch k := p[len(p)-1].(type) {
	case string:
		delete(c.(map[string]any), k)
	case int:
		l := c.([]any)
		n := append(append([]any{}, l[:k]...), l[k+1:]...)
		return setNode(v, p[:len(p)-1], n)
	}
	return v
}

func pathStr(p []any) string {
	s := ""
	for _, e := range p {
		s += fmt.Sprintf("/%v", e)
	}
	return s
}

// parseJSON reads a JSON value, numbers as json.Number.
func parseJSON(b []byte) any {
	v, err := readJSON(b)
	must(err)
	return v
}

func readJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("trailing data")
	}
	return v, nil
}

// sameJSON compares JSON values; numbers by value.
func sameJSON(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, is := b.(map[string]any)
		if !is || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, found := y[k]
			if !found || !sameJSON(e, f) {
				return false
			}
		}
		return true
	case []any:
		y, is := b.([]any)
		if !is || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	case json.Number:
		y, is := b.(json.Number)
		if !is {
			return false
		}
		p, u := new(big.Rat).SetString(x.String())
		q, v := new(big.Rat).SetString(y.String())
		return u && v && p.Cmp(q) == 0
	}
	return a == b
}

// diffJSON describes the first difference.
func diffJSON(a, b any, at string) string {
	if sameJSON(a, b) {
		return ""
	}
	x, xm := a.(map[string]any)
	y, ym := b.(map[string]any)
	if xm && ym {
		for _, k := range sortedKeys(x) {
			f, found := y[k]
			if !found {
				return at + "/" + k + " is gone"
			}
			if d := diffJSON(x[k], f, at+"/"+k); d != "" {
				return d
			}
		}
		for _, k := range sortedKeys(y) {
			if _, found := x[k]; !found {
				return at + "/" + k + " is new"
			}
		}
	}
	p, pl := a.([]any)
	q, ql := b.([]any)
	if pl && ql && len(p) == len(q) {
		for i := range p {
			if d := diffJSON(p[i], q[i], fmt.Sprintf("%s/%d", at, i)); d != "" {
				return d
			}
		}
	}
	return fmt.Sprintf("%s: %s became %s", at, plainJSON(a), plainJSON(b))
}
