package fw

import (
	"bytes"
	"encoding/json"
	"hash/maphash"
	"iter"
	"sort"
	"strconv"
)

// Simpler yields cases that are simpler than c, most ambitious first, one at a time (a case
// with a long schedule has very many). The candidates are found on the JSON text alone: parts of arrays dropped, fields removed, numbers and strings
// made smaller, an object replaced by one inside it. A check's Valid decides which of them
// are cases.
func Simpler(c json.RawMessage) iter.Seq[json.RawMessage] {
	return func(yield func(json.RawMessage) bool) { simpler(c, yield) }
}

func simpler(c json.RawMessage, yield func(json.RawMessage) bool) {
	var v any
	d := json.NewDecoder(bytes.NewReader(c))
	d.UseNumber() // seeds do not fit into a float64
	if d.Decode(&v) != nil {
		return
	}
	hash := maphash.MakeSeed()
	seen := map[uint64]bool{maphash.Bytes(hash, c): true}
	stop := false
	emit := func(x any) {
		if stop {
			return
		}
		b, err := json.Marshal(x)
		if err != nil || seen[maphash.Bytes(hash, b)] {
			return
		}
		seen[maphash.Bytes(hash, b)] = true
		stop = !yield(b)
	}
	// arrays, outermost first
	var arrays []path
	var objects []path
	var scalars []path
	walk(v, nil, func(p path, x any) {
		switch x.(type) {
		case []any:
			arrays = append(arrays, p)
		case map[string]any:
			objects = append(objects, p)
		default:
			scalars = append(scalars, p)
		}
	})
	sort.SliceStable(arrays, func(i, j int) bool { return len(arrays[i]) < len(arrays[j]) })
	for _, p := range arrays {
		a := get(v, p).([]any)
		for n := len(a); n >= 1; n /= 2 {
			for i := 0; i+n <= len(a) && !stop; i += n {
				b := append(append([]any{}, a[:i]...), a[i+n:]...)
				emit(set(v, p, b))
			}
			if n == 1 {
				break
			}
		}
	}
	sort.SliceStable(objects, func(i, j int) bool { return len(objects[i]) < len(objects[j]) })
	for _, p := range objects {
		if stop {
			return
		}
		o := get(v, p).(map[string]any)
		keys := make([]string, 0, len(o))
		for k := range o {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			c := map[string]any{}
			for k2, x := range o {
				if k2 != k {
					c[k2] = x
				}
			}
			emit(set(v, p, c))
		}
		if o["k"] != nil { // expression: replace by a child or by 1
			for _, k := range keys {
				if m, ok := o[k].(map[string]any); ok {
					emit(set(v, p, m))
				}
			}
			if o["k"] != "i" {
				emit(set(v, p, map[string]any{"k": "i", "n": 1}))
			}
		}
	}
	for _, p := range scalars {
		if stop {
			return
		}
		switch x := get(v, p).(type) {
		case json.Number:
			n, err := strconv.ParseUint(string(x), 10, 64)
			if err != nil {
				emit(set(v, p, 0))
				continue
			}
			for _, y := range []uint64{0, 1, 2, n / 2, n - n/8, n - n/128, n - 1} {
				if y < n {
					emit(set(v, p, y))
				}
			}
		case bool:
			if x {
				emit(set(v, p, false))
			}
		case string:
			r := []rune(x)
			if len(r) > 0 {
				emit(set(v, p, ""))
			}
			if len(r) > 1 {
				for n := len(r) / 2; n >= 1; n /= 2 {
					for i := 0; i+n <= len(r) && len(r)/n <= 64; i += n {
						emit(set(v, p, string(r[:i])+string(r[i+n:])))
					}
				}
			}
		}
	}
}

type path []any

func walk(v any, p path, f func(path, any)) {
	q := append(path{}, p...)
	f(q, v)
	switch x := v.(type) {
	case []any:
		for i, y := range x {
			walk(y, append(q, i), f)
		}
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			walk(x[k], append(q, k), f)
		}
	}
}

func get(v any, p path) any {
	for _, k := range p {
		switch k := k.(type) {
		case int:
			v = v.([]any)[k]
		case string:
			v = v.(map[string]any)[k]
		}
	}
	return v
}

// set returns a copy of v (shared where unchanged) with x at p.
func set(v any, p path, x any) any {
	if len(p) == 0 {
		return x
	}
	switch k := p[0].(type) {
	case int:
		a := append([]any{}, v.([]any)...)
		a[k] = set(a[k], p[1:], x)
		return a
	case string:
		m := map[string]any{}
		for k2, y := range v.(map[string]any) {
			m[k2] = y
		}
		m[k] = set(m[k], p[1:], x)
		return m
	}
	return v
}
