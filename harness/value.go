package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// rng is a splitmix64 generator.
type rng struct{ s uint64 }

func mix(xs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range xs {
		h ^= x
		h += 0x9E3779B97F4A7C15
		h = (h ^ h>>30) * 0xBF58476D1CE4E5B9
		h = (h ^ h>>27) * 0x94D049BB133111EB
		h ^= h >> 31
	}
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func hashBytes(s []byte) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *rng) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

func (r *rng) p(p float64) bool {
	return float64(r.u64()>>11)/(1<<53) < p
}

func (r *rng) pick(s ...string) string { return s[r.n(len(s))] }

// access makes v readable and settable even if it was obtained from
// an unexported field.
func access(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanSet() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

const maxWalk = 20000

// equalValues compares the decoded value a of type T to the expected
// value b of type R. It returns "" if they're equal or a description of
// the first difference.
func equalValues(a, b reflect.Value) string {
	return eq("", a, b, 0)
}

func eq(path string, a, b reflect.Value, depth int) string {
	if depth > maxWalk {
		return ""
	}
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s: validity %v != expected %v", path, a.IsValid(), b.IsValid())
	}
	if !a.IsValid() {
		return ""
	}
	if a.Kind() != b.Kind() {
		return fmt.Sprintf("%s: kind %v != expected %v", path, a.Kind(), b.Kind())
	}
	switch a.Kind() {
	case reflect.Bool:
		// Read the raw byte to detect invalid booleans.
		if a.CanAddr() {
			if x := *(*uint8)(unsafe.Pointer(a.UnsafeAddr())); x > 1 {
				return fmt.Sprintf("%s: invalid bool %d", path, x)
			}
		}
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v != expected %v", path, a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v != expected %v", path, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %v != expected %v", path, a.Uint(), b.Uint())
		}
	case reflect.Float32:
		// The conversion to float64 is exact.
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %x != expected %x", path, a.Float(), b.Float())
		}
	case reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %x != expected %x", path, a.Float(), b.Float())
		}
	case reflect.Complex64, reflect.Complex128:
		if a.Complex() != b.Complex() {
			return fmt.Sprintf("%s: %v != expected %v", path, a.Complex(), b.Complex())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %.200q != expected %.200q", path, a.String(), b.String())
		}
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil=%v != expected nil=%v", path, a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: len %d != expected %d", path, a.Len(), b.Len())
		}
		if a.Cap() < a.Len() {
			return fmt.Sprintf("%s: cap %d < len %d", path, a.Cap(), a.Len())
		}
		if a.Type().Elem().Kind() == reflect.Uint8 && b.Type().Elem().Kind() == reflect.Uint8 {
			if x, y := string(a.Bytes()), string(b.Bytes()); x != y {
				return fmt.Sprintf("%s: bytes %.200q != expected %.200q", path, x, y)
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := eq("", a.Index(i), b.Index(i), depth+1); d != "" {
				return path + "[" + strconv.Itoa(i) + "]" + d
			}
		}
	case reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: array len %d != expected %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := eq("", a.Index(i), b.Index(i), depth+1); d != "" {
				return path + "[" + strconv.Itoa(i) + "]" + d
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil=%v != expected nil=%v", path, a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: map len %d != expected %d", path, a.Len(), b.Len())
		}
		kt := b.Type().Key()
		n := 0
		for it := a.MapRange(); it.Next(); n++ {
			k := it.Key()
			if k.Type() != kt {
				k = k.Convert(kt)
			}
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return fmt.Sprintf("%s: unexpected key %s", path, render(it.Key()))
			}
			if x := a.MapIndex(it.Key()); !x.IsValid() {
				return fmt.Sprintf("%s: iterated key %s isn't found by lookup", path, render(it.Key()))
			}
			if d := eq("", it.Value(), bv, depth+1); d != "" {
				return path + "[" + render(it.Key()) + "]" + d
			}
		}
		if n != a.Len() {
			return fmt.Sprintf("%s: iterated %d of %d entries", path, n, a.Len())
		}
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil=%v != expected nil=%v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		if d := eq("", a.Elem(), b.Elem(), depth+1); d != "" {
			return path + ".*" + d
		}
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil=%v != expected nil=%v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		if a.Elem().Type() != b.Elem().Type() {
			return fmt.Sprintf("%s: dynamic type %v != expected %v", path, a.Elem().Type(), b.Elem().Type())
		}
		if d := eq("", a.Elem(), b.Elem(), depth+1); d != "" {
			return path + ".(any)" + d
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := eq("", a.Field(i), b.Field(i), depth+1); d != "" {
				return path + "." + a.Type().Field(i).Name + d
			}
		}
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil=%v != expected nil=%v", path, a.IsNil(), b.IsNil())
		}
	}
	return ""
}

// render writes a readable representation of v.
func render(v reflect.Value) string {
	var b strings.Builder
	renderTo(&b, v, 0)
	return b.String()
}

func renderTo(b *strings.Builder, v reflect.Value, depth int) {
	if b.Len() > 4000 || depth > 50 {
		b.WriteString("…")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%g", v.Float())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil[]")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			fmt.Fprintf(b, "b%q", v.Bytes())
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			renderTo(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil{}")
			return
		}
		var ents []string
		for it := v.MapRange(); it.Next(); {
			var e strings.Builder
			renderTo(&e, it.Key(), depth+1)
			e.WriteByte(':')
			renderTo(&e, it.Value(), depth+1)
			ents = append(ents, e.String())
		}
		sort.Strings(ents)
		b.WriteString("map{" + strings.Join(ents, " ") + "}")
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil*")
			return
		}
		b.WriteByte('&')
		renderTo(b, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("any(nil)")
			return
		}
		fmt.Fprintf(b, "%v(", v.Elem().Type())
		renderTo(b, v.Elem(), depth+1)
		b.WriteByte(')')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			renderTo(b, v.Field(i), depth+1)
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "<%v>", v.Kind())
	}
}

// touch reads everything reachable from v and returns a checksum. It's used to
// verify that destinations of failed calls are still valid values.
func touch(v reflect.Value, depth int, budget *int) uint64 {
	*budget--
	if *budget < 0 || !v.IsValid() {
		return 0
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 1
		}
		return 2
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint()
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(v.Float())
	case reflect.String:
		return hashStr(v.String())
	case reflect.Slice:
		if v.Cap() < v.Len() {
			panic("corrupt slice header")
		}
		h := mix(uint64(v.Len()))
		for i := 0; i < v.Len() && *budget > 0; i++ {
			h = mix(h, touch(v.Index(i), depth+1, budget))
		}
		return h
	case reflect.Array:
		h := uint64(7)
		for i := 0; i < v.Len() && *budget > 0; i++ {
			h = mix(h, touch(v.Index(i), depth+1, budget))
		}
		return h
	case reflect.Map:
		h := mix(uint64(v.Len()))
		for it := v.MapRange(); it.Next() && *budget > 0; {
			h += mix(touch(it.Key(), depth+1, budget), touch(it.Value(), depth+1, budget))
		}
		return h
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return 3
		}
		return mix(4, touch(v.Elem(), depth+1, budget))
	case reflect.Struct:
		h := uint64(9)
		for i := 0; i < v.NumField(); i++ {
			h = mix(h, touch(v.Field(i), depth+1, budget))
		}
		return h
	}
	return 5
}

var keyPool = []string{"a", "b", "key", "", "A", "0", "1", "2", "-1", "7", "x y", "é", "long key with more than eight bytes"}

// fill sets v to a value determined by r. Types that differ only in
// jscandec.Number/json.Number get equal values for equal r.
func fill(v reflect.Value, r *rng, depth int) {
	v = access(v)
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.n(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.u64()) >> uint(r.n(64)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(r.u64() >> uint(r.n(64)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(int32(r.u64())) / 1024)
	case reflect.String:
		v.SetString(keyPool[r.n(len(keyPool))])
	case reflect.Slice:
		if r.n(5) == 0 || depth > 8 {
			return
		}
		n := r.n(5)
		if depth > 3 {
			n = r.n(2)
		}
		c := n
		if r.n(3) == 0 {
			c += r.n(4)
		}
		s := reflect.MakeSlice(v.Type(), n, c)
		for i := 0; i < n; i++ {
			fill(s.Index(i), r, depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), r, depth+1)
		}
	case reflect.Map:
		if r.n(5) == 0 || depth > 8 {
			return
		}
		m := reflect.MakeMap(v.Type())
		n := r.n(4)
		if depth > 3 {
			n = r.n(2)
		}
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			switch k.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				k.SetInt(int64(r.n(10) - 2))
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				k.SetUint(uint64(r.n(10)))
			default:
				fill(k, r, depth+1)
			}
			e := reflect.New(v.Type().Elem()).Elem()
			fill(e, r, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Pointer:
		if r.n(3) == 0 || depth > 8 {
			return
		}
		p := reflect.New(v.Type().Elem())
		fill(p.Elem(), r, depth+1)
		if p.Type() != v.Type() {
			p = p.Convert(v.Type())
		}
		v.Set(p)
	case reflect.Interface:
		if v.NumMethod() != 0 {
			return
		}
		var x any
		switch r.n(7) {
		case 0:
			return
		case 1:
			x = float64(r.n(1000))
		case 2:
			x = keyPool[r.n(len(keyPool))]
		case 3:
			x = r.n(2) == 0
		case 4:
			x = map[string]any{"a": 1.0, "old": []any{"x"}}
		case 5:
			x = []any{"old", nil, 3.5}
		case 6:
			x = S2{A: "in any", B: 3}
		}
		v.Set(reflect.ValueOf(x))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(v.Field(i), r, depth+1)
		}
	}
}

// fillRoot sets v to a value determined by seed in which some
// pointers and maps are referred to from multiple places.
func fillRoot(v reflect.Value, seed uint64) {
	fillUnshared(v, seed)
	r := &rng{s: mix(seed, 78)}
	if r.n(3) != 0 {
		return
	}
	var locs []reflect.Value
	shareable(v, 0, &locs)
	if len(locs) < 2 {
		return
	}
	for i := 0; i < 4; i++ {
		a, b := locs[r.n(len(locs))], locs[r.n(len(locs))]
		if a.Type() == b.Type() {
			a.Set(b)
		}
	}
}

// fillUnshared sets v to a value determined by seed.
func fillUnshared(v reflect.Value, seed uint64) {
	fill(v, &rng{s: seed}, 0)
	r := &rng{s: mix(seed, 77)}
	if r.n(16) == 0 {
		// One slice with a large capacity
		var locs []reflect.Value
		slices(v, 0, &locs)
		if len(locs) > 0 {
			x := locs[r.n(len(locs))]
			if r.n(2) == 0 {
				x = locs[0]
			}
			n := 60 + r.n(250)
			s := reflect.MakeSlice(x.Type(), n, n+r.n(2)*r.n(100))
			for i := 0; i < n; i++ {
				fill(s.Index(i), r, 4)
			}
			x.Set(s)
		}
	}
}

// slices appends the slices in v with small elements.
func slices(v reflect.Value, depth int, locs *[]reflect.Value) {
	if depth > 12 || len(*locs) > 50 {
		return
	}
	v = access(v)
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			slices(v.Elem(), depth+1, locs)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.CanSet() && v.Type().Elem().Size() <= 128 {
			*locs = append(*locs, v)
		}
		if !mayRefer(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len() && i < 10; i++ {
			slices(v.Index(i), depth+1, locs)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			slices(v.Field(i), depth+1, locs)
		}
	}
}

// shareable appends the pointers and maps in v that
// can be shared without creating reference cycles.
func shareable(v reflect.Value, depth int, locs *[]reflect.Value) {
	if depth > 12 || len(*locs) > 200 {
		return
	}
	v = access(v)
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if !mayRefer(v.Type().Elem()) || !hasPointers(v.Type().Elem()) {
			*locs = append(*locs, v)
		} else {
			shareable(v.Elem(), depth+1, locs)
		}
	case reflect.Map:
		if !v.IsNil() && (!mayRefer(v.Type().Elem()) || !hasPointers(v.Type().Elem())) {
			*locs = append(*locs, v)
		}
	case reflect.Slice, reflect.Array:
		if !mayRefer(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len() && i < 10; i++ {
			shareable(v.Index(i), depth+1, locs)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			shareable(v.Field(i), depth+1, locs)
		}
	}
}

// zeroSpare zeroes the spare capacity of all slices reachable from v.
func zeroSpare(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 2000 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		v = access(v)
		n := v.Len()
		if v.Cap() > n && v.Type().Elem().Size() > 0 {
			full := v.Slice(0, v.Cap())
			z := reflect.Zero(v.Type().Elem())
			for i := n; i < v.Cap(); i++ {
				access(full.Index(i)).Set(z)
			}
		}
		if !hasSlices(v.Type().Elem()) {
			return
		}
		for i := 0; i < n; i++ {
			zeroSpare(v.Index(i), depth+1)
		}
	case reflect.Array:
		if !hasSlices(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			zeroSpare(v.Index(i), depth+1)
		}
	case reflect.Map:
		if !hasSlices(v.Type().Elem()) {
			return
		}
		for it := v.MapRange(); it.Next(); {
			zeroSpare(it.Value(), depth+1)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			zeroSpare(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			zeroSpare(v.Field(i), depth+1)
		}
	}
}

var hasSlicesCache = map[reflect.Type]bool{}

// hasSlices tells whether values of type t can contain slices other than
// those in interfaces.
func hasSlices(t reflect.Type) bool {
	if v, ok := hasSlicesCache[t]; ok {
		return v
	}
	hasSlicesCache[t] = true // recursive types
	r := false
	switch t.Kind() {
	case reflect.Slice:
		r = true
	case reflect.Array, reflect.Pointer, reflect.Map:
		r = hasSlices(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			r = hasSlices(t.Field(i).Type) || r
		}
	}
	hasSlicesCache[t] = r
	return r
}
