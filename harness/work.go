package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"unsafe"

	jscandec "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
)

// cfg configures a differential workload.
type cfg struct {
	types  []*Type
	prof   Prof
	leaf   func(g *Gen, t reflect.Type) bool
	flags  Flags
	opts   float64 // probability of random options
	fill   float64 // probability of existing contents in the destination
	fresh  float64 // probability of a new decoder
	unm    float64 // probability of Unmarshal instead of Decode
	mutate float64 // probability of a mutated document
	// doc generates the document, by default it's generated for the type.
	doc func(g *Gen, t *Type, idx uint64) []byte
	// typ selects the type, by default any of types.
	typ func(r *rng, idx uint64) *Type
	// nontrivial tells whether the case counts as non-trivial.
	nontrivial func(c *Case, o *Outcome) bool
	post       func(w *W, c *Case, o *Outcome, r *rng)
	budget     int
}

func randOpts(r *rng) (o jscandec.DecodeOptions) {
	o.DisallowUnknownFields = r.n(2) == 0
	o.DisableFieldNameUnescaping = r.n(2) == 0
	o.DisableCaseInsensitiveMatching = r.n(2) == 0
	return o
}

func (c *cfg) gen(r *rng, idx uint64) *Case {
	var t *Type
	if c.typ != nil {
		t = c.typ(r, idx)
	} else {
		t = c.types[r.n(len(c.types))]
	}
	g := newGen(r, c.prof)
	if c.budget > 0 {
		g.budget = c.budget
	}
	g.leaf = c.leaf
	var doc []byte
	if c.doc != nil {
		doc = c.doc(g, t, idx)
	} else {
		doc = g.Doc(t.R)
	}
	if c.mutate > 0 && r.p(c.mutate) {
		doc = g.mutate(doc)
	}
	x := &Case{T: t, Doc: doc, Flags: c.flags}
	x.Str = r.n(2) == 0
	x.Fresh = r.p(c.fresh)
	x.Unm = c.unm > 0 && r.p(c.unm)
	if c.opts > 0 && !x.Unm && r.p(c.opts) {
		x.Opts = randOpts(r)
	}
	if c.fill > 0 && r.p(c.fill) {
		x.Fill = r.u64() | 1
	}
	return x
}

func diffPhase(name, variant string, quick, thor int, c cfg) Phase {
	if c.prof.MaxElems == 0 {
		c.prof = profDefault
	}
	if c.flags == 0 {
		c.flags = CmpValue
	}
	if c.fresh == 0 {
		c.fresh = 0.01
	}
	return Phase{
		Name: name, Variant: variant, Quick: quick, Thor: thor,
		Run: func(w *W, idx uint64, r *rng) {
			x := c.gen(r, idx)
			o := w.diff(x)
			if c.nontrivial == nil || c.nontrivial(x, &o) {
				if !o.Undef {
					w.nontrivial(caseHash(x))
				}
			}
			if c.post != nil {
				c.post(w, x, &o, r)
			}
			w.sample(x.String)
		},
	}
}

// hugePhase is a differential workload of documents with huge parts: long
// strings, numbers, whitespace, containers and lists of members.
func hugePhase(quick int, c cfg) Phase {
	if c.prof.MaxElems == 0 {
		c.prof = profDefault
		c.prof.Mismatch, c.prof.BadNum = 0.0001, 0.0002
	}
	c.prof.Huge, c.prof.Big = 1, 0
	c.types = smallElems(c.types)
	f := c.post
	c.post = func(w *W, x *Case, o *Outcome, r *rng) {
		if len(x.Doc) > 1<<16 {
			w.obs("documents-over-64KiB")
		}
		if f != nil {
			f(w, x, o, r)
		}
	}
	p := diffPhase("huge", "plain", quick, quick*20, c)
	return p
}

// giantPhase is like hugePhase but the parts are larger.
func giantPhase(quick int, c cfg) Phase {
	if c.prof.MaxElems == 0 {
		c.prof = profDefault
		c.prof.Mismatch, c.prof.BadNum, c.prof.UnmErr = 0.000002, 0.000004, 0.000002
	}
	c.prof.Huge, c.prof.Giant, c.prof.Big = 1, true, 0
	var l []*Type
	for _, t := range c.types {
		if !elemsOver(t.T, 64, map[reflect.Type]bool{}) {
			l = append(l, t)
		}
	}
	c.types = l
	c.post = func(w *W, x *Case, o *Outcome, r *rng) {
		if len(x.Doc) > 1<<17 {
			w.obs("documents-over-128KiB")
		}
		if len(x.Doc) > 1<<20 {
			w.obs("documents-over-1MiB")
		}
	}
	return diffPhase("giant", "plain", quick, quick*20, c)
}

// smallElems returns the types that documents with huge parts may be decoded into.
func smallElems(types []*Type) (l []*Type) {
	for _, t := range types {
		if !bigElems(t.R, map[reflect.Type]bool{}) {
			l = append(l, t)
		}
	}
	return l
}

var bigElemTypes = map[reflect.Type]bool{}

// tooBigElems is bigElems with a cache.
func tooBigElems(t reflect.Type) bool {
	b, ok := bigElemTypes[t]
	if !ok {
		b = bigElems(t, map[reflect.Type]bool{})
		bigElemTypes[t] = b
	}
	return b
}

// bigElems tells whether t has slices or maps with elements so large that many
// of them would exhaust the memory.
func bigElems(t reflect.Type, seen map[reflect.Type]bool) bool {
	return elemsOver(t, 400, seen)
}

func elemsOver(t reflect.Type, size uintptr, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Slice, reflect.Map:
		return t.Elem().Size() > size || elemsOver(t.Elem(), size, seen)
	case reflect.Pointer, reflect.Array:
		return elemsOver(t.Elem(), size, seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if elemsOver(t.Field(i).Type, size, seen) {
				return true
			}
		}
	}
	return false
}

// widePhase decodes into types with more than 65536 fields.
func widePhase(quick int) Phase {
	p := profValid
	p.Missing, p.Unknown, p.MaxElems = 0.97, 0.0, 2
	doc := func(g *Gen, t *Type, idx uint64) []byte {
		g.budget = 2000
		g.Missing = []float64{0.8, 0.95, 0.99}[g.r.n(3)]
		return g.Doc(t.R)
	}
	return diffPhase("wide", "plain", quick, quick*20, cfg{types: []*Type{wide2}, prof: p, doc: doc, fill: 0.02, fresh: 0.01, flags: CmpValue | CmpErr})
}

// Identity of pointers, maps and slices.

type identKey struct {
	p unsafe.Pointer
	k reflect.Kind
}

// identTrack relates the objects reachable from a to those reachable from b.
type identTrack struct {
	a, b map[identKey]int
	keep []reflect.Value
	n    int
	bad  string
	new  int
	old  int
	base int
	// snaps refers to the objects that existed before decoding.
	snaps []identSnap
	kept  map[identKey]bool
}

// identSnap refers to an object on both sides.
type identSnap struct {
	a, b reflect.Value
	key  identKey
	path string
}

// addSnap remembers the objects a and b refer to.
func (it *identTrack) addSnap(path string, a, b reflect.Value, key identKey) {
	ref := func(v reflect.Value) reflect.Value {
		// v may belong to an unexported field.
		n := reflect.New(v.Type())
		if v.Kind() == reflect.Slice {
			h := (*[3]uintptr)(n.UnsafePointer())
			h[1], h[2] = uintptr(v.Len()), uintptr(v.Cap())
		}
		*(*unsafe.Pointer)(n.UnsafePointer()) = v.UnsafePointer()
		return n.Elem()
	}
	it.snaps = append(it.snaps, identSnap{ref(a), ref(b), key, path})
}

// checkSnaps verifies that the objects that existed before decoding are equal
// no matter whether the destination still refers to them.
func (it *identTrack) checkSnaps() string {
	for _, s := range it.snaps {
		if s.a.Kind() == reflect.Slice && !it.kept[s.key] {
			// encoding/json may write elements before the slice is grown.
			continue
		}
		if d := equalValues(s.a, s.b); d != "" {
			return fmt.Sprintf("the %v that %s referred to before: %s", s.a.Kind(), s.path, d)
		}
	}
	return ""
}

func newIdentTrack() *identTrack {
	return &identTrack{a: map[identKey]int{}, b: map[identKey]int{}}
}

func identPtr(v reflect.Value) (identKey, bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem().Size() == 0 {
			return identKey{}, false
		}
	case reflect.Slice:
		if v.Cap() == 0 || v.Len() == 0 || v.Type().Elem().Size() == 0 {
			return identKey{}, false
		}
	case reflect.Map:
		if v.IsNil() {
			return identKey{}, false
		}
	}
	return identKey{v.UnsafePointer(), v.Kind()}, true
}

// walk relates the objects of a and b, which must be equal values.
func (it *identTrack) walk(path string, a, b reflect.Value, depth int) {
	if it.bad != "" || depth > 3000 || !a.IsValid() || !b.IsValid() || a.Kind() != b.Kind() {
		return
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map:
		ka, oka := identPtr(a)
		kb, okb := identPtr(b)
		if oka && okb {
			ia, sa := it.a[ka]
			ib, sb := it.b[kb]
			switch {
			case !sa && !sb:
				it.n++
				it.a[ka], it.b[kb] = it.n, it.n
				it.keep = append(it.keep, a, b)
				it.new++
				if it.kept == nil && len(it.snaps) < 60 {
					it.addSnap(path, a, b, ka)
				}
			case sa && sb && ia == ib:
				if ia <= it.base && it.kept != nil {
					it.old++
					it.kept[ka] = true
				}
			default:
				what := func(seen bool, id int) string {
					switch {
					case !seen:
						return "a new object"
					case id <= it.base:
						return fmt.Sprintf("existing object %d", id)
					}
					return fmt.Sprintf("new object %d that's referred to elsewhere too", id)
				}
				it.bad = fmt.Sprintf("%s (%v) refers to %s but is expected to refer to %s",
					path, a.Kind(), what(sa, ia), what(sb, ib))
				return
			}
		}
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !a.IsNil() && !b.IsNil() {
			it.walk(path+".*", a.Elem(), b.Elem(), depth+1)
		}
	case reflect.Slice, reflect.Array:
		if !mayRefer(a.Type().Elem()) {
			return
		}
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			it.walk(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), depth+1)
		}
	case reflect.Map:
		if !mayRefer(a.Type().Elem()) {
			return
		}
		kt := b.Type().Key()
		for i := a.MapRange(); i.Next(); {
			k := i.Key()
			if k.Type() != kt {
				k = k.Convert(kt)
			}
			it.walk(path+"["+render(k)+"]", i.Value(), b.MapIndex(k), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			it.walk(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i), depth+1)
		}
	}
}

func mayRefer(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Struct, reflect.Interface:
		return true
	case reflect.Array:
		return mayRefer(t.Elem())
	}
	return false
}

// Syntax errors

// syntaxExpect tells what the tokenizer reports for in.
//
//	err:    the syntax error, if any
//	called: whether the document was complete before the error
func syntaxExpect(in []byte, str bool) (index int, code jscan.ErrorCode, called bool) {
	if str {
		tk := jscan.NewTokenizer[string](8, 8)
		e := tk.Tokenize(string(in), func([]jscan.Token[string]) bool { called = true; return false })
		return e.Index, e.Code, called
	}
	tk := jscan.NewTokenizer[[]byte](8, 8)
	e := tk.Tokenize(in, func([]jscan.Token[[]byte]) bool { called = true; return false })
	return e.Index, e.Code, called
}

// jscanErr extracts index and code if err is an error of jscan.
func jscanErr(err error) (index int, code jscan.ErrorCode, ok bool) {
	var eb jscan.Error[[]byte]
	var es jscan.Error[string]
	switch {
	case errors.As(err, &eb):
		return eb.Index, eb.Code, true
	case errors.As(err, &es):
		return es.Index, es.Code, true
	}
	return 0, 0, false
}

var _ = json.Valid
