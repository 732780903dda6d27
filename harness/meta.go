package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

// C26: equivalent spellings

// respell writes an equivalent spelling of document node n, which is decoded into
// type t (nil = ignored).
func (g *Gen) respell(src []byte, n *node, t reflect.Type) {
	for t != nil && t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	raw := func() { g.b = append(g.b, src[n.start:n.end]...) }
	if t != nil && isJSONUnm(t) {
		raw() // The unmarshaler gets the raw value.
		return
	}
	if t != nil && isTextUnm(t) {
		if n.kind == nString {
			g.respellStr(src, n)
		} else {
			g.respell(src, n, nil)
		}
		return
	}
	anyT := t != nil && t.Kind() == reflect.Interface
	switch n.kind {
	case nString:
		g.respellStr(src, n)
	case nArray:
		var et reflect.Type
		switch {
		case t == nil:
		case t.Kind() == reflect.Slice, t.Kind() == reflect.Array:
			et = t.Elem()
		case anyT:
			et = t
		}
		g.array(len(n.kids), func(i int) {
			x := et
			if t != nil && t.Kind() == reflect.Array && i >= t.Len() {
				x = nil
			}
			g.respell(src, &n.kids[i], x)
		})
	case nObject:
		// Members that must keep their relative order have the same group.
		groups := make([]string, len(n.kids))
		types := make([]reflect.Type, len(n.kids))
		var fields []refField
		for i := range n.kids {
			name := refUnescape(src[n.keys[i].start+1 : n.keys[i].end-1])
			groups[i] = "n" + name
			switch {
			case t == nil:
			case anyT:
				types[i] = t
			case t.Kind() == reflect.Map:
				types[i] = t.Elem()
				k := t.Key()
				if isTextUnm(k) {
					groups[i] = "" // keys may be equal
				} else if k.Kind() != reflect.String {
					if x, err := strconv.ParseInt(name, 10, 64); err == nil {
						groups[i] = strconv.FormatInt(x, 10)
					} else {
						groups[i] = ""
					}
				}
			case t.Kind() == reflect.Struct:
				if fields == nil {
					fields = structFields(t)
				}
				if f := findField(fields, name, false); f != nil {
					groups[i] = "f" + strconv.Itoa(f.index)
					types[i] = f.typ
				}
			}
		}
		order := make([]int, len(n.kids))
		for i := range order {
			order[i] = i
		}
		if g.r.n(3) != 0 {
			for k := 3 * len(order); k > 0; k-- {
				i := g.r.n(len(order)-1 + b2i(len(order) == 1))
				if i+1 < len(order) && groups[order[i]] != groups[order[i+1]] && groups[order[i]] != "" && groups[order[i+1]] != "" {
					order[i], order[i+1] = order[i+1], order[i]
					g.count("reordered")
				}
			}
		}
		insert := t != nil && t.Kind() == reflect.Struct
		first := true
		sep := func() {
			if !first {
				g.s(",")
			}
			first = false
			g.ws()
		}
		unknown := func() {
			for insert && g.r.n(6) == 0 {
				name := g.unknownName(t)
				if findField(structFields(t), refUnescape([]byte(jsonStr(name))), false) != nil || !utf8.ValidString(name) {
					continue
				}
				sep()
				g.str(name)
				g.ws()
				g.s(":")
				g.ws()
				g.anyVal(3)
				g.ws()
				g.count("inserted")
			}
		}
		g.s("{")
		for _, i := range order {
			unknown()
			sep()
			g.respellStr(src, &n.keys[i])
			g.ws()
			g.s(":")
			g.ws()
			g.respell(src, &n.kids[i], types[i])
			g.ws()
		}
		unknown()
		if first {
			g.ws()
		}
		g.s("}")
	default:
		raw()
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// jsonStr returns the contents of a JSON string literal for s.
func jsonStr(s string) string {
	b, _ := json.Marshal(s)
	return string(b[1 : len(b)-1])
}

// respellStr writes an equivalent string literal.
func (g *Gen) respellStr(src []byte, n *node) {
	s := src[n.start+1 : n.end-1]
	if g.r.n(3) == 0 || !utf8.Valid(s) {
		g.b = append(g.b, src[n.start:n.end]...)
		return
	}
	content := refUnescape(s)
	if strings.ContainsRune(content, utf8.RuneError) {
		// Contains U+FFFD or lone surrogates
		g.b = append(g.b, src[n.start:n.end]...)
		return
	}
	g.count("respelled")
	p := g.r.n(3) // 0: escape nothing, 1: some, 2: all
	g.b = append(g.b, '"')
	for _, r := range content {
		esc := p == 2 || p == 1 && g.r.n(4) == 0
		switch {
		case r == '"' || r == '\\':
			if g.r.n(2) == 0 {
				g.hex4(uint16(r))
			} else {
				g.b = append(g.b, '\\', byte(r))
			}
		case r < 0x20:
			if j := strings.IndexByte("\b\f\n\r\t", byte(r)); j >= 0 && g.r.n(2) == 0 {
				g.b = append(g.b, '\\', "bfnrt"[j])
			} else {
				g.hex4(uint16(r))
			}
		case !esc:
			g.b = utf8.AppendRune(g.b, r)
		case r == '/' && g.r.n(2) == 0:
			g.s(`\/`)
		case r >= 0x10000:
			g.hex4(uint16(0xD800 + (r-0x10000)>>10))
			g.hex4(uint16(0xDC00 + (r-0x10000)&0x3FF))
		default:
			g.hex4(uint16(r))
		}
	}
	g.b = append(g.b, '"')
}

// posPath is a position of T in Pos[T] or PosR[T].
type posPath struct {
	name string
	// write writes a document for the wrapper.
	write func(g *Gen, e func(), sib func())
	get   func(v reflect.Value) reflect.Value
}

func fld(v reflect.Value, name string) reflect.Value {
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return reflect.Value{}
		}
		v = v.Elem()
	}
	return v.FieldByName(name)
}

func deref(v reflect.Value) reflect.Value {
	for v.IsValid() && v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	return v
}

func mapAt(v reflect.Value, key any) reflect.Value {
	return v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key()))
}

// lst writes a list with the element e at index i.
func lst(i, n int) func(g *Gen, e, sib func()) {
	return func(g *Gen, e, sib func()) {
		g.array(n, func(k int) {
			if k == i {
				e()
			} else {
				sib()
			}
		})
	}
}

// obj writes an object with the element e at key.
func obj(key string, before, after []string) func(g *Gen, e, sib func()) {
	return func(g *Gen, e, sib func()) {
		g.s("{")
		g.ws()
		for _, k := range before {
			g.s(`"` + k + `":`)
			sib()
			g.s(",")
			g.ws()
		}
		g.s(`"` + key + `"`)
		g.ws()
		g.s(":")
		g.ws()
		e()
		g.ws()
		for _, k := range after {
			g.s(`,"` + k + `":`)
			sib()
		}
		g.s("}")
	}
}

type wr = func(g *Gen, e, sib func())

// nest composes writers.
func nest(ws ...wr) wr {
	return func(g *Gen, e, sib func()) {
		if len(ws) == 0 {
			e()
			return
		}
		ws[0](g, func() { nest(ws[1:]...)(g, e, sib) }, func() { nest(ws[1:]...)(g, sib, sib) })
	}
}

var posPaths = []posPath{
	{"a", nest(), nil},
	{"p", nest(), nil},
	{"pp", nest(), nil},
	{"s", lst(0, 1), func(v reflect.Value) reflect.Value { return v.Index(0) }},
	{"s", lst(2, 4), func(v reflect.Value) reflect.Value { return v.Index(2) }},
	{"s", lst(9, 10), func(v reflect.Value) reflect.Value { return v.Index(9) }},
	{"r", lst(0, 3), func(v reflect.Value) reflect.Value { return v.Index(0) }},
	{"r", lst(2, 5), func(v reflect.Value) reflect.Value { return v.Index(2) }},
	{"r", lst(1, 2), func(v reflect.Value) reflect.Value { return v.Index(1) }},
	{"m", obj("k", nil, nil), func(v reflect.Value) reflect.Value { return mapAt(v, "k") }},
	{"m", obj("k", []string{"x", "k"}, []string{"y"}), func(v reflect.Value) reflect.Value { return mapAt(v, "k") }},
	{"i", obj("-3", []string{"1"}, []string{"2", "7"}), func(v reflect.Value) reflect.Value { return mapAt(v, -3) }},
	{"ss", nest(lst(1, 3), lst(0, 2)), func(v reflect.Value) reflect.Value { return v.Index(1).Index(0) }},
	{"ss", nest(lst(0, 1), lst(2, 3)), func(v reflect.Value) reflect.Value { return v.Index(0).Index(2) }},
	{"sp", lst(1, 3), func(v reflect.Value) reflect.Value { return v.Index(1) }},
	{"ms", nest(obj("k", []string{"a"}, []string{"b"}), lst(1, 2)), func(v reflect.Value) reflect.Value { return mapAt(v, "k").Index(1) }},
	{"mm", nest(obj("3", []string{"1"}, []string{"2"}), obj("k", []string{"a"}, nil)), func(v reflect.Value) reflect.Value { return mapAt(mapAt(v, int8(3)), "k") }},
	{"rr", nest(lst(1, 2), lst(0, 2)), func(v reflect.Value) reflect.Value { return v.Index(1).Index(0) }},
	{"ps", lst(1, 3), func(v reflect.Value) reflect.Value { return deref(v).Index(1) }},
	{"n", obj("v", nil, nil), func(v reflect.Value) reflect.Value { return v.FieldByName("V") }},
	{"ns", nest(lst(1, 3), obj("v", nil, nil)), func(v reflect.Value) reflect.Value { return v.Index(1).FieldByName("V") }},
}

// posRPaths are the positions of T in PosR[T]; rec are positions of PosR[T] itself.
var posRPaths = []posPath{
	{"v", nest(), nil},
	{"ms", nest(obj("k", []string{"a"}, []string{"b"}), lst(1, 2)), func(v reflect.Value) reflect.Value { return mapAt(v, "k").Index(1) }},
	{"r", lst(1, 2), func(v reflect.Value) reflect.Value { return v.Index(1) }},
	{"ss", nest(lst(1, 3), lst(0, 2)), func(v reflect.Value) reflect.Value { return v.Index(1).Index(0) }},
	{"mk", nest(obj("k", []string{"a"}, []string{"b"}), lst(1, 2)), func(v reflect.Value) reflect.Value { return deref(mapAt(v, "k")).Index(1) }},
}

var posRecs = []posPath{
	{"k", lst(1, 3), func(v reflect.Value) reflect.Value { return v.Index(1) }},
	{"k", lst(0, 1), func(v reflect.Value) reflect.Value { return v.Index(0) }},
	{"x", nest(), nil},
	{"m", obj("k", []string{"a"}, []string{"b"}), func(v reflect.Value) reflect.Value { return mapAt(v, "k") }},
	{"mp", obj("3", []string{"1"}, []string{"2"}), func(v reflect.Value) reflect.Value { return mapAt(v, 3) }},
	{"sk", nest(lst(1, 2), lst(1, 3)), func(v reflect.Value) reflect.Value { return v.Index(1).Index(1) }},
}

// wrapObj writes an object of wrapper type wt with the member name written by e
// and random other members.
func (g *Gen) wrapObj(wt reflect.Type, name string, e func()) {
	fields := structFields(wt)
	g.s("{")
	first := true
	other := func(p int) {
		for k := range fields {
			f := &fields[k]
			if f.name == name || g.r.n(p) != 0 || g.budget < 0 {
				continue
			}
			if !first {
				g.s(",")
			}
			first = false
			g.s(`"` + f.name + `":`)
			g.val(f.typ, 4)
		}
	}
	if g.r.n(2) == 0 {
		other(6)
	}
	if !first {
		g.s(",")
	}
	first = false
	g.s(`"` + name + `":`)
	g.ws()
	e()
	g.ws()
	if g.r.n(2) == 0 {
		other(6)
	}
	g.s("}")
}

func checkC26() *Check {
	respell := func(c cfg) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			x := c.gen(r, idx)
			x.Opts.DisallowUnknownFields = false
			x.Doc = append([]byte(nil), x.Doc...)
			g := newGen(r, profDefault)
			g.feat = map[string]int{}
			g.Null, g.Mismatch, g.BadNum = 0.1, 0, 0
			if r.n(2) == 0 {
				g.WS = 0.3
			}
			if !json.Valid(x.Doc) {
				panic("harness: invalid document")
			}
			g.ws()
			g.respell(x.Doc, parseJSON(x.Doc), x.T.R)
			g.ws()
			doc2 := g.b
			w.desc = func() string { return fmt.Sprintf("%s\nrespelled=%q", x, doc2) }
			w.Evals++
			if !json.Valid(doc2) {
				panic(fmt.Sprintf("harness: invalid document %q from %q", doc2, x.Doc))
			}
			a, b := reflect.New(x.T.T), reflect.New(x.T.T)
			if x.Fill != 0 {
				fillUnshared(a.Elem(), x.Fill)
				fillUnshared(b.Elem(), x.Fill)
			}
			o := x.Opts
			ra := w.call(func() (int, error) { return w.decoder(x.T, x.Str, false).Decode(exact(x.Doc), a.Interface(), &o) })
			rb := w.call(func() (int, error) { return w.decoder(x.T, x.Str, false).Decode(exact(doc2), b.Interface(), &o) })
			if (ra.Err == nil) != (rb.Err == nil) {
				w.fail("error: %v at %d, after respelling: %v at %d", ra.Err, ra.Index, rb.Err, rb.Index)
			}
			if ra.Err == nil {
				if d := equalValues(b.Elem(), a.Elem()); d != "" {
					w.fail("the respelled document gives another value: %s\n   first: %s\nrespelled: %s", d, render(a.Elem()), render(b.Elem()))
				}
				w.obs("respelled-equal")
			} else {
				w.obs("respelled-both-failed")
			}
			for k, n := range g.feat {
				switch k {
				case "reordered", "inserted", "respelled":
					w.Obs["spelling-"+k] += uint64(n)
				}
			}
			w.nontrivial(mix(caseHash(x), hashBytes(doc2)))
			w.sample(w.desc)
		}
	}
	embed := func(prof Prof, recursive bool) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			p := posSets[r.n(len(posSets))]
			g := newGen(r, prof)
			g.budget = 30
			if r.n(3) == 0 {
				g.BadNum, g.Mismatch, g.UnmErr = 0.15, 0.1, 0.1
			}
			g.Null = 0.05
			var elem []byte
			for {
				g.b = nil
				g.val(p.R, 2)
				elem = g.b
				if !bytes.Equal(elem, []byte("null")) {
					break
				}
			}
			// At the root
			root := reflect.New(p.Root.T)
			str := r.n(2) == 0
			o := randOpts(r)
			if r.n(2) == 0 {
				o.DisallowUnknownFields = false
			}
			w.Evals++
			w.desc = func() string { return fmt.Sprintf("type=%s input=%q string=%v", p.Root.Name, elem, str) }
			ra := w.call(func() (int, error) {
				return w.decoder(p.Root, str, false).Decode(exact(elem), root.Interface(), &o)
			})
			// Inside of the wrapper
			g = newGen(r, profValid)
			g.Unknown, g.KeyVar, g.huge = 0, 0, 0
			g.budget = 40
			wt := p.Pos
			path := posPaths[r.n(len(posPaths))]
			var recs []posPath
			if recursive {
				wt = p.PosR
				path = posRPaths[r.n(len(posRPaths))]
				for k := r.n(6); k > 0; k-- {
					recs = append(recs, posRecs[r.n(len(posRecs))])
				}
			}
			st := wt.R.Elem()
			okOpts := profValid
			okOpts.Unknown, okOpts.KeyVar = 0, 0
			g.Prof = okOpts
			e := func() { g.b = append(g.b, elem...) }
			var write func(i int)
			write = func(i int) {
				if i == len(recs) {
					g.wrapObj(st, path.name, func() { path.write(g, e, func() { g.val(p.R, 5) }) })
					return
				}
				g.wrapObj(st, recs[i].name, func() {
					recs[i].write(g, func() { write(i + 1) }, func() { g.val(st, 6) })
				})
			}
			g.ws()
			write(0)
			g.ws()
			doc := g.b
			dst := reflect.New(wt.T)
			w.desc = func() string {
				n := ""
				for _, x := range recs {
					n += x.name + "/"
				}
				return fmt.Sprintf("type=%s element=%q string=%v options=%+v\nwrapper=%s path=%s input=%q", p.Root.Name, elem, str, o, wt.Name, n+path.name, doc)
			}
			if !json.Valid(doc) {
				panic(fmt.Sprintf("harness: invalid document %q", doc))
			}
			rb := w.call(func() (int, error) { return w.decoder(wt, str, false).Decode(exact(doc), dst.Interface(), &o) })
			if (ra.Err == nil) != (rb.Err == nil) {
				w.fail("at the root: error %v at %d, embedded: error %v at %d: %.60q", ra.Err, ra.Index, rb.Err, rb.Index, doc[max(rb.Index, 0):])
			}
			if ra.Err != nil {
				w.obs("embedded-both-failed")
				if ra.Err.Error() != rb.Err.Error() {
					w.fail("at the root: error %v, embedded: error %v at %d: %.60q", ra.Err, rb.Err, rb.Index, doc[rb.Index:])
				}
			} else {
				v := dst.Elem()
				step := func(x posPath) {
					f := fieldByJSON(v, x.name)
					if x.get != nil {
						f = x.get(f)
					}
					v = f
				}
				for _, x := range recs {
					step(x)
				}
				step(path)
				// v is a T or a pointer to a T.
				for v.Type() != p.T {
					v = v.Elem()
				}
				if d := equalValues(v, root.Elem().Elem()); d != "" {
					w.fail("embedded: %s\nat the root: %s\n   embedded: %s", d, render(root.Elem().Elem()), render(v))
				}
				w.obs("embedded-equal")
				w.obs("embedded-at-" + path.name)
			}
			w.nontrivial(mix(hashStr(wt.Name), hashBytes(doc)))
			w.sample(w.desc)
		}
	}
	p := profDefault
	p.Dup = 0.1
	e := p
	e.Mismatch, e.BadNum = 0.03, 0.05
	return &Check{
		ID:   "C26",
		Rule: "distinct pairs of equivalent documents or of a value and an embedding",
		Phases: []Phase{
			{Name: "respelled", Variant: "plain", Quick: 400000, Thor: 9000000, Run: respell(cfg{types: allTypes, prof: p, fill: 0.3, opts: 0})},
			{Name: "respelled-errors", Variant: "plain", Quick: 200000, Thor: 4000000, Run: respell(cfg{types: allTypes, prof: e, fill: 0.2, opts: 0})},
			{Name: "embedded", Variant: "plain", Quick: 400000, Thor: 9000000, Run: embed(profDefault, false)},
			{Name: "embedded-recursive", Variant: "plain", Quick: 300000, Thor: 7000000, Run: embed(profDefault, true)},
		},
		Need: []string{"respelled-equal", "respelled-both-failed", "spelling-reordered", "spelling-inserted", "spelling-respelled", "embedded-equal", "embedded-both-failed"},
	}
}

func fieldByJSON(v reflect.Value, name string) reflect.Value {
	for v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Tag.Get("json") == name {
			return v.Field(i)
		}
	}
	panic("no field " + name)
}

// C27

// fillRT sets v to a random value that can be marshalled.
func (g *Gen) fillRT(v reflect.Value, depth int) {
	v = access(v)
	t := v.Type()
	g.budget--
	r := g.r
	switch t.String() {
	case "json.RawMessage":
		h := newGen(r, profValid)
		h.WS, h.BadUTF8 = 0, 0
		h.budget = 10
		h.anyVal(4)
		var c bytes.Buffer
		if json.Compact(&c, h.b) == nil {
			v.SetBytes(c.Bytes())
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.n(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, _ := strconv.ParseInt(g.boundaryInt(t, false), 10, 64)
		v.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i, _ := strconv.ParseUint(g.boundaryInt(t, false), 10, 64)
		v.SetUint(i)
	case reflect.Float32, reflect.Float64:
		var f float64
		switch r.n(4) {
		case 0:
			f = float64(int64(r.u64())>>uint(r.n(64))) / float64(int64(1)<<uint(r.n(20)))
		case 1:
			f = []float64{0, math.Copysign(0, -1), 1, -1, 1e21, 1e-7, 123456789, 0.1, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e20, 1e-6, 16777217, 9007199254740993}[r.n(14)]
		case 2:
			f, _ = strconv.ParseFloat(g.floatLit(t.Bits()), t.Bits())
		default:
			f = math.Float64frombits(r.u64())
			if t.Bits() == 32 {
				f = float64(math.Float32frombits(uint32(r.u64())))
			}
		}
		if f != f || math.IsInf(f, 0) || t.Bits() == 32 && math.Abs(f) > math.MaxFloat32 {
			f = 2.5
		}
		v.SetFloat(f)
	case reflect.String:
		if isNumberType(t) {
			v.SetString(g.numLit())
			return
		}
		v.SetString(g.content())
	case reflect.Slice:
		if r.n(6) == 0 {
			return
		}
		n := g.elems(depth)
		if depth > g.MaxDepth || g.budget < 0 {
			n = r.n(2)
			if g.budget < -100 {
				n = 0
			}
		}
		if t.Elem().Kind() == reflect.Uint8 {
			n = r.n(30)
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			g.fillRT(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fillRT(v.Index(i), depth+1)
		}
	case reflect.Map:
		if r.n(6) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		n := g.elems(depth)
		if depth > g.MaxDepth || g.budget < 0 {
			n = r.n(2)
			if g.budget < -100 {
				n = 0
			}
		}
		for i := 0; i < n; i++ {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			g.fillRT(k, depth+1)
			g.fillRT(e, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Pointer:
		if r.n(4) == 0 || depth > g.MaxDepth+3 || g.budget < -50 {
			return
		}
		p := reflect.New(t.Elem())
		g.fillRT(p.Elem(), depth+1)
		v.Set(p.Convert(t))
	case reflect.Interface:
		x := g.anyRT(depth)
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Tag.Get("json") == "-" {
				continue
			}
			if g.budget < 0 && r.n(4) != 0 {
				continue
			}
			g.fillRT(v.Field(i), depth+1)
		}
	}
}

func (g *Gen) anyRT(depth int) any {
	g.budget--
	k := g.r.n(7)
	if depth > g.MaxDepth || g.budget < 0 {
		k = g.r.n(5)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return g.r.n(2) == 0
	case 2, 3:
		f, _ := strconv.ParseFloat(g.floatLit(64), 64)
		return f
	case 4:
		return g.content()
	case 5:
		l := make([]any, g.elems(depth))
		for i := range l {
			l[i] = g.anyRT(depth + 1)
		}
		return l
	}
	m := map[string]any{}
	for i := g.elems(depth); i > 0; i-- {
		m[g.content()] = g.anyRT(depth + 1)
	}
	return m
}

func checkC27() *Check {
	types := typesWith(0, func(t *Type) bool {
		return t.Feat&(FJSONUnm|FTextUnm|FKeyText) == 0 || strings.Contains(t.Name, "RawMessage") || strings.Contains(t.Name, "Number")
	})
	run := func(big bool) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			t := types[r.n(len(types))]
			p := profValid
			p.BadUTF8 = 0
			p.Esc = 0.5
			g := newGen(r, p)
			g.budget = 80
			if big {
				g.budget, g.MaxElems, g.Big = 1500, 12, 0.3
			}
			v := reflect.New(t.R)
			g.fillRT(v.Elem(), 0)
			var doc []byte
			var err error
			switch r.n(4) {
			case 0:
				doc, err = json.MarshalIndent(v.Interface(), r.pick("", " ", "\t\n"), r.pick("  ", "\t", "\r\n", ""))
			case 1:
				var b bytes.Buffer
				e := json.NewEncoder(&b)
				e.SetEscapeHTML(false)
				err = e.Encode(v.Interface())
				doc = b.Bytes()
			default:
				doc, err = json.Marshal(v.Interface())
			}
			if err != nil {
				w.obs("not-marshallable")
				return
			}
			std := reflect.New(t.R)
			if json.Unmarshal(doc, std.Interface()) != nil {
				w.obs("lossy")
				return
			}
			if d := equalValues(v.Elem(), std.Elem()); d != "" {
				w.obs("lossy")
				v = std // encoding/json loses information
			} else {
				w.obs("round-trips")
			}
			w.Evals++
			str := r.n(2) == 0
			w.desc = func() string { return fmt.Sprintf("type=%s input=%q string=%v", t.Name, doc, str) }
			dst := reflect.New(t.T)
			o := randOpts(r)
			o.DisallowUnknownFields = false
			unm := r.n(10) == 0
			o.DisableFieldNameUnescaping = o.DisableFieldNameUnescaping && !bytes.ContainsRune(doc, '\\')
			res := w.call(func() (int, error) {
				if unm {
					if str {
						return -1, t.UnmS(exact(doc), dst.Interface())
					}
					return -1, t.UnmB(exact(doc), dst.Interface())
				}
				return w.decoder(t, str, r.n(100) == 0).Decode(exact(doc), dst.Interface(), &o)
			})
			if res.Err != nil {
				w.fail("the marshalled value can't be decoded: %v at %d", res.Err, res.Index)
			}
			if d := equalValues(dst.Elem(), v.Elem()); d != "" {
				w.fail("the value changed: %s\n got: %s\nwant: %s", d, render(dst.Elem()), render(v.Elem()))
			}
			w.nontrivial(mix(hashStr(t.Name), hashBytes(doc)))
			w.sample(w.desc)
		}
	}
	return &Check{
		ID:   "C27",
		Rule: "distinct (type, marshalled value)",
		Phases: []Phase{
			{Name: "values", Variant: "plain", Quick: 400000, Thor: 9000000, Run: run(false)},
			{Name: "big-values", Variant: "plain", Quick: 40000, Thor: 900000, Run: run(true)},
			{Name: "values-32bit", Variant: "386", Quick: 60000, Thor: 1000000, Run: run(false)},
		},
		Need: []string{"round-trips"},
	}
}
