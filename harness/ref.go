package main

import (
	"encoding"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

// This file implements the reference decoder: a straightforward decoder over a
// parse tree with byte offsets that follows the semantics of encoding/json
// but stops at the first error, knows its byte index and cause, and implements
// all decode options. It shares no code with the code under test and every run
// validates it against encoding/json.

type nodeKind uint8

const (
	nNull nodeKind = iota
	nTrue
	nFalse
	nNumber
	nString
	nArray
	nObject
)

func (k nodeKind) String() string {
	return [...]string{"null", "true", "false", "number", "string", "array", "object"}[k]
}

type node struct {
	kind       nodeKind
	start, end int // byte offsets, end is exclusive
	kids       []node
	keys       []node // object member names
}

// parseJSON parses src, which must be valid.
func parseJSON(src []byte) *node {
	p := &parser{s: src}
	n := p.value()
	return &n
}

type parser struct {
	s []byte
	i int
}

func (p *parser) ws() {
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case ' ', '\t', '\n', '\r':
			p.i++
		default:
			return
		}
	}
}

func (p *parser) str() node {
	st := p.i
	p.i++
	for p.s[p.i] != '"' {
		if p.s[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	p.i++
	return node{kind: nString, start: st, end: p.i}
}

func (p *parser) value() node {
	p.ws()
	st := p.i
	switch c := p.s[p.i]; {
	case c == '"':
		return p.str()
	case c == 't':
		p.i += 4
		return node{kind: nTrue, start: st, end: p.i}
	case c == 'n':
		p.i += 4
		return node{kind: nNull, start: st, end: p.i}
	case c == 'f':
		p.i += 5
		return node{kind: nFalse, start: st, end: p.i}
	case c == '[':
		n := node{kind: nArray, start: st}
		p.i++
		p.ws()
		for p.s[p.i] != ']' {
			n.kids = append(n.kids, p.value())
			p.ws()
			if p.s[p.i] == ',' {
				p.i++
			}
		}
		p.i++
		n.end = p.i
		return n
	case c == '{':
		n := node{kind: nObject, start: st}
		p.i++
		p.ws()
		for p.s[p.i] != '}' {
			p.ws()
			n.keys = append(n.keys, p.str())
			p.ws()
			p.i++ // colon
			n.kids = append(n.kids, p.value())
			p.ws()
			if p.s[p.i] == ',' {
				p.i++
			}
			p.ws()
		}
		p.i++
		n.end = p.i
		return n
	}
	for p.i < len(p.s) && strings.IndexByte("+-.0123456789eE", p.s[p.i]) >= 0 {
		p.i++
	}
	return node{kind: nNumber, start: st, end: p.i}
}

// refErr is the first error of a document.
type refErr struct {
	Index int
	Cause error
}

func (e *refErr) Error() string { return fmt.Sprintf("at %d: %v", e.Index, e.Cause) }

var errUndef = errors.New("outside of the specified domain")

// errBase64 and errRange stand for classes of errors.
var (
	errBase64 = errors.New("class base64.CorruptInputError")
	errRange  = errors.New("class strconv.ErrRange")
)

type refDec struct {
	src  []byte
	opts jscandec.DecodeOptions
}

// refDecode decodes valid JSON src into v. The returned error is nil,
// errUndef or of type *refErr.
func refDecode(src []byte, v reflect.Value, opts *jscandec.DecodeOptions) (err error) {
	return refDecodeNode(src, parseJSON(src), v, opts)
}

func refDecodeNode(
	src []byte, n *node, v reflect.Value, opts *jscandec.DecodeOptions,
) (err error) {
	d := &refDec{src: src, opts: *opts}
	defer func() {
		switch r := recover().(type) {
		case nil:
		case *refErr:
			err = r
		case error:
			if r == errUndef {
				err = r
				return
			}
			panic(r)
		default:
			panic(r)
		}
	}()
	d.value(n, v, 0)
	return nil
}

func (d *refDec) fail(n *node, cause error) {
	panic(&refErr{Index: n.start, Cause: cause})
}

func (d *refDec) text(n *node) string { return string(d.src[n.start:n.end]) }

// unq returns the unescaped contents of string node n.
func (d *refDec) unq(n *node) string { return refUnescape(d.src[n.start+1 : n.end-1]) }

// refUnescape unescapes the contents of a valid JSON string literal.
func refUnescape(s []byte) string {
	plain := true
	for _, c := range s {
		if c == '\\' || c >= utf8.RuneSelf {
			plain = false
			break
		}
	}
	if plain {
		return string(s)
	}
	var b strings.Builder
	hex := func(i int) (rune, bool) {
		if i+6 > len(s) || s[i] != '\\' || s[i+1] != 'u' {
			return 0, false
		}
		x, err := strconv.ParseUint(string(s[i+2:i+6]), 16, 32)
		return rune(x), err == nil
	}
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '\\' && s[i+1] == 'u':
			r, _ := hex(i)
			i += 6
			if r >= 0xD800 && r < 0xDC00 {
				if lo, ok := hex(i); ok && lo >= 0xDC00 && lo < 0xE000 {
					b.WriteRune((r-0xD800)<<10 + (lo - 0xDC00) + 0x10000)
					i += 6
					continue
				}
				r = 0xFFFD
			} else if r >= 0xDC00 && r < 0xE000 {
				r = 0xFFFD
			}
			b.WriteRune(r)
		case c == '\\':
			switch s[i+1] {
			case 'b':
				b.WriteByte(8)
			case 'f':
				b.WriteByte(12)
			case 'n':
				b.WriteByte(10)
			case 'r':
				b.WriteByte(13)
			case 't':
				b.WriteByte(9)
			default:
				b.WriteByte(s[i+1])
			}
			i += 2
		case c < utf8.RuneSelf:
			b.WriteByte(c)
			i++
		default:
			r, n := utf8.DecodeRune(s[i:])
			b.WriteRune(r)
			i += n
		}
	}
	return b.String()
}

func isNumberType(t reflect.Type) bool { return t == tpJSONNumber || t == tpJscanNumber }

var (
	tpJSONNumber  = reflect.TypeOf(json.Number(""))
	tpJscanNumber = reflect.TypeOf(jscandec.Number(""))
	tpJU          = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	tpTU          = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
)

func isJSONUnm(t reflect.Type) bool {
	return t.Implements(tpJU) || reflect.PointerTo(t).Implements(tpJU)
}

func isTextUnm(t reflect.Type) bool {
	return t.Implements(tpTU) || reflect.PointerTo(t).Implements(tpTU)
}

// validNumber tells whether s is exactly a JSON number literal and
// whether it's an integer.
func validNumber(s string) (ok, integer bool) {
	i := 0
	digits := func() bool {
		st := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > st
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	st := i
	if !digits() || s[st] == '0' && i-st > 1 {
		return false, false
	}
	integer = true
	if i < len(s) && s[i] == '.' {
		integer = false
		if i++; !digits() {
			return false, false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		integer = false
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if !digits() {
			return false, false
		}
	}
	return i == len(s), integer
}

func (d *refDec) value(n *node, v reflect.Value, depth int) {
	if !v.IsValid() {
		return
	}
	t := v.Type()
	// Pointers to unmarshalers and unmarshalers
	if t.Kind() == reflect.Pointer {
		if n.kind == nNull {
			v.Set(reflect.Zero(t))
			return
		}
		if v.IsNil() {
			v.Set(reflect.New(t.Elem()).Convert(t))
		}
		if t.NumMethod() > 0 && t.Name() != "" {
			panic(errUndef) // Can't exist
		}
		d.value(n, v.Elem(), depth)
		return
	}
	if isJSONUnm(t) {
		if err := v.Addr().Interface().(json.Unmarshaler).UnmarshalJSON(
			[]byte(d.text(n)),
		); err != nil {
			d.fail(n, err)
		}
		return
	}
	if isTextUnm(t) {
		switch n.kind {
		case nNull:
			if t.Kind() == reflect.Slice || t.Kind() == reflect.Map {
				v.Set(reflect.Zero(t))
			}
		case nString:
			if err := v.Addr().Interface().(encoding.TextUnmarshaler).UnmarshalText(
				[]byte(d.unq(n)),
			); err != nil {
				d.fail(n, err)
			}
		default:
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		return
	}
	if n.kind == nNull {
		switch t.Kind() {
		case reflect.Map, reflect.Slice, reflect.Interface:
			v.Set(reflect.Zero(t))
		}
		return
	}
	switch t.Kind() {
	case reflect.Interface:
		if t.NumMethod() != 0 {
			panic(errUndef)
		}
		if !v.IsNil() && v.Elem().Kind() == reflect.Pointer {
			panic(errUndef)
		}
		v.Set(reflect.ValueOf(d.any(n)))

	case reflect.Bool:
		switch n.kind {
		case nTrue:
			v.SetBool(true)
		case nFalse:
			v.SetBool(false)
		default:
			d.fail(n, jscandec.ErrUnexpectedValue)
		}

	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n.kind != nNumber {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		s := d.text(n)
		if _, integer := validNumber(s); !integer {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		x, err := strconv.ParseInt(s, 10, t.Bits())
		if err != nil {
			d.fail(n, jscandec.ErrIntegerOverflow)
		}
		v.SetInt(x)

	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.kind != nNumber {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		s := d.text(n)
		if _, integer := validNumber(s); !integer || s[0] == '-' {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		x, err := strconv.ParseUint(s, 10, t.Bits())
		if err != nil {
			d.fail(n, jscandec.ErrIntegerOverflow)
		}
		v.SetUint(x)

	case reflect.Float32, reflect.Float64:
		if n.kind != nNumber {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		x, err := strconv.ParseFloat(d.text(n), t.Bits())
		if err != nil {
			d.fail(n, errRange)
		}
		v.SetFloat(x)

	case reflect.String:
		if isNumberType(t) {
			switch n.kind {
			case nNumber:
				v.SetString(d.text(n))
			case nString:
				s := d.unq(n)
				if ok, _ := validNumber(s); !ok {
					d.fail(n, jscandec.ErrUnexpectedValue)
				}
				v.SetString(s)
			default:
				d.fail(n, jscandec.ErrUnexpectedValue)
			}
			return
		}
		if n.kind != nString {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		v.SetString(d.unq(n))

	case reflect.Slice:
		if n.kind == nString && t.Elem().Kind() == reflect.Uint8 {
			if isJSONUnm(t.Elem()) || isTextUnm(t.Elem()) {
				panic(errUndef)
			}
			b, err := base64.StdEncoding.DecodeString(d.unq(n))
			if err != nil {
				d.fail(n, errBase64)
			}
			v.SetBytes(b)
			return
		}
		if n.kind != nArray {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		k := len(n.kids)
		switch {
		case k == 0:
			v.Set(reflect.MakeSlice(t, 0, 0))
			return
		case v.Cap() < k:
			// Go 1.21 merges into left-over elements beyond the length.
			full := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				if !full.Index(i).IsZero() {
					panic(errUndef)
				}
			}
			s := reflect.MakeSlice(t, k, k)
			reflect.Copy(s, v)
			v.Set(s)
		default:
			v.SetLen(k)
		}
		for i := range n.kids {
			d.value(&n.kids[i], v.Index(i), depth+1)
		}

	case reflect.Array:
		if n.kind != nArray {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		for i := range n.kids {
			if i < v.Len() {
				d.value(&n.kids[i], v.Index(i), depth+1)
			}
		}
		for i := len(n.kids); i < v.Len(); i++ {
			v.Index(i).Set(reflect.Zero(t.Elem()))
		}

	case reflect.Map:
		if n.kind != nObject {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(t))
		}
		for i := range n.kids {
			k := d.mapKey(&n.keys[i], t.Key())
			e := reflect.New(t.Elem()).Elem()
			d.value(&n.kids[i], e, depth+1)
			v.SetMapIndex(k, e)
		}

	case reflect.Struct:
		if n.kind != nObject {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		fields := structFields(t)
		for i := range n.kids {
			kn := &n.keys[i]
			var name string
			if d.opts.DisableFieldNameUnescaping {
				name = string(d.src[kn.start+1 : kn.end-1])
			} else {
				name = d.unq(kn)
			}
			f := findField(fields, name, d.opts.DisableCaseInsensitiveMatching)
			if f == nil {
				if d.opts.DisallowUnknownFields {
					d.fail(kn, jscandec.ErrUnknownField)
				}
				continue
			}
			if f.quoted {
				d.quoted(&n.kids[i], v.Field(f.index))
				continue
			}
			d.value(&n.kids[i], v.Field(f.index), depth+1)
		}
	default:
		panic(errUndef)
	}
}

// quoted decodes the value of a field that has the string tag option.
func (d *refDec) quoted(n *node, v reflect.Value) {
	if v.Kind() == reflect.Pointer {
		if n.kind == nNull {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		if n.kind == nString && d.unq(n) == "null" {
			panic(errUndef)
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	if n.kind == nNull {
		return
	}
	if n.kind != nString {
		d.fail(n, jscandec.ErrUnexpectedValue)
	}
	s := d.unq(n)
	if s == "null" {
		return
	}
	t := v.Type()
	bad := func() { d.fail(n, jscandec.ErrUnexpectedValue) }
	okNum, integer := validNumber(s)
	switch v.Kind() {
	case reflect.Bool:
		switch s {
		case "true":
			v.SetBool(true)
		case "false":
			v.SetBool(false)
		default:
			bad()
		}
	case reflect.String:
		var x string
		if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' ||
			json.Unmarshal([]byte(s), &x) != nil {
			bad()
		}
		v.SetString(x)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, err := strconv.ParseInt(s, 10, t.Bits())
		if !okNum && err == nil {
			panic(errUndef)
		}
		if !integer || err != nil {
			bad()
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, err := strconv.ParseUint(s, 10, t.Bits())
		if !okNum && err == nil {
			panic(errUndef)
		}
		if !integer || err != nil {
			bad()
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		x, err := strconv.ParseFloat(s, t.Bits())
		if !okNum && err == nil {
			panic(errUndef)
		}
		if !okNum {
			bad()
		}
		if err != nil {
			d.fail(n, errRange)
		}
		v.SetFloat(x)
	default:
		panic(errUndef)
	}
}

func (d *refDec) mapKey(n *node, t reflect.Type) reflect.Value {
	k := reflect.New(t).Elem()
	s := d.unq(n)
	if reflect.PointerTo(t).Implements(tpTU) {
		if isJSONUnm(t) {
			panic(errUndef)
		}
		if err := k.Addr().Interface().(encoding.TextUnmarshaler).UnmarshalText(
			[]byte(s),
		); err != nil {
			d.fail(n, err)
		}
		return k
	}
	switch t.Kind() {
	case reflect.String:
		k.SetString(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, err := strconv.ParseInt(s, 10, t.Bits())
		if err != nil {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		k.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, err := strconv.ParseUint(s, 10, t.Bits())
		if err != nil {
			d.fail(n, jscandec.ErrUnexpectedValue)
		}
		k.SetUint(x)
	default:
		panic(errUndef)
	}
	return k
}

func (d *refDec) any(n *node) any {
	switch n.kind {
	case nNull:
		return nil
	case nTrue:
		return true
	case nFalse:
		return false
	case nString:
		return d.unq(n)
	case nNumber:
		x, err := strconv.ParseFloat(d.text(n), 64)
		if err != nil {
			d.fail(n, errRange)
		}
		return x
	case nArray:
		l := make([]any, len(n.kids))
		for i := range n.kids {
			l[i] = d.any(&n.kids[i])
		}
		return l
	}
	m := make(map[string]any, len(n.kids))
	for i := range n.kids {
		m[d.unq(&n.keys[i])] = d.any(&n.kids[i])
	}
	return m
}

type refField struct {
	name   string
	index  int
	tagged bool
	quoted bool
	typ    reflect.Type
}

var structFieldsCache = map[reflect.Type][]refField{}

// structFields returns the fields of t that members can be decoded into.
// Embedded structs aren't supported.
func structFields(t reflect.Type) []refField {
	if f, ok := structFieldsCache[t]; ok {
		return f
	}
	var all []refField
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		tag := f.Tag.Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		rf := refField{name: f.Name, index: i, typ: f.Type}
		if refValidName(parts[0]) {
			rf.name, rf.tagged = parts[0], true
		}
		for _, o := range parts[1:] {
			if o == "string" {
				ft := f.Type
				if ft.Name() == "" && ft.Kind() == reflect.Pointer {
					ft = ft.Elem()
				}
				rf.quoted = quotable(ft)
			}
		}
		all = append(all, rf)
	}
	var out []refField
	for i, f := range all {
		n, nt := 0, 0 // fields of this name, of which tagged
		for _, g := range all {
			if g.name == f.name {
				n++
				if g.tagged {
					nt++
				}
			}
		}
		if n == 1 || f.tagged && nt == 1 {
			out = append(out, all[i])
		}
	}
	structFieldsCache[t] = out
	return out
}

func quotable(t reflect.Type) bool {
	if isNumberType(t) || isJSONUnm(t) || isTextUnm(t) {
		return false
	}
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

func refValidName(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) {
			continue
		}
		if !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return true
}

func findField(fields []refField, name string, exact bool) *refField {
	for i := range fields {
		if fields[i].name == name {
			return &fields[i]
		}
	}
	if !exact {
		for i := range fields {
			if strings.EqualFold(fields[i].name, name) {
				return &fields[i]
			}
		}
	}
	return nil
}

// causeMatches tells whether err is what the reference error cause stands for.
func causeMatches(err, cause error) bool {
	if err == cause {
		return true
	}
	switch cause {
	case errBase64:
		var c base64.CorruptInputError
		return errors.As(err, &c)
	case errRange:
		return errors.Is(err, strconv.ErrRange)
	case jscandec.ErrUnexpectedValue, jscandec.ErrIntegerOverflow,
		jscandec.ErrUnknownField, jscandec.ErrExceededMaxDepth, errBoom:
		return err == cause
	}
	var a, b *UnmError
	if errors.As(cause, &b) {
		return errors.As(err, &a) && a.Data == b.Data
	}
	return err.Error() == cause.Error()
}

// checkNewDecoder predicts whether NewDecoder must support t: 1 = must be
// supported, 0 = must be rejected, -1 = unspecified.
func supported(t reflect.Type, seen map[reflect.Type]bool) int {
	if seen[t] {
		return 1
	}
	if t.Kind() == reflect.Interface {
		if t.NumMethod() > 0 {
			return 0
		}
		return 1
	}
	if isJSONUnm(t) || isTextUnm(t) {
		return 1
	}
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return 1
	case reflect.Pointer, reflect.Slice:
		return supported(t.Elem(), seen)
	case reflect.Array:
		if t.Len() == 0 {
			return -1
		}
		return supported(t.Elem(), seen)
	case reflect.Map:
		k := t.Key()
		if !reflect.PointerTo(k).Implements(tpTU) {
			switch k.Kind() {
			case reflect.String,
				reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
				reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			case reflect.Uintptr:
				return -1
			default:
				return 0
			}
		}
		return supported(t.Elem(), seen)
	case reflect.Struct:
		seen[t] = true
		r := 1
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Tag.Get("json") == "-" {
				continue
			}
			switch supported(f.Type, seen) {
			case 0:
				r = 0
			case -1:
				if r == 1 {
					r = -1
				}
			}
		}
		return r
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		return 0
	}
	return -1
}
