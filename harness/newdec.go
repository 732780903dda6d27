package main

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

// Types whose support is decided by NewDecoder.

type (
	XChan      chan int
	XFunc      func()
	XSelfSlice []XSelfSlice
	XSelfMap   map[string]XSelfMap
	XSelfPtr   *XSelfPtr
	XSelfArr   []*[2]XSelfArr
	XMapSlice  map[int][]XMapSlice
	XRecArr    struct {
		A *[2]XRecArr
		V int
	}
	XBadField struct {
		A int
		B chan int
	}
	XBadDeep struct {
		A struct {
			B []map[string]struct {
				C *func()
			}
		}
	}
	XIgnored struct {
		A int
		B chan int       `json:"-"`
		c func()         //nolint
		d map[bool]int   //nolint
		E map[string]int `json:"-,"`
	}
	XIface interface{ Foo() }
	XRecP  struct{ P **XRecP }
	XRecPS struct{ P []*[]*XRecPS }
	XMut1  struct{ M map[string]XMut2 }
	XMut2  struct{ S []XMut1 }
	XTagU1 struct {
		A []int `json:",string"`
	}
	XTagU2 struct {
		A int `json:"a,string"`
		B UJ  `json:"b,string"`
	}
	XTagU3 struct {
		A int `json:"a,string"`
		B struct {
			C []struct {
				D any `json:",string"`
			}
		}
	}
	XTagU4 struct {
		A **int `json:"a,string"`
	}
	XTagU5 struct {
		A *[]int `json:"a,string"`
	}
	XTagU6 struct {
		A *int    `json:"a,string"`
		B *string `json:",omitempty,string"`
		C bool    `json:"c,string"`
		d []int   `json:"d,string"` //nolint
		E []int   `json:"-"`
		F []int   `json:"f,stringy"`
		G []int   `json:"string"`
	}
	XTagU7 struct {
		A XPtrInt `json:"a,string"`
	}
	XPtrInt *int
	XTagU8  struct {
		A UT `json:"a,omitempty,string"`
	}
	XTagU9 struct {
		A int      `json:"a,string"`
		B [0]int   `json:"b,string"`
		C struct{} `json:"c,string"`
	}
	XTagUA struct {
		N *XTagUA `json:"n"`
		A NInt8   `json:"a,string"`
		B NString `json:"b,string"`
		M map[string]struct {
			C float32 `json:"c,string"`
		}
	}
	XTagUB struct {
		M map[string]*struct {
			C *map[string]int `json:"c,string"`
		}
	}
)

// sup is an expectation of NewDecoder for a type.
type sup struct {
	name   string
	want   int                                  // 1 supported, 0 unsupported
	newDec func(str bool, o bool) (Dec, error)  // o = DisallowStringTagOptOnUnsupportedTypes
	unm    func(str bool, in string) error      // Unmarshal
	dec    func(str bool, in string) (int, any) // decode after NewDecoder
	typ    reflect.Type
	tagUns bool // uses the string option on unsupported types
}

var sups []*sup

func regSup[T any](want int, tagUns bool) {
	var z *T
	t := reflect.TypeOf(z).Elem()
	s := &sup{name: t.String(), want: want, typ: t, tagUns: tagUns}
	s.newDec = func(str, o bool) (Dec, error) {
		tk := NewToks()
		io := &jscandec.InitOptions{DisallowStringTagOptOnUnsupportedTypes: o}
		want := *io
		var d Dec
		var err error
		if str {
			var x *jscandec.Decoder[string, T]
			x, err = jscandec.NewDecoder[string, T](tk.S, io)
			d = &decS[T]{x}
		} else {
			var x *jscandec.Decoder[[]byte, T]
			x, err = jscandec.NewDecoder[[]byte, T](tk.B, io)
			d = &decB[T]{x}
		}
		if *io != want {
			panic("init options modified")
		}
		return d, err
	}
	s.unm = func(str bool, in string) error {
		v := new(T)
		if str {
			return jscandec.Unmarshal(in, v)
		}
		return jscandec.Unmarshal([]byte(in), v)
	}
	s.dec = func(str bool, in string) (int, any) {
		v := new(T)
		d, err := s.newDec(str, false)
		if err != nil {
			return 0, err
		}
		i, err := d.Decode([]byte(in), v, jscandec.DefaultOptions)
		return i, err
	}
	sups = append(sups, s)
}

func initSups() {
	if sups != nil {
		return
	}
	// Unsupported
	regSup[chan int](0, false)
	regSup[func()](0, false)
	regSup[func(int) string](0, false)
	regSup[complex64](0, false)
	regSup[complex128](0, false)
	regSup[unsafe.Pointer](0, false)
	regSup[XChan](0, false)
	regSup[XFunc](0, false)
	regSup[XIface](0, false)
	regSup[error](0, false)
	regSup[fmt.Stringer](0, false)
	regSup[json.Unmarshaler](0, false)
	regSup[encoding.TextUnmarshaler](0, false)
	regSup[[]chan int](0, false)
	regSup[*func()](0, false)
	regSup[**complex64](0, false)
	regSup[[2]chan string](0, false)
	regSup[[][]complex128](0, false)
	regSup[map[string]chan int](0, false)
	regSup[map[int]func()](0, false)
	regSup[[]error](0, false)
	regSup[map[string]XIface](0, false)
	regSup[*json.Unmarshaler](0, false)
	regSup[map[float64]int](0, false)
	regSup[map[float32]string](0, false)
	regSup[map[bool]int](0, false)
	regSup[map[any]int](0, false)
	regSup[map[[2]int]int](0, false)
	regSup[map[struct{ A int }]int](0, false)
	regSup[map[*int]int](0, false)
	regSup[map[complex64]int](0, false)
	regSup[map[chan int]int](0, false)
	regSup[map[error]int](0, false)
	regSup[[]map[bool]string](0, false)
	regSup[map[string]map[float64]string](0, false)
	regSup[struct{ M map[bool]int }](0, false)
	regSup[XBadField](0, false)
	regSup[XBadDeep](0, false)
	regSup[[]XBadField](0, false)
	regSup[map[string]XBadDeep](0, false)
	regSup[*XBadField](0, false)
	regSup[struct{ A error }](0, false)
	regSup[struct {
		A int
		B *XBadDeep
	}](0, false)
	regSup[struct {
		R []RTree
		C complex64
	}](0, false)
	// Recursion without a struct isn't supported
	regSup[XSelfSlice](0, false)
	regSup[XSelfMap](0, false)
	regSup[XSelfPtr](0, false)
	regSup[XMapSlice](0, false)
	regSup[XSelfArr](0, false)
	regSup[[]XSelfSlice](0, false)
	regSup[struct{ A XSelfMap }](0, false)
	// Supported
	regSup[XIgnored](1, false)
	regSup[XMut1](1, false)
	regSup[XMut2](1, false)
	regSup[map[string]XMut2](1, false)
	regSup[map[UT]int](1, false)
	regSup[map[*UT]int](-1, false)
	regSup[map[NInt8]XIgnored](1, false)
	regSup[[]*RMix](1, false)
	regSup[struct {
		A RTree
		B []RTree
		C map[string]RTree
		D *RTree
	}](1, false)
	regSup[XRecP](-1, false)
	regSup[XRecPS](-1, false)
	regSup[XRecArr](-1, false)
	regSup[uintptr](-1, false)
	regSup[map[uintptr]int](-1, false)
	regSup[[0]chan int](-1, false)
	// String option
	regSup[XTagU1](1, true)
	regSup[XTagU2](1, true)
	regSup[XTagU3](1, true)
	regSup[XTagU4](1, true)
	regSup[XTagU5](1, true)
	regSup[XTagU6](1, false)
	regSup[XTagU7](1, true)
	regSup[XTagU8](1, true)
	regSup[XTagU9](1, true)
	regSup[XTagUA](1, false)
	regSup[XTagUB](1, true)
	regSup[[]XTagU1](1, true)
	regSup[map[string]*XTagU3](1, true)
	regSup[*[2]XTagU6](1, false)
	regSup[SStr](1, false)
	regSup[SStrP](1, false)
	regSup[SStrUns](1, true)
	regSup[SStrMix](1, false)
	regSup[[][]map[int]SStrMix](1, false)
	regSup[RMix](1, false)
	regSup[SUnm](1, false)
	regSup[S13](1, false)
	regSup[struct {
		A jscandec.Number `json:",string"`
	}](1, true)
	regSup[struct {
		A *jscandec.Number `json:",string"`
	}](1, true)
}

var supDocs = []string{"null", "0", `""`, "[]", "{}", "[[]]", `{"a":[]}`, `{"A":null}`, "[", "", "1.5", "true", `{"B":1}`, `{"M":{"true":1}}`, `[null,{}]`, "[1,2,3]"}

// newDecoderPhase checks which types NewDecoder and Unmarshal accept.
func newDecoderPhase(name string, n int) Phase {
	return Phase{
		Name: name, Variant: "plain", Quick: n, Thor: n, Shards: 1,
		Init: func(w *W) { initSups() },
		Run: func(w *W, idx uint64, r *rng) {
			for _, s := range sups {
				for _, str := range []bool{false, true} {
					s := s
					w.Evals++
					w.nontrivial(mix(hashStr(s.name), b2u(str)))
					w.desc = func() string { return fmt.Sprintf("type=%s string=%v", s.name, str) }
					var d Dec
					res := w.call(func() (i int, err error) { d, err = s.newDec(str, false); return -1, err })
					_ = d
					switch {
					case s.want == 1 && res.Err != nil:
						w.fail("NewDecoder rejected a supported type: %v", res.Err)
					case s.want == 0 && res.Err == nil:
						w.fail("NewDecoder accepted an unsupported type")
					}
					if res.Err != nil {
						w.obs("types-rejected")
					} else {
						w.obs("types-accepted")
					}
					for _, in := range supDocs {
						in := in
						w.Evals++
						ures := w.call(func() (int, error) { return -1, s.unm(str, in) })
						if res.Err != nil {
							if ures.Err == nil {
								w.fail("Unmarshal of %q into an unsupported type succeeded", in)
							}
							if ures.Err.Error() != res.Err.Error() {
								w.fail("Unmarshal of %q: %v, NewDecoder: %v", in, ures.Err, res.Err)
							}
							continue
						}
						dres := w.call(func() (int, error) {
							i, err := s.dec(str, in)
							e, _ := err.(error)
							return i, e
						})
						if !sameErr(dres.Err, ures.Err) {
							w.fail("Unmarshal of %q: %v, Decode: %v", in, ures.Err, dres.Err)
						}
					}
				}
			}
			for _, t := range allTypes {
				t := t
				w.desc = func() string { return "type=" + t.Name }
				for _, nd := range []func(*Toks, *jscandec.InitOptions) (Dec, error){t.NewB, t.NewS} {
					res := w.call(func() (int, error) { _, err := nd(NewToks(), jscandec.DefaultInitOptions); return -1, err })
					if res.Err != nil {
						w.fail("NewDecoder rejected a supported type: %v", res.Err)
					}
					w.Evals++
					w.obs("types-accepted")
				}
			}
		},
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// tagUnsupported tells whether the string option is used on a type that doesn't
// support it anywhere in t.
func tagUnsupported(t reflect.Type, seen map[reflect.Type]bool) bool {
	if t.Kind() != reflect.Pointer && (isJSONUnm(t) || isTextUnm(t)) {
		return false
	}
	if seen[t] {
		return false
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map:
		return tagUnsupported(t.Elem(), seen)
	case reflect.Array:
		return t.Len() > 0 && tagUnsupported(t.Elem(), seen)
	case reflect.Struct:
		seen[t] = true
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Tag.Get("json") == "-" {
				continue
			}
			for _, o := range strings.Split(f.Tag.Get("json"), ",")[1:] {
				ft := f.Type
				if ft.Name() == "" && ft.Kind() == reflect.Pointer {
					ft = ft.Elem()
				}
				if o == "string" && !quotable(ft) {
					return true
				}
			}
			if tagUnsupported(f.Type, seen) {
				return true
			}
		}
	}
	return false
}

// initOptsPhase checks DisallowStringTagOptOnUnsupportedTypes.
func initOptsPhase(name string, n int) Phase {
	return Phase{
		Name: name, Variant: "plain", Quick: n, Thor: n, Shards: 1,
		Init: func(w *W) { initSups() },
		Run: func(w *W, idx uint64, r *rng) {
			check := func(tn string, want bool, nd func(o bool) error) {
				w.desc = func() string { return "type=" + tn }
				for _, o := range []bool{false, true} {
					w.Evals++
					w.obs("init-options-checked")
					res := w.call(func() (int, error) { return -1, nd(o) })
					rejected := res.Err != nil
					if rejected != (o && want) {
						w.fail("DisallowStringTagOptOnUnsupportedTypes=%v: NewDecoder returned %v", o, res.Err)
					}
					if rejected {
						w.obs("init-options-rejected")
						if !errors.Is(res.Err, jscandec.ErrStringTagOptionOnUnsupportedType) {
							w.fail("NewDecoder returned %v", res.Err)
						}
					}
				}
			}
			for _, s := range sups {
				if s.want != 1 {
					continue
				}
				s := s
				if x := tagUnsupported(s.typ, map[reflect.Type]bool{}); x != s.tagUns {
					panic(fmt.Sprintf("harness: tagUnsupported(%s) = %v", s.name, x))
				}
				for _, str := range []bool{false, true} {
					check(s.name, s.tagUns, func(o bool) error { _, err := s.newDec(str, o); return err })
				}
			}
			for _, t := range allTypes {
				t := t
				want := tagUnsupported(t.T, map[reflect.Type]bool{})
				for _, nd := range []func(*Toks, *jscandec.InitOptions) (Dec, error){t.NewB, t.NewS} {
					check(t.Name, want, func(o bool) error {
						_, err := nd(NewToks(), &jscandec.InitOptions{DisallowStringTagOptOnUnsupportedTypes: o})
						return err
					})
				}
			}
			// The option doesn't affect decoding.
			for i := 0; i < 3000; i++ {
				t := allTypes[r.n(len(allTypes))]
				if tagUnsupported(t.T, map[reflect.Type]bool{}) {
					continue
				}
				d, err := t.NewB(NewToks(), &jscandec.InitOptions{DisallowStringTagOptOnUnsupportedTypes: true})
				if err != nil {
					w.fail("NewDecoder: %v", err)
				}
				doc := newGen(r, profDefault).Doc(t.R)
				w.desc = func() string { return fmt.Sprintf("type=%s input=%q", t.Name, doc) }
				w.Evals++
				w.nontrivial(mix(hashStr(t.Name), hashBytes(doc)))
				dst, ref := reflect.New(t.T), reflect.New(t.R)
				o := jscandec.DecodeOptions{}
				res := w.call(func() (int, error) { return d.Decode(exact(doc), dst.Interface(), &o) })
				rerr := refDecode(doc, ref.Elem(), &o)
				if rerr == errUndef {
					continue
				}
				if (rerr == nil) != (res.Err == nil && res.Panic == nil) {
					w.fail("DisallowStringTagOptOnUnsupportedTypes: error %v, expected %v", res.Err, rerr)
				}
				if rerr == nil {
					if d := equalValues(dst.Elem(), ref.Elem()); d != "" {
						w.fail("DisallowStringTagOptOnUnsupportedTypes: wrong value: %s", d)
					}
				}
			}
			if *jscandec.DefaultInitOptions != (jscandec.InitOptions{}) || *jscandec.DefaultOptions != (jscandec.DecodeOptions{}) {
				w.fail("the default options were modified")
			}
		},
	}
}
