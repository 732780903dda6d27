package main

import (
	"reflect"
	"unsafe"

	jscandec "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
)

// Dec is a type-erased *jscandec.Decoder[S, T].
type Dec interface {
	// Decode calls Decode with in converted to S. dst must be a *T.
	Decode(in []byte, dst any, o *jscandec.DecodeOptions) (int, error)
}

type decB[T any] struct {
	d *jscandec.Decoder[[]byte, T]
}

func (x *decB[T]) Decode(in []byte, dst any, o *jscandec.DecodeOptions) (int, error) {
	return x.d.Decode(in, dst.(*T), o)
}

type decS[T any] struct {
	d *jscandec.Decoder[string, T]
}

func (x *decS[T]) Decode(in []byte, dst any, o *jscandec.DecodeOptions) (int, error) {
	return x.d.Decode(string(in), dst.(*T), o)
}

// DecodeStr decodes exactly the given string (no copy made by the harness).
func (x *decS[T]) DecodeStr(in string, dst any, o *jscandec.DecodeOptions) (int, error) {
	return x.d.Decode(in, dst.(*T), o)
}

// Toks is the pair of tokenizers shared by decoders.
type Toks struct {
	B *jscan.Tokenizer[[]byte]
	S *jscan.Tokenizer[string]
}

func NewToks() *Toks {
	return &Toks{
		B: jscan.NewTokenizer[[]byte](2, 4),
		S: jscan.NewTokenizer[string](2, 4),
	}
}

// Type is a destination type T together with its reference type R, which
// is T with jscandec.Number replaced by json.Number.
type Type struct {
	Name string
	T, R reflect.Type
	NewB func(*Toks, *jscandec.InitOptions) (Dec, error)
	NewS func(*Toks, *jscandec.InitOptions) (Dec, error)
	UnmB func(in []byte, dst any) error
	UnmS func(in []byte, dst any) error
	// NewDst returns a zero *T between two canaries and a function that
	// tells whether the canaries are intact.
	NewDst func() (dst any, intact func() bool)
	// Direct is true if T itself was the type registered.
	Direct bool
	Feat   Feat // set by initTypes
	Recur  bool
}

// Feat is a bit set of features of a type, used to select types.
type Feat uint64

const (
	FBool Feat = 1 << iota
	FInt
	FFloat
	FString
	FAny
	FNumber
	FStruct
	FEmptyStruct
	FSlice
	FArray
	FMap
	FPtr
	FStringTag
	FJSONUnm
	FTextUnm
	FRecur
	FBytes
	FKeyInt
	FKeyText
	FKeyStr
	FZeroSize
)

var allTypes []*Type

const canaryWord = 0xA5C3_9E17_D24B_60F1

type guarded[T any] struct {
	pre  [4]uint64
	v    T
	post [4]uint64
}

func mk[T, R any](name string, direct bool) *Type {
	var zt *T
	var zr *R
	return &Type{
		Name:   name,
		T:      reflect.TypeOf(zt).Elem(),
		R:      reflect.TypeOf(zr).Elem(),
		Direct: direct,
		NewB: func(tk *Toks, o *jscandec.InitOptions) (Dec, error) {
			d, err := jscandec.NewDecoder[[]byte, T](tk.B, o)
			if err != nil {
				return nil, err
			}
			return &decB[T]{d}, nil
		},
		NewS: func(tk *Toks, o *jscandec.InitOptions) (Dec, error) {
			d, err := jscandec.NewDecoder[string, T](tk.S, o)
			if err != nil {
				return nil, err
			}
			return &decS[T]{d}, nil
		},
		UnmB: func(in []byte, dst any) error {
			return jscandec.Unmarshal(in, dst.(*T))
		},
		UnmS: func(in []byte, dst any) error {
			return jscandec.Unmarshal(string(in), dst.(*T))
		},
		NewDst: func() (any, func() bool) {
			g := new(guarded[T])
			for i := range g.pre {
				g.pre[i] = canaryWord + uint64(i)
				g.post[i] = canaryWord ^ uint64(i)
			}
			return &g.v, func() bool {
				for i := range g.pre {
					if g.pre[i] != canaryWord+uint64(i) ||
						g.post[i] != canaryWord^uint64(i) {
						return false
					}
				}
				return true
			}
		},
	}
}

// reg registers T as a root type. R is equal to T.
func reg[T any](name string) { allTypes = append(allTypes, mk[T, T](name, true)) }

// reg2 registers T with a different reference type R.
func reg2[T, R any](name string) { allTypes = append(allTypes, mk[T, R](name, true)) }

// regP registers *T as a root type, which is much cheaper to compile since all
// pointer types share one instantiation of the decoder.
func regP[T any](name string) { allTypes = append(allTypes, mk[*T, *T]("*"+name, false)) }

// regP2 is like regP but with a different reference type.
func regP2[T, R any](name string) { allTypes = append(allTypes, mk[*T, *R]("*"+name, false)) }

var _ = unsafe.Pointer(nil)
