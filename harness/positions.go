package main

import (
	"encoding/json"
	"reflect"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

// Pos has T at many kinds of positions.
type Pos[T any] struct {
	A  T                       `json:"a"`
	P  *T                      `json:"p"`
	PP **T                     `json:"pp"`
	S  []T                     `json:"s"`
	R  [3]T                    `json:"r"`
	M  map[string]T            `json:"m"`
	I  map[int]T               `json:"i"`
	SS [][]T                   `json:"ss"`
	SP []*T                    `json:"sp"`
	MS map[string][]T          `json:"ms"`
	MM map[int8]map[NString]*T `json:"mm"`
	RR [2][2]T                 `json:"rr"`
	PS *[]T                    `json:"ps"`
	N  struct {
		X int8   `json:"x"`
		V T      `json:"v"`
		Y string `json:"y"`
	} `json:"n"`
	NS []struct {
		V T    `json:"v"`
		W bool `json:"w"`
	} `json:"ns"`
	Z uint16 `json:"z"`
}

// PosR is a recursive type that has T at some positions.
type PosR[T any] struct {
	V  T                  `json:"v"`
	K  []PosR[T]          `json:"k"`
	X  *PosR[T]           `json:"x"`
	M  map[string]PosR[T] `json:"m"`
	MS map[string][]T     `json:"ms"`
	R  [2]T               `json:"r"`
	SS [][]*T             `json:"ss"`
	MP map[int16]*PosR[T] `json:"mp"`
	MK map[string]*[]T    `json:"mk"`
	SK [][]PosR[T]        `json:"sk"`
	Z  uint16             `json:"z"`
}

// posSet are the types derived from an element type.
type posSet struct {
	Name string
	T    reflect.Type // the element type
	R    reflect.Type
	Root *Type // *T
	Pos  *Type // *Pos[T]
	PosR *Type // *PosR[T]
}

var posSets []*posSet

func last() *Type { return allTypes[len(allTypes)-1] }

func regPos2[T, R any](name string) {
	p := &posSet{Name: name}
	regP2[T, R](name)
	p.Root = last()
	regP2[Pos[T], Pos[R]]("Pos[" + name + "]")
	p.Pos = last()
	regP2[PosR[T], PosR[R]]("PosR[" + name + "]")
	p.PosR = last()
	p.T, p.R = p.Root.T.Elem(), p.Root.R.Elem()
	posSets = append(posSets, p)
}

func regPos[T any](name string) { regPos2[T, T](name) }

func regPositions() {
	regPos[bool]("bool")
	regPos[string]("string")
	regPos[int]("int")
	regPos[int8]("int8")
	regPos[int16]("int16")
	regPos[int32]("int32")
	regPos[int64]("int64")
	regPos[uint]("uint")
	regPos[uint8]("uint8")
	regPos[uint16]("uint16")
	regPos[uint32]("uint32")
	regPos[uint64]("uint64")
	regPos[float32]("float32")
	regPos[float64]("float64")
	regPos[any]("any")
	regPos2[jscandec.Number, json.Number]("Number")
	regPos[NInt8]("NInt8")
	regPos[NInt32]("NInt32")
	regPos[NUint]("NUint")
	regPos[NUint8]("NUint8")
	regPos[NF32]("NF32")
	regPos[NF64]("NF64")
	regPos[NString]("NString")
	regPos[NBool]("NBool")
	regPos[NAny]("NAny")
	regPos[struct{}]("struct{}")
	regPos[[0]int]("[0]int")
	regPos[S2]("S2")
	regPos[S13]("S13")
	regPos[SStr]("SStr")
	regPos[SStrP]("SStrP")
	regPos[SAmb]("SAmb")
	regPos[UJ]("UJ")
	regPos[UT]("UT")
	regPos[UTStr]("UTStr")
	regPos[UJStr]("UJStr")
	regPos[UJVal]("UJVal")
	regPos[UBoth]("UBoth")
	regPos[UJEmpty]("UJEmpty")
	regPos[[]byte]("[]byte")
	regPos[[]int]("[]int")
	regPos[[]string]("[]string")
	regPos[[]struct{}]("[]struct{}")
	regPos[[]any]("[]any")
	regPos[map[string]any]("map[string]any")
	regPos[map[string]string]("map[string]string")
	regPos[map[int]*S2]("map[int]*S2")
	regPos[map[UTStr]UT]("map[UTStr]UT")
	regPos[RMix]("RMix")
	regPos[RTree]("RTree")
	regPos[RMutA]("RMutA")
	regPos[json.RawMessage]("json.RawMessage")
	regPos[*int]("*int")
	regPos[*UJ]("*UJ")
	regPos[[2]int16]("[2]int16")
	regPos[[3]string]("[3]string")
	regPos[SUnm]("SUnm")
	regPos[SPad]("SPad")
}

// posTypes returns the types derived from the element types selected by pred.
func posTypes(pred func(p *posSet) bool) (l []*Type) {
	for _, p := range posSets {
		if pred(p) {
			l = append(l, p.Root, p.Pos, p.PosR)
		}
	}
	if len(l) == 0 {
		panic("no types selected")
	}
	return l
}

func posTypesOf(sets []*posSet) (l []*Type) {
	for _, p := range sets {
		l = append(l, p.Root, p.Pos, p.PosR)
	}
	return l
}

func kindIn(k reflect.Kind, ks ...reflect.Kind) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

func isIntKind(k reflect.Kind) bool {
	return k >= reflect.Int && k <= reflect.Uint64
}

func isFloatKind(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }
