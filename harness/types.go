package main

import (
	"encoding/json"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

type (
	NBool   bool
	NString string
	NInt    int
	NInt8   int8
	NInt16  int16
	NInt32  int32
	NInt64  int64
	NUint   uint
	NUint8  uint8
	NUint16 uint16
	NUint32 uint32
	NUint64 uint64
	NF32    float32
	NF64    float64
	NAny    any
	NSlice  []int
	NBytes  []byte
	NMap    map[string]int
	NMapSS  map[NString]NString
	NArr    [3]int16
	NPtr    *int
	Empty   struct{}
)

// Structs

type S1 struct{ A int }

type S2 struct {
	A string `json:"a"`
	B int8   `json:"b"`
}

type S3 struct {
	Name   string   `json:"name"`
	Number int      `json:"number"`
	Tags   []string `json:"tags"`
}

type S4 struct{ X, Y, Z, W float64 }

type S5[N ~string] struct {
	A bool `json:"a"`
	x int
	B uint8 `json:"A"`
	C string
	D *int16 `json:"d,omitempty"`
	E N      `json:"e"`
	I any    `json:"-"`
	F any    `json:"-,"`
	G struct {
		A int
		B []struct{ C, D string }
	}
}

type S9 struct {
	F1, F2, F3, F4, F5, F6, F7, F8, F9 int
}

type S13 struct {
	Aa  int8           `json:"aa"`
	AA  int16          `json:"AA"`
	AAa *string        `json:"aAa"`
	K   string         `json:"kelvin"`
	S   float32        `json:"ſ"`
	Ue  []any          `json:"üÜ"`
	M   map[string]int `json:"m"`
	N1  struct{}       `json:"n1"`
	N2  [0]int         `json:"n2"`
	N3  [2]bool        `json:"n3"`
	Z   uint64         `json:"z"`
	YY  *S2            `json:"yy"`
	END string         `json:"end"`
}

// SPad has fields of sizes that need padding.
type SPad struct {
	A bool
	B int64
	C bool
	D int16
	E bool
	F int32
	G uint8
	H string
	I bool
	J [3]uint8
	K bool
	L float32
	M bool
	N *bool
	O bool
}

// SUnexp has fields to be ignored.
type SUnexp struct {
	a chan int
	A int
	b func()
	B string   `json:"b"`
	C chan int `json:"-"`
	c complex64
	D []int
	e [4]byte
}

// SAmb has ambiguous names.
type SAmb struct {
	A int    `json:"x"`
	B string `json:"x"`
	C int
	D bool    `json:"C"`
	E float64 `json:"e"`
	F int     `json:"y"`
	Y int8    `json:"Y"`
}

// SStr has all kinds with the string option.
type SStr struct {
	S   string  `json:"s,string"`
	B   bool    `json:"b,string"`
	I   int     `json:"i,string"`
	I8  int8    `json:"i8,string"`
	I16 int16   `json:"i16,string"`
	I32 int32   `json:"i32,string"`
	I64 int64   `json:"i64,string"`
	U   uint    `json:"u,string"`
	U8  uint8   `json:"u8,string"`
	U16 uint16  `json:"u16,string"`
	U32 uint32  `json:"u32,string"`
	U64 uint64  `json:"u64,string"`
	F32 float32 `json:"f32,string"`
	F64 float64 `json:"f64,string"`
	X   string
}

type SStrP struct {
	S   *string  `json:",string"`
	B   *bool    `json:",omitempty,string"`
	I   *int     `json:"i,string"`
	U8  *uint8   `json:"u8,string,omitempty"`
	F64 *float64 `json:"f64,string"`
	N   NInt16   `json:"n,string"`
	NS  NString  `json:"ns,string"`
	NF  NF32     `json:"nf,string"`
	NB  NBool    `json:"nb,string"`
	Q   int      `json:"q"`
}

// SStrUns uses the string option on unsupported kinds (ignored by default).
type SStrUns struct {
	A []int           `json:"a,string"`
	B map[string]int  `json:"b,string"`
	C struct{ X int } `json:"c,string"`
	D any             `json:"d,string"`
	E [2]int          `json:"e,string"`
	F **int           `json:"f,string"`
	G int             `json:"g,string"`
}

// Recursive types

type RPtr struct {
	V    int   `json:"v"`
	Next *RPtr `json:"next"`
}

type RTree struct {
	ID int     `json:"id"`
	L  *RTree  `json:"l"`
	R  *RTree  `json:"r"`
	S  string  `json:"s"`
	Ks []RTree `json:"ks"`
}

type RSlice struct {
	K []RSlice `json:"k"`
	V string   `json:"v"`
}

type RMap struct {
	V int8            `json:"v"`
	M map[string]RMap `json:"m"`
}

type RMix struct {
	A  string            `json:"a"`
	P  *RMix             `json:"p"`
	S  []RMix            `json:"s"`
	M  map[string]RMix   `json:"m"`
	PS []*RMix           `json:"ps"`
	MP map[string]*RMix  `json:"mp"`
	SS [][]RMix          `json:"ss"`
	MS map[int][]RMix    `json:"ms"`
	AP [2]*RMix          `json:"ap"`
	PP **RMix            `json:"pp"`
	PM *map[string]RMix  `json:"pm"`
	SM []map[string]RMix `json:"sm"`
	X  struct {
		P *RMix `json:"p"`
		Y int   `json:"y"`
	} `json:"x"`
	Z int `json:"z"`
}

type RMutA struct {
	B  *RMutB  `json:"b"`
	Bs []RMutB `json:"bs"`
	V  int     `json:"v"`
}

type RMutB struct {
	A  *RMutA           `json:"a"`
	As []RMutA          `json:"as"`
	M  map[string]RMutA `json:"m"`
	B  *RMutB           `json:"b"`
	W  string           `json:"w"`
}

type RAny struct {
	D any            `json:"d"`
	K []RAny         `json:"k"`
	M map[string]any `json:"mm"`
	U UJ             `json:"u"`
	T UT             `json:"t"`
	N *RAny          `json:"n"`
}

type RBelow struct {
	Arr [2]struct {
		R *RBelow `json:"r"`
		Q int8    `json:"q"`
	} `json:"arr"`
	Map map[string]struct {
		R []RBelow `json:"r"`
		Q int8     `json:"q"`
	} `json:"map"`
	V int `json:"v"`
}

type RText struct {
	M map[UT]RText      `json:"m"`
	I map[int16]RText   `json:"i"`
	E map[NString]RText `json:"e"`
	V bool              `json:"v"`
}

type RBig struct {
	Pad [20]int64       `json:"pad"`
	M   map[string]RBig `json:"m"`
	S   []RBig          `json:"s"`
	P   *RBig           `json:"p"`
}

type RNum[N ~string] struct {
	N N             `json:"n"`
	P *RNum[N]      `json:"p"`
	S []RNum[N]     `json:"s"`
	M map[N]RNum[N] `json:"m"`
}

type SUnm struct {
	A UJ                `json:"a"`
	B *UJ               `json:"b"`
	C []UJ              `json:"c"`
	D map[string]UJ     `json:"d"`
	E UT                `json:"e"`
	F *UT               `json:"f"`
	G []UT              `json:"g"`
	H map[UT]int        `json:"h"`
	I map[UTStr]UTStr   `json:"i"`
	J []UTInt           `json:"j"`
	K []UJInt           `json:"k"`
	L [2]UJStr          `json:"l"`
	M map[UTInt]UJSlice `json:"m"`
	N UBoth             `json:"n"`
	O **UJ              `json:"o"`
	P UJMap             `json:"p"`
	Q json.RawMessage   `json:"q"`
	R UJNest            `json:"r"`
	S []UJBool          `json:"s"`
	T []*UT             `json:"t"`
	U [2]*UJ            `json:"u"`
	V *[]UTBool         `json:"v"`
	W UJEmpty           `json:"w"`
	X UTEmpty           `json:"x"`
	Y map[string]*UJBig `json:"y"`
	Z int               `json:"z"`
}

// Distinct types with the same name.

func init() {
	type config struct {
		A int
		B string
	}
	regP[config]("config1")
	regP[[]config]("[]config1")
	regP[map[string]config]("map[string]config1")
}

func init() {
	type config struct{ B []string }
	regP[config]("config2")
	regP[[]config]("[]config2")
	regP[map[string]config]("map[string]config2")
}

func init() {
	type config [2]float64
	regP[config]("config3")
	regP[[]config]("[]config3")
	regP[map[string]config]("map[string]config3")
}

func init() {
	type config struct {
		A string
		B *config
		C map[string]config
	}
	regP[config]("config4")
	regP[[]config]("[]config4")
	regP[map[string]config]("map[string]config4")
}

func init() {
	reg[bool]("bool")
	reg[string]("string")
	reg[int]("int")
	reg[int8]("int8")
	reg[int16]("int16")
	reg[int32]("int32")
	reg[int64]("int64")
	reg[uint]("uint")
	reg[uint8]("uint8")
	reg[uint16]("uint16")
	reg[uint32]("uint32")
	reg[uint64]("uint64")
	reg[float32]("float32")
	reg[float64]("float64")
	reg[any]("any")
	reg2[jscandec.Number, json.Number]("Number")
	reg[struct{}]("struct{}")
	reg[[0]int]("[0]int")
	reg[S3]("S3")
	reg[SPad]("SPad")
	reg[SStr]("SStr")
	reg[SUnm]("SUnm")
	reg[S13]("S13")
	reg[RMix]("RMix")
	reg[RTree]("RTree")
	reg[[]bool]("[]bool")
	reg[[]string]("[]string")
	reg[[]int]("[]int")
	reg[[]byte]("[]byte")
	reg[[]float64]("[]float64")
	reg[[]any]("[]any")
	reg[[]S2]("[]S2")
	reg[[]struct{}]("[]struct{}")
	reg[[3]int]("[3]int")
	reg[[2]S2]("[2]S2")
	reg[map[string]any]("map[string]any")
	reg[map[string]string]("map[string]string")
	reg[map[int]S2]("map[int]S2")
	reg[UJ]("UJ")
	reg[UT]("UT")
	reg[UTStr]("UTStr")
	reg[json.RawMessage]("json.RawMessage")
	reg[[]RSlice]("[]RSlice")
	reg[map[string]RMap]("map[string]RMap")
	reg[**int]("**int")
	reg[*UJ]("*UJ")
	reg[*UT]("*UT")
	reg[*any]("*any")
	reg[*struct{}]("*struct{}")
	reg[[][]bool]("[][]bool")
	reg[NString]("NString")
	reg[NAny]("NAny")
	reg[SUnexp]("SUnexp")

	regP[NBool]("NBool")
	regP[NInt]("NInt")
	regP[NInt8]("NInt8")
	regP[NInt16]("NInt16")
	regP[NInt32]("NInt32")
	regP[NInt64]("NInt64")
	regP[NUint]("NUint")
	regP[NUint8]("NUint8")
	regP[NUint16]("NUint16")
	regP[NUint32]("NUint32")
	regP[NUint64]("NUint64")
	regP[NF32]("NF32")
	regP[NF64]("NF64")
	regP[NSlice]("NSlice")
	regP[NBytes]("NBytes")
	regP[NMap]("NMap")
	regP[NMapSS]("NMapSS")
	regP[NArr]("NArr")
	regP[NPtr]("NPtr")
	regP[Empty]("Empty")

	regP[S1]("S1")
	regP[S2]("S2")
	regP[S4]("S4")
	regP2[S5[jscandec.Number], S5[json.Number]]("S5")
	regP[S9]("S9")
	regP[SUnexp]("SUnexp")
	regP[SAmb]("SAmb")
	regP[SStrP]("SStrP")
	regP[SStrUns]("SStrUns")

	regP[[]int8]("[]int8")
	regP[[]int16]("[]int16")
	regP[[]int32]("[]int32")
	regP[[]int64]("[]int64")
	regP[[]uint]("[]uint")
	regP[[]uint16]("[]uint16")
	regP[[]uint32]("[]uint32")
	regP[[]uint64]("[]uint64")
	regP[[]float32]("[]float32")
	regP[[]NInt8]("[]NInt8")
	regP[[]NString]("[]NString")
	regP[[]NBool]("[]NBool")
	regP[[]NF32]("[]NF32")
	regP[[]NUint8]("[]NUint8")
	regP2[[]jscandec.Number, []json.Number]("[]Number")
	regP[[]*int]("[]*int")
	regP[[]*string]("[]*string")
	regP[[][]int]("[][]int")
	regP[[][]string]("[][]string")
	regP[[][][]byte]("[][][]byte")
	regP[[][2]int]("[][2]int")
	regP[[][0]int]("[][0]int")
	regP[[]map[string]int]("[]map[string]int")
	regP[[]map[string]string]("[]map[string]string")
	regP[[]*S2]("[]*S2")
	regP[[]S13]("[]S13")
	regP[[]Empty]("[]Empty")
	regP[[][]struct{}]("[][]struct{}")
	regP[[]*struct{}]("[]*struct{}")
	regP[[1]int8]("[1]int8")
	regP[[4]string]("[4]string")
	regP[[2][2]int]("[2][2]int")
	regP[[2][]int]("[2][]int")
	regP[[3]map[string]int]("[3]map[string]int")
	regP[[2]*int]("[2]*int")
	regP[[2]any]("[2]any")
	regP[[2]struct{}]("[2]struct{}")
	regP[[5]bool]("[5]bool")
	regP[[3]float32]("[3]float32")
	regP[[3]uint8]("[3]uint8")
	regP[[2][0]string]("[2][0]string")
	regP[[0]S2]("[0]S2")
	regP[[2][3]S2]("[2][3]S2")

	regP[map[string]int]("map[string]int")
	regP[map[string]bool]("map[string]bool")
	regP[map[string]*string]("map[string]*string")
	regP[map[string][]string]("map[string][]string")
	regP[map[string]struct{}]("map[string]struct{}")
	regP[map[string]S13]("map[string]S13")
	regP[map[string][20]int]("map[string][20]int")
	regP[map[string][16]int]("map[string][16]int")
	regP[map[string]map[string]string]("map[string]map[string]string")
	regP[map[string]map[string]map[string]int]("map[string]map[string]map[string]int")
	regP[map[string][2]string]("map[string][2]string")
	regP[map[NString]int]("map[NString]int")
	regP[map[NString]S1]("map[NString]S1")
	regP[map[int]int]("map[int]int")
	regP[map[int8]string]("map[int8]string")
	regP[map[int16]int8]("map[int16]int8")
	regP[map[int32][]int]("map[int32][]int")
	regP[map[int64]any]("map[int64]any")
	regP[map[uint]bool]("map[uint]bool")
	regP[map[uint8]uint8]("map[uint8]uint8")
	regP[map[uint16]*S2]("map[uint16]*S2")
	regP[map[uint32]float32]("map[uint32]float32")
	regP[map[uint64]map[int]string]("map[uint64]map[int]string")
	regP[map[NInt16]NUint8]("map[NInt16]NUint8")
	regP[map[NUint64]NString]("map[NUint64]NString")
	regP[map[UT]int]("map[UT]int")
	regP[map[UTStr]string]("map[UTStr]string")
	regP[map[UTStr]S2]("map[UTStr]S2")
	regP[map[UTInt]any]("map[UTInt]any")
	regP[map[UTArr]UJ]("map[UTArr]UJ")
	regP[map[UTU8]*UT]("map[UTU8]*UT")
	regP[map[UTEmpty]int]("map[UTEmpty]int")
	regP[map[string]UT]("map[string]UT")
	regP[map[UTBig]int]("map[UTBig]int")
	regP[map[UTBig][]UTBig]("map[UTBig][]UTBig")
	regP[[]*UTBig]("[]*UTBig")
	regP[UJSelf]("UJSelf")
	regP[[]UJSelf]("[]UJSelf")
	regP[map[string]*UJSelf]("map[string]*UJSelf")
	regP[struct {
		A UJSelf
		B []UJ
		C *UJSelf
		D map[UTStr]UJSelf
		E RTree
	}]("struct{A UJSelf...}")
	regP[map[string]UJBig]("map[string]UJBig")
	regP2[map[string]jscandec.Number, map[string]json.Number]("map[string]Number")
	regP2[map[jscandec.Number]jscandec.Number, map[json.Number]json.Number]("map[Number]Number")
	regP2[map[jscandec.Number]string, map[json.Number]string]("map[Number]string")
	regP[map[int]map[string]S3]("map[int]map[string]S3")

	regP[*int]("*int")
	regP[***string]("***string")
	regP[**S2]("**S2")
	regP[**[]int]("**[]int")
	regP[*map[string]*int]("*map[string]*int")
	regP[*[2]*int]("*[2]*int")
	regP[**struct{}]("**struct{}")
	regP2[*jscandec.Number, *json.Number]("*Number")
	regP[**UJ]("**UJ")
	regP[**UT]("**UT")

	regP[UJStr]("UJStr")
	regP[UJInt]("UJInt")
	regP[UJBool]("UJBool")
	regP[UJU8]("UJU8")
	regP[UJF64]("UJF64")
	regP[UJSlice]("UJSlice")
	regP[UJMap]("UJMap")
	regP[UJArr]("UJArr")
	regP[UJEmpty]("UJEmpty")
	regP[UJValMap]("UJValMap")
	regP[UJVal]("UJVal")
	regP[UJNest]("UJNest")
	regP[UTInt]("UTInt")
	regP[UTU8]("UTU8")
	regP[UTBytes]("UTBytes")
	regP[UTBool]("UTBool")
	regP[UTArr]("UTArr")
	regP[UTEmpty]("UTEmpty")
	regP[UTVal]("UTVal")
	regP[UBoth]("UBoth")
	regP[UTree]("UTree")
	regP[[]UJ]("[]UJ")
	regP[[]UJStr]("[]UJStr")
	regP[[]UJInt]("[]UJInt")
	regP[[]UJBool]("[]UJBool")
	regP[[]UJF64]("[]UJF64")
	regP[[]UJEmpty]("[]UJEmpty")
	regP[[]UTStr]("[]UTStr")
	regP[[]UTInt]("[]UTInt")
	regP[[]UTEmpty]("[]UTEmpty")
	regP[[]UTBytes]("[]UTBytes")
	regP[[]*UJ]("[]*UJ")
	regP[[]json.RawMessage]("[]json.RawMessage")
	regP[[2]UJSlice]("[2]UJSlice")
	regP[[2]UT]("[2]UT")
	regP[map[string]json.RawMessage]("map[string]json.RawMessage")
	regP[map[string]UJStr]("map[string]UJStr")
	regP[map[string]UTStr]("map[string]UTStr")
	regP[map[UTStr]UTStr]("map[UTStr]UTStr")
	regP[map[string]*UJ]("map[string]*UJ")
	regP[map[string]UJVal]("map[string]UJVal")
	regP[[]UBoth]("[]UBoth")
	regP[[]UTree]("[]UTree")

	regP[RPtr]("RPtr")
	regP[RSlice]("RSlice")
	regP[RMap]("RMap")
	regP[RMutA]("RMutA")
	regP[RMutB]("RMutB")
	regP[RAny]("RAny")
	regP[RBelow]("RBelow")
	regP[RText]("RText")
	regP[RBig]("RBig")
	regP2[RNum[jscandec.Number], RNum[json.Number]]("RNum")
	regP[[]RMix]("[]RMix")
	regP[map[string]*RTree]("map[string]*RTree")
	regP[[2]RMutA]("[2]RMutA")
	regP[struct {
		A, B *RTree
		C    []RTree
		D    map[string]RTree
		E    RMutA
		F    RMutB
	}]("struct{A,B*RTree;...}")

	regP[SNames]("SNames")
	regP[SFold]("SFold")
	regP[SPunct]("SPunct")
	regP[SIgnored]("SIgnored")
	regP[SStrMix]("SStrMix")
	regP[[]SStrMix]("[]SStrMix")
	regP[map[string]SIgnored]("map[string]SIgnored")
	regP[[]SIgnored]("[]SIgnored")
	regPositions()
	regGenerated()
}

// SNames has names of all kinds.
type SNames struct {
	A1  int    `json:"a b"`
	A2  int    `json:"a.b"`
	A3  int    `json:"a/b"`
	A4  int    `json:"日本語"`
	A5  int    `json:"-,"`
	A6  int    `json:"ñ"`
	A7  int    `json:"a'b"`
	A8  int    `json:"\u0061\"b"`
	A9  int    `json:",omitempty"`
	B1  int    `json:"x_y-z"`
	B2  int    `json:"0"`
	B3  int    `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ "`
	B4  string `json:"a,b"`
	B5  string "json:\"tab\\there\""
	B6  int    `json:"\u00e9t\u00e9"`
	B7  int    `xml:"foo" json:"bar" yaml:"baz"`
	B8  int    `json:"B9"`
	B9  int
	Ünï int
	É   int
}

// SFold has names that are equal under case folding.
type SFold struct {
	A int    `json:"foo"`
	B int    `json:"FOO"`
	C int    `json:"Foo"`
	D string `json:"kK"`
	E string `json:"KK"`
	F int    `json:"sS"`
	G int    `json:"SS"`
	H int    `json:"ſs"`
	I int    `json:"σ"`
	J int    `json:"Σ"`
	K int    `json:"ς"`
	L int    `json:"Straße"`
	M int    `json:"ǅ"`
	N int    `json:"i"`
	O int    `json:"İ"`
	P int    `json:"µ"`
}

// SPunct has names that only differ in bit 5 of characters that aren't letters.
type SPunct struct {
	A int    `json:"@"`
	B int    `json:"a["`
	C int    `json:"A{"`
	D string `json:"_x"`
	E []int  `json:"]"`
	F any    `json:"}"`
	G int    `json:"é["`
	H int    `json:"^~"`
	I int    `json:"~^"`
	J int    `json:"Maße"`
	K int    `json:"Ångström"`
	L int    `json:"θ"`
	M int    `json:"Ω"`
	N int    `json:"ꭰ"`
	O int    `json:"µµ"`
	P int    `json:"𐐀x"`
}

// SIgnored has ignored fields of all kinds between others.
type SIgnored struct {
	A int8 `json:"-"`
	B int8
	c int8
	D int8 `json:"d"`
	e string
	F []int8
	g map[string]int
	H map[string]int8
	I string `json:"-"`
	J *int8
	k *int8
	L any
	m any
	N func() `json:"-"`
	O struct {
		a int8
		B int8
		c [3]int8
	}
	P chan int `json:"-"`
	Q [3]int8
	r [3]int8
	S string
}

// SStrMix mixes fields with and without the string option.
type SStrMix struct {
	A   int      `json:"a"`
	AS  int      `json:"as,string"`
	B   string   `json:"b"`
	BS  string   `json:"bs,string"`
	C   float64  `json:"c"`
	CS  float64  `json:"cs,string"`
	D   bool     `json:"d"`
	DS  bool     `json:"ds,string"`
	E   *string  `json:"es,string"`
	F   *uint64  `json:"fs,string"`
	G   *bool    `json:"gs,string"`
	H   *float32 `json:"hs,string"`
	I   NInt8    `json:"is,string"`
	J   NUint64  `json:"js,string"`
	K   NString  `json:"ks,omitempty,string"`
	L   string   `json:"ls,stringx"`
	M   string   `json:"ms, string"`
	N   int      `json:",string"`
	Sub struct {
		X int16 `json:"x,string"`
		Y []struct {
			Z string `json:"z,string"`
		} `json:"y"`
	} `json:"sub"`
	Next *SStrMix `json:"next"`
}
