package main

import (
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

func initChecks() {
	initTypes()
	for _, c := range []*Check{
		checkC01(), checkC02(), checkC03(), checkC04(), checkC05(), checkC06(), checkC07(),
		checkC08(), checkC09(), checkC10(), checkC11(), checkC12(), checkC13(), checkC14(),
		checkC15(), checkC16(), checkC17(), checkC18(), checkC19(), checkC20(), checkC21(),
		checkC22(), checkC23(), checkC24(), checkC25(), checkC26(), checkC27(),
	} {
		checks[c.ID] = c
	}
}

// leafOf returns a leaf function that writes lit for every value of type t.
func leafOf(t reflect.Type, lit string) func(g *Gen, x reflect.Type) bool {
	return func(g *Gen, x reflect.Type) bool {
		if x != t {
			return false
		}
		g.s(lit)
		return true
	}
}

// docWith generates a document for t in which all values of type leaf are lit.
// Usually only some of the positions of t are present.
func docWith(g *Gen, t *Type, leaf reflect.Type, lit string) []byte {
	g.leaf = leafOf(leaf, lit)
	g.Missing = 0.7
	g.MaxDepth = 3
	g.budget = 30
	g.Null = 0.02
	g.Mismatch, g.BadNum = 0, 0
	return g.Doc(t.R)
}

// C01

func checkC01() *Check {
	ignoring := typesWith(0, func(t *Type) bool {
		return t.Feat&(FEmptyStruct|FArray|FZeroSize|FStruct) != 0
	})
	small := []*Type{}
	for _, n := range []string{"any", "struct{}", "[0]int", "S1", "[2]any", "UJ", "Number", "string", "float64", "[]any", "map[string]any", "json.RawMessage", "[]struct{}", "int"} {
		small = append(small, typeNamed(n))
	}
	const alpha = "{}[],:\"\\0123-+.eEtrufalsn /b\n\x00\x1f\x80é*'"
	smallDoc := func(g *Gen, t *Type, idx uint64) []byte {
		// Enumerate short strings, then continue with random ones.
		x := idx / uint64(len(small))
		n := uint64(len(alpha))
		for l, c := 0, uint64(1); l <= 3; l, c = l+1, c*n {
			if x < c {
				b := make([]byte, l)
				for i := range b {
					b[i] = alpha[x%n]
					x /= n
				}
				return b
			}
			x -= c
		}
		b := make([]byte, 1+g.r.n(9))
		for i := range b {
			b[i] = alpha[g.r.n(len(alpha))]
		}
		if g.r.n(2) == 0 {
			p := g.r.pick("[", "{\"a\":", "{\"A\":1,\"zz\":", "\"", "[1,", "-", "[[[", "tr", "nul", "{\"A\":{},")
			b = append([]byte(p), b...)
		}
		if g.r.n(2) == 0 {
			b = append(b, g.r.pick("]", "}", "\"", "]]", "e", "l", "0", ",1]", " ")...)
		}
		return b
	}
	frag := func(g *Gen, t *Type, idx uint64) []byte {
		// Concatenated tokens
		n := 1 + g.r.n(10)
		g.b = g.b[:0]
		for i := 0; i < n; i++ {
			switch g.r.n(5) {
			case 0, 1:
				g.s(g.r.pick("{", "}", "[", "]", ",", ":", "[]", "{}", "[[", "]]", "},", "],", "\"a\":", "\"A\":"))
			case 2:
				g.s(g.r.pick("null", "true", "false", "nul", "True", "0", "1", "-1", "1.5", "1e5", "01", "-", "1.", ".5", "1e", "+1", "0x1", "NaN", "1e+", "--1", "1.e1", "-01", "00"))
			case 3:
				g.s(g.r.pick(`""`, `"a"`, `"\n"`, `"\x"`, `"\u12"`, `"\u00e9"`, "\"\n\"", "\"\t\"", "\"\x00\"", `"\"`, `"\\"`, "'a'", "\"\xff\"", "\"\x7f\""))
			case 4:
				g.s(g.r.pick(" ", "\n", "\t", "\r", "\v", "\f", "\u00a0", "\ufeff", "//x\n", "/**/", "\x00", "\x1f", "\u2028"))
			}
		}
		return append([]byte(nil), g.b...)
	}
	depths := []int{1, 2, 3, 7, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 500, 1000, 1023, 1024, 4096, 9998, 9999, 10000}
	deepDoc := func(g *Gen, t *Type, idx uint64) []byte {
		d := depths[int(idx)%len(depths)]
		if d > 6 && d < 9990 {
			d -= g.r.n(3)
		}
		g.b = g.b[:0]
		obj := make([]bool, d)
		for i := range obj {
			obj[i] = g.r.n(2) == 0
			if obj[i] {
				g.s(`{"a":`)
			} else {
				g.s("[")
				if g.r.n(4) == 0 {
					g.s("0,")
				}
			}
		}
		if !obj[d-1] && g.r.n(2) == 0 {
		} else {
			g.s(g.r.pick("null", "1", `"x"`, "{}", "true"))
			if d >= 10000 {
				g.b = append(g.b[:len(g.b)-len(g.b)], g.b...)
			}
		}
		for i := d - 1; i >= 0; i-- {
			if obj[i] {
				g.s("}")
			} else {
				g.s("]")
			}
		}
		return g.b
	}
	p := validProf()
	p.Unknown = 0.4
	p.MaxElems = 6
	return &Check{
		ID:   "C01",
		Rule: "distinct (type, document, options, prefill) where the document is syntactically invalid, or valid and required to be accepted",
		Phases: []Phase{
			diffPhase("mutated", "plain", 700000, 12000000, cfg{types: allTypes, mutate: 0.8, flags: CmpSyntax | CmpSynErr, prof: p, unm: 0.1, fill: 0.2, opts: 0.2}),
			diffPhase("mutated-ignored", "plain", 300000, 6000000, cfg{types: ignoring, mutate: 0.8, flags: CmpSyntax | CmpValue, prof: p, doc: func(g *Gen, t *Type, idx uint64) []byte {
				g.Unknown, g.Missing = 0.7, 0.7
				return g.Doc(t.R)
			}}),
			diffPhase("short", "plain", 14*60000, 14*900000, cfg{typ: func(r *rng, idx uint64) *Type { return small[idx%uint64(len(small))] }, doc: smallDoc, flags: CmpSyntax | CmpValue | CmpSynErr, unm: 0.05}),
			diffPhase("tokens", "plain", 400000, 8000000, cfg{types: small, doc: frag, flags: CmpSyntax | CmpValue | CmpSynErr, unm: 0.05}),
			diffPhase("accepted", "plain", 200000, 4000000, cfg{types: []*Type{typeNamed("any"), typeNamed("*any"), typeNamed("json.RawMessage"), typeNamed("[]any"), typeNamed("map[string]any")}, prof: func() Prof { p := validProf(); p.MaxElems = 8; p.Esc = .4; return p }(), flags: CmpSyntax | CmpValue | CmpSynErr, unm: 0.2}),
			diffPhase("deep", "plain", 440, 4400, cfg{types: []*Type{typeNamed("any"), typeNamed("json.RawMessage"), typeNamed("struct{}"), typeNamed("[0]int"), typeNamed("S1"), typeNamed("map[string]any")}, doc: deepDoc, flags: CmpSyntax | CmpValue | CmpSynErr, mutate: 0.2}),
		},
		Need: []string{"syntax-invalid", "expect-ok", "syntax-errors-compared", "errors-before-garbage-compared"},
	}
}

func typeNamed(name string) *Type {
	for _, t := range allTypes {
		if t.Name == name {
			return t
		}
	}
	for _, t := range allTypes {
		if t.Name == "*"+name {
			return t
		}
	}
	panic("no type " + name)
}

// C02

func intPosTypes() []*Type {
	return posTypes(func(p *posSet) bool { return isIntKind(p.R.Kind()) && !isJSONUnm(p.R) && !isTextUnm(p.R) })
}

func intSets() (l []*posSet) {
	for _, p := range posSets {
		if isIntKind(p.R.Kind()) {
			l = append(l, p)
		}
	}
	return l
}

func leafCfg(sets []*posSet, lit func(g *Gen, p *posSet, idx uint64) string) cfg {
	// The position set is chosen by the number of the case, everything else randomly.
	return cfg{
		typ: func(r *rng, idx uint64) *Type {
			p := sets[idx%uint64(len(sets))]
			switch r.n(8) {
			case 0, 1, 2:
				return p.Root
			case 3:
				return p.PosR
			}
			return p.Pos
		},
		doc: func(g *Gen, t *Type, idx uint64) []byte {
			p := sets[idx%uint64(len(sets))]
			l := lit(g, p, idx/uint64(len(sets)))
			if g.r.n(3) == 0 {
				// Neighbours differ
				g.leaf = func(g *Gen, x reflect.Type) bool {
					if x != p.R {
						return false
					}
					if g.r.n(2) == 0 {
						g.s(l)
					} else {
						lf := g.leaf
						g.leaf = nil
						g.val(x, 9)
						g.leaf = lf
					}
					return true
				}
				g.Missing, g.MaxDepth, g.budget, g.Null, g.Mismatch, g.BadNum = 0.7, 3, 30, 0.02, 0, 0
				return g.Doc(t.R)
			}
			return docWith(g, t, p.R, l)
		},
		flags:      CmpValue | CmpErr,
		fill:       0.3,
		nontrivial: func(c *Case, o *Outcome) bool { return o.Valid },
	}
}

func checkC02() *Check {
	sets := intSets()
	var smallSets []*posSet
	for _, p := range sets {
		if p.R.Bits() <= 16 {
			smallSets = append(smallSets, p)
		}
	}
	near := func(g *Gen, p *posSet, idx uint64) string {
		// Around powers of 2 and of 10
		x := new(big.Int)
		switch idx % 3 {
		case 0:
			x.Lsh(big.NewInt(1), uint(idx/3%70))
		case 1:
			x.Exp(big.NewInt(10), big.NewInt(int64(idx/3%24)), nil)
		case 2:
			// multiples of the modulus and digits repeated
			x.Lsh(big.NewInt(int64(1+g.r.n(30))), uint(p.R.Bits()))
			if g.r.n(3) == 0 {
				x.SetString(strings.Repeat(strconv.Itoa(1+g.r.n(9)), 1+g.r.n(24)), 10)
			}
			if g.r.n(3) == 0 {
				x.Rsh(x, 1)
			}
		}
		x.Add(x, big.NewInt(int64(g.r.n(41)-20)))
		if g.r.n(2) == 0 {
			x.Neg(x)
		}
		return x.String()
	}
	bounds := func(g *Gen, p *posSet, idx uint64) string {
		g.BadNum = 0.5
		s := g.intLit(p.R)
		g.BadNum = 0
		return s
	}
	forms := func(g *Gen, p *posSet, idx uint64) string {
		switch g.r.n(4) {
		case 0:
			return g.r.pick("1.0", "1e0", "0.0", "-0", "-0.0", "0e1", "100e-2", "1E2", "12.5", "1e-1", "-1.0e2", "-1", "0", "1e400", "9223372036854775807.0", "true", "\"1\"", "[]", "{}", "[1]", "\"\"", "false")
		case 1:
			return g.numLit()
		}
		return g.boundaryInt(p.R, g.r.n(2) == 0)
	}
	exh := func(g *Gen, p *posSet, idx uint64) string {
		x := int64(idx) // 0, -1, 1, -2, …
		if x&1 == 0 {
			x = x / 2
		} else {
			x = -(x + 1) / 2
		}
		return strconv.FormatInt(x, 10)
	}
	c386 := func(lit func(g *Gen, p *posSet, idx uint64) string) cfg { return leafCfg(sets, lit) }
	return &Check{
		ID:   "C02",
		Rule: "distinct (type, document, prefill) containing the integer literal of the case at one or more positions",
		Phases: []Phase{
			diffPhase("limits", "plain", 1000000, 20000000, leafCfg(sets, bounds)),
			diffPhase("powers", "plain", 500000, 10000000, leafCfg(sets, near)),
			diffPhase("forms", "plain", 300000, 6000000, leafCfg(sets, forms)),
			diffPhase("exhaustive16", "plain", 6*2*66000, 6*2*140000, leafCfg(smallSets, exh)),
			diffPhase("limits-32bit", "386", 150000, 3000000, c386(bounds)),
			diffPhase("powers-32bit", "386", 60000, 1000000, c386(near)),
		},
		Need: []string{"expect-ok", "expect-error", "errors-compared", "oracle-validated"},
		Note: []string{"exhaustive16 decodes every integer from -33000 to 33000 (quick) or -70000 to 70000 (thorough) into every 8- and 16-bit integer type (at positions chosen randomly)"},
	}
}

// C03

func checkC03() *Check {
	var sets []*posSet
	for _, p := range posSets {
		if isFloatKind(p.R.Kind()) || p.R.Kind() == reflect.Interface {
			sets = append(sets, p)
		}
	}
	bits := func(p *posSet) int {
		if p.R.Kind() == reflect.Float32 {
			return 32
		}
		return 64
	}
	lits := func(g *Gen, p *posSet, idx uint64) string {
		if g.r.n(12) == 0 {
			g.BadNum = 1
			defer func() { g.BadNum = 0 }()
		}
		return g.floatLit(bits(p))
	}
	f32 := func(g *Gen, p *posSet, idx uint64) string {
		// float32 values spread over all bit patterns
		f := math.Float32frombits(uint32(idx*2654435761) ^ uint32(g.r.n(4)))
		if f != f || math.IsInf(float64(f), 0) {
			f = 1.5
		}
		switch g.r.n(3) {
		case 0:
			return strings.Replace(strconv.FormatFloat(float64(f), 'f', -1, 64), "+", "", 1)
		case 1:
			// Halfway between two float32 values
			h := (float64(f) + float64(math.Nextafter32(f, f*2))) / 2
			if math.IsInf(h, 0) || h != h {
				h = 2
			}
			s := strconv.FormatFloat(h, 'e', -1, 64)
			return s
		}
		return strconv.FormatFloat(float64(f), 'g', -1, 32)
	}
	ints := func(g *Gen, p *posSet, idx uint64) string {
		// Integers around the limits of exact representation and of fast paths
		base := []int64{0, 1 << 24, 1 << 25, 1 << 53, 1 << 54, 9999999, 10000000, 99999999, 999999999999999, 9999999999999999, 1<<31 - 1, 1 << 31, 1<<63 - 200}[idx%13]
		x := base + int64(idx/13%200) - 100
		if base > 1<<62 {
			x = base + int64(idx/13%200)
		}
		s := strconv.FormatInt(x, 10)
		if g.r.n(2) == 0 && s[0] != '-' {
			s = "-" + s
		}
		switch g.r.n(6) {
		case 0:
			s += ".0"
		case 1:
			s += "e0"
		case 2:
			s += "." + strconv.Itoa(g.r.n(100000))
		}
		return s
	}
	return &Check{
		ID:   "C03",
		Rule: "distinct (type, document, prefill) containing the number literal of the case",
		Phases: []Phase{
			diffPhase("literals", "plain", 900000, 18000000, leafCfg(sets, lits)),
			diffPhase("float32", "plain", 400000, 8000000, leafCfg(sets, f32)),
			diffPhase("integers", "plain", 200000, 3000000, leafCfg(sets, ints)),
			diffPhase("string-option", "plain", 100000, 2000000, cfg{types: []*Type{typeNamed("SStr"), typeNamed("*SStrP")}, fill: 0.3, flags: CmpValue | CmpErr}),
			diffPhase("literals-32bit", "386", 60000, 1000000, leafCfg(sets, lits)),
		},
		Need: []string{"expect-ok", "expect-error", "errors-compared"},
	}
}

// C04

func checkC04() *Check {
	var sets []*posSet
	for _, n := range []string{"string", "any", "NString", "UT", "UTStr", "map[string]any", "map[string]string", "[]string", "map[UTStr]UT", "S13", "[]byte"} {
		for _, p := range posSets {
			if p.Name == n {
				sets = append(sets, p)
			}
		}
	}
	// wrap puts the raw contents of a string literal to a position in p.
	wrap := func(g *Gen, p *posSet, raw string) string {
		pad := ""
		if g.r.n(2) == 0 {
			pad = "abcdefghijklmnopqrstuvwxyz"[:g.r.n(27)]
		}
		tail := ""
		if g.r.n(2) == 0 {
			tail = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:g.r.n(27)]
		}
		q := `"` + pad + raw + tail + `"`
		switch p.Name {
		case "map[string]any", "map[string]string", "map[UTStr]UT":
			if g.r.n(2) == 0 {
				return `{` + q + `:"x"}`
			}
			return `{"x":` + q + `}`
		case "S13":
			switch g.r.n(4) {
			case 0:
				return `{` + q + `:1,"end":"y"}`
			case 1:
				return `{"üÜ":[` + q + `]}`
			case 2:
				return `{"m":{` + q + `:5}}`
			}
			return `{"end":` + q + `}`
		case "[]string":
			return `[` + q + `,"", ` + q + `]`
		case "any":
			switch g.r.n(4) {
			case 0:
				return `{` + q + `:` + q + `}`
			case 1:
				return `[` + q + `]`
			}
		}
		return q
	}
	hex := func(g *Gen, x uint16) string {
		n := len(g.b)
		g.hex4(x)
		s := string(g.b[n:])
		g.b = g.b[:n]
		return s
	}
	unit := func(g *Gen) string {
		switch g.r.n(12) {
		case 0:
			return g.r.pick(`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`)
		case 1:
			return hex(g, uint16(g.r.n(256)))
		case 2:
			return hex(g, uint16(g.r.u64()))
		case 3:
			return hex(g, uint16(0xD800+g.r.n(0x800)))
		case 4:
			return hex(g, uint16(0xD800+g.r.n(0x400))) + hex(g, uint16(0xDC00+g.r.n(0x400)))
		case 5:
			return string(rune(0x80 + g.r.n(0x10FF80)))
		case 6:
			return string([]byte{byte(0x80 + g.r.n(128))})
		case 7:
			n := 1 + g.r.n(4)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(0x80 + g.r.n(128))
			}
			return string(b)
		case 8: // truncated
			s := string(rune(0x80 + g.r.n(0x10FF80)))
			return s[:1+g.r.n(len(s))]
		}
		return "abcdefghijklmnopqrstuvwxyz0123456789 "[:1+g.r.n(36)]
	}
	seq := func(g *Gen, p *posSet, idx uint64) string {
		var b strings.Builder
		for k := 1 + g.r.n(8); k > 0; k-- {
			b.WriteString(unit(g))
		}
		return wrap(g, p, b.String())
	}
	all16 := func(g *Gen, p *posSet, idx uint64) string {
		return wrap(g, p, hex(g, uint16(idx)))
	}
	surr := func(g *Gen, p *posSet, idx uint64) string {
		a, b := uint16(0xD800+g.r.n(0x800)), uint16(0xD7F0+g.r.n(0x820))
		switch g.r.n(4) {
		case 0:
			a = 0xD800 + uint16(g.r.n(2))*0x3FF
		case 1:
			b = []uint16{0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xD800, 0x0041, 0xD7FF}[g.r.n(7)]
		}
		s := hex(g, a) + hex(g, b)
		if g.r.n(3) == 0 {
			s = hex(g, a) + g.r.pick("", "x", `\n`, "é", "\xff", `\\u`, `\"`, " ") + hex(g, b)
		}
		if g.r.n(4) == 0 {
			s += hex(g, uint16(0xDC00+g.r.n(0x400)))
		}
		return wrap(g, p, s)
	}
	raw := func(g *Gen, p *posSet, idx uint64) string {
		// All pairs of non-ASCII bytes, then random byte sequences.
		a, b := byte(0x80+idx%128), byte(0x80+idx/128%128)
		s := string([]byte{a, b})
		if idx >= 128*128 {
			switch g.r.n(3) {
			case 0:
				s += string([]byte{byte(0x80 + g.r.n(128))})
			case 1:
				s += string([]byte{byte(0x80 + g.r.n(128)), byte(0x80 + g.r.n(128))})
			case 2:
				s = s[:1] + g.r.pick("a", "\\n", "\\u0041") + s[1:]
			}
		}
		return wrap(g, p, s)
	}
	names := cfg{types: typesWith(FStruct, nil), prof: func() Prof { p := validProf(); p.KeyVar = 0.8; p.Esc = 0.6; return p }(), flags: CmpValue, opts: 0.1}
	return &Check{
		ID:   "C04",
		Rule: "distinct (type, document, prefill) containing the string literal of the case",
		Phases: []Phase{
			diffPhase("sequences", "plain", 900000, 18000000, leafCfg(sets, seq)),
			diffPhase("all-u-escapes", "plain", 11*66000, 11*66000*4, leafCfg(sets, all16)),
			diffPhase("surrogates", "plain", 250000, 5000000, leafCfg(sets, surr)),
			diffPhase("raw-bytes", "plain", 11*20000, 11*200000, leafCfg(sets, raw)),
			diffPhase("names", "plain", 250000, 5000000, names),
			hugePhase(1500, cfg{types: posTypesOf(sets), fill: 0.3, flags: CmpValue | CmpErr}),
			giantPhase(32, cfg{types: posTypesOf(sets), fill: 0.3, flags: CmpValue | CmpErr}),
			diffPhase("base64", "plain", 80000, 2000000, cfg{types: []*Type{typeNamed("[]byte"), typeNamed("*NBytes"), typeNamed("*Pos[[]byte]"), typeNamed("*PosR[[]byte]")}, prof: func() Prof { p := profDefault; p.Esc = 0.7; p.BadNum = 0.2; return p }(), flags: CmpValue | CmpErr, fill: 0.3}),
		},
		Need: []string{"expect-ok", "oracle-validated"},
	}
}

// C05

func checkC05() *Check {
	types := typesWith(FAny, nil)
	p := profDefault
	p.Mismatch, p.UnmErr = 0, 0
	p.MaxElems, p.Dup, p.Big = 6, 0.2, 0.05
	deep := p
	deep.MaxDepth, deep.MaxElems = 60, 3
	anys := posTypes(func(p *posSet) bool {
		return p.R.Kind() == reflect.Interface || p.Name == "[]any" || p.Name == "map[string]any"
	})
	anys = append(anys, typeNamed("any"), typeNamed("[]any"), typeNamed("map[string]any"), typeNamed("NAny"), typeNamed("*RAny"), typeNamed("*[2]any"))
	deepDoc := func(g *Gen, t *Type, idx uint64) []byte {
		g.b = g.b[:0]
		g.leaf = func(g *Gen, x reflect.Type) bool {
			if x.Kind() != reflect.Interface {
				return false
			}
			g.deepAny(1 + g.r.n(300))
			return true
		}
		g.budget = 25
		g.Missing = 0.6
		return g.Doc(t.R)
	}
	return &Check{
		ID:   "C05",
		Rule: "distinct (type, document, prefill) with a value decoded into any",
		Phases: []Phase{
			diffPhase("any", "plain", 500000, 12000000, cfg{types: anys, prof: p, fill: 0.3, flags: CmpValue | CmpErr, unm: 0.05}),
			diffPhase("any-in-types", "plain", 300000, 8000000, cfg{types: types, prof: p, fill: 0.3, flags: CmpValue | CmpErr}),
			diffPhase("nested", "plain", 60000, 1000000, cfg{types: anys, prof: deep, fill: 0.2, budget: 400}),
			hugePhase(2000, cfg{types: anys, fill: 0.3, flags: CmpValue | CmpErr}),
			giantPhase(32, cfg{types: anys, fill: 0.3, flags: CmpValue | CmpErr}),
			diffPhase("deep", "plain", 20000, 300000, cfg{types: anys, prof: p, doc: deepDoc, flags: CmpValue | CmpErr}),
		},
		Need: []string{"expect-ok", "expect-error", "oracle-validated"},
	}
}

// deepAny writes a nested document with a spine of the given depth and siblings.
func (g *Gen) deepAny(depth int) {
	var closers []byte
	sib := func() {
		switch g.r.n(8) {
		case 0:
			g.s("[]")
		case 1:
			g.s("{}")
		case 2:
			g.s(`"s"`)
		case 3:
			g.s("null")
		case 4:
			g.s(`{"k":[1,{}]}`)
		case 5:
			g.s(`[[],[[]]]`)
		default:
			g.s(strconv.Itoa(g.r.n(100)))
		}
	}
	for i := 0; i < depth; i++ {
		if g.r.n(2) == 0 {
			g.s("[")
			for g.r.n(3) == 0 {
				sib()
				g.s(",")
			}
			closers = append(closers, ']')
		} else {
			g.s("{")
			for g.r.n(3) == 0 {
				g.s(`"` + keyPool[g.r.n(5)] + `":`)
				sib()
				g.s(",")
			}
			g.s(`"` + keyPool[g.r.n(3)] + `":`)
			closers = append(closers, '}')
		}
	}
	sib()
	for i := len(closers) - 1; i >= 0; i-- {
		for g.r.n(4) == 0 {
			if closers[i] == ']' {
				g.s(",")
			} else {
				g.s(`,"` + keyPool[3+g.r.n(6)] + `":`)
			}
			sib()
		}
		g.b = append(g.b, closers[i])
	}
}

// C06

func checkC06() *Check {
	types := typesWith(FStruct, nil)
	p := validProf()
	p.KeyVar, p.Unknown, p.Dup, p.Missing = 0.35, 0.35, 0.15, 0.4
	few := p
	few.Unknown, few.Missing, few.KeyVar = 0.6, 0.75, 0.6
	var amb []*Type
	for _, n := range []string{"S13", "SPad", "SStr", "SUnexp", "*SAmb", "*S9", "*S5", "*Pos[SAmb]", "*Pos[S13]", "*PosR[S13]", "*SUnexp", "*SNames", "*SFold", "*SIgnored", "*Pos[SPad]", "*SPunct", "*GLong"} {
		amb = append(amb, typeNamed(n))
	}
	return &Check{
		ID:   "C06",
		Rule: "distinct (type, document, options, prefill) with at least one object decoded into a struct",
		Phases: []Phase{
			diffPhase("members", "plain", 500000, 12000000, cfg{types: types, prof: p, fill: 0.5, opts: 0.1, flags: CmpValue | CmpErr}),
			diffPhase("names", "plain", 400000, 8000000, cfg{types: amb, prof: few, fill: 0.5, opts: 0.2, flags: CmpValue | CmpErr}),
			diffPhase("unknown", "plain", 300000, 6000000, cfg{types: types, prof: few, fill: 0.5, flags: CmpValue | CmpErr, unm: 0.05}),
			hugePhase(1500, cfg{types: types, fill: 0.3, flags: CmpValue | CmpErr}),
			giantPhase(32, cfg{types: types, fill: 0.3, flags: CmpValue | CmpErr}),
			widePhase(600),
		},
		Need: []string{"expect-ok", "oracle-validated"},
	}
}

// C07

func checkC07() *Check {
	types := typesWith(FStringTag, nil)
	p := profDefault
	p.BadNum, p.Mismatch, p.Missing = 0.15, 0, 0.5
	valid := validProf()
	valid.Esc = 0.6
	bad := p
	bad.BadNum, bad.Missing = 0.5, 0.85
	core := []*Type{typeNamed("SStr"), typeNamed("*SStrP"), typeNamed("*Pos[SStr]"), typeNamed("*PosR[SStr]"), typeNamed("*Pos[SStrP]"), typeNamed("*SStrUns"), typeNamed("*PosR[SStrP]"), typeNamed("*SStrMix")}
	return &Check{
		ID:   "C07",
		Rule: "distinct (type, document, prefill) for types using the string option",
		Phases: []Phase{
			diffPhase("valid", "plain", 300000, 6000000, cfg{types: types, prof: valid, fill: 0.5, flags: CmpValue}),
			diffPhase("invalid", "plain", 600000, 12000000, cfg{types: core, prof: bad, fill: 0.5, flags: CmpValue | CmpErr}),
			diffPhase("mixed", "plain", 200000, 6000000, cfg{types: types, prof: p, fill: 0.5, flags: CmpValue | CmpErr}),
			diffPhase("invalid-32bit", "386", 50000, 1000000, cfg{types: core, prof: bad, fill: 0.5, flags: CmpValue | CmpErr}),
		},
		Need: []string{"expect-ok", "expect-error", "oracle-validated"},
	}
}

// C08

func checkC08() *Check {
	types := typesWith(FMap, nil)
	p := profDefault
	p.MaxElems, p.Big = 7, 0.05
	var intMaps []*Type
	for _, t := range allTypes {
		x := t.R
		for x.Kind() == reflect.Pointer {
			x = x.Elem()
		}
		if x.Kind() == reflect.Map && t.Feat&FKeyInt != 0 {
			intMaps = append(intMaps, t)
		}
	}
	badKeys := p
	badKeys.BadNum = 0.15
	exh := func(g *Gen, t *Type, idx uint64) []byte {
		x := t.R
		for x.Kind() == reflect.Pointer {
			x = x.Elem()
		}
		i := int64(idx/uint64(len(intMaps)))*4 - 66000
		g.b = g.b[:0]
		g.s("{")
		for j := 0; j < 4; j++ {
			if j > 0 {
				g.s(",")
			}
			g.s(`"`)
			g.s(strconv.FormatInt(i+int64(j), 10))
			g.s(`":`)
			g.val(x.Elem(), 9)
		}
		g.s("}")
		return g.b
	}
	return &Check{
		ID:   "C08",
		Rule: "distinct (type, document, prefill) for types with maps",
		Phases: []Phase{
			diffPhase("maps", "plain", 500000, 10000000, cfg{types: types, prof: p, fill: 0.5, flags: CmpValue | CmpErr | CmpIdent}),
			diffPhase("int-keys", "plain", 300000, 6000000, cfg{types: intMaps, prof: badKeys, fill: 0.5, flags: CmpValue | CmpErr}),
			diffPhase("int-keys-exhaustive", "plain", len(intMaps)*33000/2, len(intMaps)*33000, cfg{typ: func(r *rng, idx uint64) *Type { return intMaps[idx%uint64(len(intMaps))] }, doc: exh, flags: CmpValue | CmpErr}),
			hugePhase(1500, cfg{types: types, fill: 0.3, flags: CmpValue | CmpErr | CmpIdent}),
			giantPhase(32, cfg{types: types, fill: 0.3, flags: CmpValue | CmpErr | CmpIdent}),
			diffPhase("int-keys-32bit", "386", 50000, 1000000, cfg{types: intMaps, prof: badKeys, fill: 0.5, flags: CmpValue | CmpErr}),
			newDecoderPhase("key-types", 1),
		},
		Need: []string{"expect-ok", "expect-error", "objects-reused", "oracle-validated", "types-rejected"},
	}
}

// C09

func checkC09() *Check {
	types := typesWith(FSlice|FArray, nil)
	p := profDefault
	p.MaxElems, p.Big = 8, 0.05
	b64 := p
	b64.BadNum = 0.2
	var seqs []*Type
	for _, t := range allTypes {
		x := t.R
		for x.Kind() == reflect.Pointer {
			x = x.Elem()
		}
		if x.Kind() == reflect.Slice || x.Kind() == reflect.Array {
			seqs = append(seqs, t)
		}
	}
	lens := func(g *Gen, t *Type, idx uint64) []byte {
		// The length is determined by the number of the case.
		x := t.R
		for x.Kind() == reflect.Pointer {
			x = x.Elem()
		}
		n := int(idx / uint64(len(seqs)) % 40)
		if g.r.n(200) == 0 {
			n = g.r.n(3000)
		}
		g.budget = 3 * n
		g.MaxElems, g.Big = 2, 0
		g.b = g.b[:0]
		g.ws()
		if isJSONUnm(x) || isTextUnm(x) {
			return g.Doc(t.R)
		}
		g.array(n, func(i int) {
			if x.Kind() == reflect.Array && i >= x.Len() && g.r.n(2) == 0 {
				g.anyVal(5)
				return
			}
			g.val(x.Elem(), 5)
		})
		g.ws()
		return g.b
	}
	bytesT := typesWith(FBytes, nil)
	return &Check{
		ID:   "C09",
		Rule: "distinct (type, document, prefill) for types with slices or arrays",
		Phases: []Phase{
			diffPhase("sequences", "plain", 500000, 10000000, cfg{types: types, prof: p, fill: 0.5, flags: CmpValue | CmpErr}),
			diffPhase("lengths", "plain", 200000, 4000000, cfg{typ: func(r *rng, idx uint64) *Type { return seqs[idx%uint64(len(seqs))] }, doc: lens, prof: p, fill: 0.5, flags: CmpValue | CmpErr}),
			hugePhase(2000, cfg{types: types, fill: 0.3, flags: CmpValue | CmpErr}),
			giantPhase(32, cfg{types: types, fill: 0.3, flags: CmpValue | CmpErr}),
			diffPhase("base64", "plain", 200000, 4000000, cfg{types: bytesT, prof: b64, fill: 0.5, flags: CmpValue | CmpErr}),
		},
		Need: []string{"expect-ok", "expect-error", "oracle-validated"},
	}
}

// C10

func checkC10() *Check {
	types := typesWith(FPtr, nil)
	p := profDefault
	p.Null, p.Mismatch, p.BadNum = 0.35, 0, 0
	p2 := p
	p2.Null = 0.1
	return &Check{
		ID:   "C10",
		Rule: "distinct (type, document, prefill)",
		Phases: []Phase{
			diffPhase("null", "plain", 500000, 10000000, cfg{types: allTypes, prof: p, fill: 0.85, flags: CmpValue | CmpIdent}),
			diffPhase("pointers", "plain", 500000, 10000000, cfg{types: types, prof: p2, fill: 0.6, flags: CmpValue | CmpIdent}),
		},
		Need: []string{"expect-ok", "objects-reused", "objects-created", "oracle-validated"},
	}
}

// C11

func checkC11() *Check {
	types := typesWith(FRecur, nil)
	p := profDefault
	p.MaxDepth, p.MaxElems, p.Missing = 12, 3, 0.3
	p.Mismatch, p.BadNum, p.Unknown = 0.001, 0.002, 0.05
	deepDoc := func(g *Gen, t *Type, idx uint64) []byte {
		g.MaxDepth = 20 + g.r.n(300)
		g.MaxElems = 1 + g.r.n(2)
		g.Missing = 0.5
		g.Unknown = 0.02
		g.Big = 0
		g.budget = 40 + g.r.n(600)
		g.Null = 0.03
		return g.Doc(t.R)
	}
	return &Check{
		ID:   "C11",
		Rule: "distinct (type, document, prefill) for recursive types",
		Phases: []Phase{
			diffPhase("recursive", "plain", 300000, 8000000, cfg{types: types, prof: p, fill: 0.3, flags: CmpValue | CmpErr, budget: 120}),
			diffPhase("deep", "plain", 60000, 1500000, cfg{types: types, prof: p, fill: 0.2, flags: CmpValue | CmpErr, doc: deepDoc}),
			hugePhase(1000, cfg{types: types, fill: 0.2, flags: CmpValue | CmpErr}),
			giantPhase(32, cfg{types: types, fill: 0.2, flags: CmpValue | CmpErr}),
			chainPhase("chains", 400, 8000),
		},
		Need: []string{"expect-ok", "oracle-validated", "deepest-chain-1000"},
	}
}

// C12

func checkC12() *Check {
	types := typesWith(FJSONUnm|FTextUnm|FKeyText, nil)
	p := profDefault
	p.UnmErr, p.Null = 0.03, 0.15
	e := p
	e.UnmErr = 0.3
	return &Check{
		ID:   "C12",
		Rule: "distinct (type, document, prefill) for types with unmarshalers",
		Phases: []Phase{
			diffPhase("calls", "plain", 600000, 12000000, cfg{types: types, prof: p, fill: 0.4, flags: CmpValue | CmpErr | CmpEvents, opts: 0.05}),
			diffPhase("errors", "plain", 200000, 4000000, cfg{types: types, prof: e, fill: 0.2, flags: CmpValue | CmpErr | CmpEvents}),
			hugePhase(1000, cfg{types: types, fill: 0.2, flags: CmpValue | CmpErr | CmpEvents}),
			giantPhase(32, cfg{types: types, fill: 0.2, flags: CmpValue | CmpErr | CmpEvents}),
		},
		Need: []string{"expect-ok", "expect-error", "unmarshaler-calls", "errors-compared", "oracle-validated"},
	}
}

// C17 and C18

func checkC18() *Check {
	p := profDefault
	p.Mismatch, p.BadNum, p.UnmErr, p.Null = 0.03, 0.06, 0.03, 0.05
	e18 := p
	e18.Mismatch, e18.BadNum, e18.UnmErr, e18.Unknown = 0.0003, 0.0006, 0.0003, 0.001
	many := p
	many.Mismatch, many.BadNum, many.UnmErr = 0.15, 0.2, 0.15
	return &Check{
		ID:   "C18",
		Rule: "distinct (type, document, options, prefill) whose decoding fails",
		Phases: []Phase{
			diffPhase("errors", "plain", 600000, 12000000, cfg{types: allTypes, prof: p, flags: CmpValue | CmpErr, opts: 0.5, fill: 0.2, nontrivial: failing}),
			diffPhase("many-errors", "plain", 400000, 8000000, cfg{types: allTypes, prof: many, flags: CmpValue | CmpErr, opts: 0.3, fill: 0.2, nontrivial: failing}),
			diffPhase("syntax", "plain", 400000, 8000000, cfg{types: allTypes, prof: p, mutate: 1, flags: CmpValue | CmpErr | CmpSyntax | CmpSynErr, opts: 0.2, nontrivial: failing}),
			hugePhase(1000, cfg{types: allTypes, prof: e18, flags: CmpValue | CmpErr, opts: 0.2, nontrivial: failing}),
			giantPhase(32, cfg{types: allTypes, flags: CmpValue | CmpErr, opts: 0.2, nontrivial: failing}),
			nilDestPhase("nil-destination", 2000, 20000),
			anyDepthPhase("any-depth", 60, 600),
		},
		Need: []string{"expect-error", "errors-compared", "syntax-errors-compared", "errors-before-garbage-compared", "nil-destinations", "max-depth-errors"},
	}
}

func failing(c *Case, o *Outcome) bool { return !o.Valid || o.RefErr != nil }

// C23

func checkC23() *Check {
	types := typesWith(FNumber, nil)
	var sets []*posSet
	for _, p := range posSets {
		if p.Name == "Number" {
			sets = append(sets, p)
		}
	}
	lit := func(g *Gen, p *posSet, idx uint64) string {
		switch g.r.n(5) {
		case 0:
			n := len(g.b)
			g.str(g.badQuotedNum())
			s := string(g.b[n:])
			g.b = g.b[:n]
			return s
		case 1:
			n := len(g.b)
			g.Esc = 0.8
			g.str(g.numLit())
			s := string(g.b[n:])
			g.b = g.b[:n]
			return s
		case 2:
			return g.r.pick("null", "true", "[]", "{}", `""`, `"null"`, "[1]", "-0", "1e1000", "1E+00001", "0.10", "-0.0e-0")
		}
		return g.numLit()
	}
	p := profDefault
	p.BadNum = 0.1
	c := leafCfg(sets, lit)
	c.post = func(w *W, c *Case, o *Outcome, r *rng) {
		if o.Ok {
			w.checkNumbers(reflect.ValueOf(o.Dst).Elem(), 0)
		}
	}
	return &Check{
		ID:   "C23",
		Rule: "distinct (type, document, prefill) for types with Number",
		Phases: []Phase{
			diffPhase("literals", "plain", 700000, 14000000, c),
			diffPhase("types", "plain", 300000, 6000000, cfg{types: types, prof: p, flags: CmpValue | CmpErr, fill: 0.3}),
			hugePhase(800, cfg{types: types, flags: CmpValue | CmpErr, fill: 0.3}),
			giantPhase(32, cfg{types: types, flags: CmpValue | CmpErr, fill: 0.3}),
		},
		Need: []string{"expect-ok", "expect-error", "numbers-checked", "oracle-validated"},
	}
}

// checkNumbers verifies the methods of all Numbers in v.
func (w *W) checkNumbers(v reflect.Value, depth int) {
	if depth > 50 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		if v.Type() != tpJscanNumber {
			return
		}
		n := jscandec.Number(v.String())
		w.obs("numbers-checked")
		if n.String() != string(n) {
			w.fail("Number(%q).String() = %q", string(n), n.String())
		}
		f, err := n.Float64()
		ef, eerr := strconv.ParseFloat(string(n), 64)
		if math.Float64bits(f) != math.Float64bits(ef) || !sameErr(err, eerr) {
			w.fail("Number(%q).Float64() = %v, %v; expected %v, %v", string(n), f, err, ef, eerr)
		}
		i, err := n.Int64()
		ei, eerr := strconv.ParseInt(string(n), 10, 64)
		if i != ei || !sameErr(err, eerr) {
			w.fail("Number(%q).Int64() = %v, %v; expected %v, %v", string(n), i, err, ei, eerr)
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			w.checkNumbers(v.Elem(), depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 50; i++ {
			w.checkNumbers(v.Index(i), depth+1)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			w.checkNumbers(it.Key(), depth+1)
			w.checkNumbers(it.Value(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.checkNumbers(v.Field(i), depth+1)
		}
	}
}

func sameErr(a, b error) bool {
	return (a == nil) == (b == nil) && (a == nil || a.Error() == b.Error())
}

// C24

func checkC24() *Check {
	types := typesWith(FStruct, nil)
	p := profDefault
	p.Mismatch, p.BadNum = 0.001, 0.002
	p.Unknown, p.KeyVar, p.Missing = 0.04, 0.1, 0.5
	q := p
	q.Unknown, q.KeyVar, q.Missing = 0.15, 0.5, 0.8
	return &Check{
		ID:   "C24",
		Rule: "distinct (type, document, options, prefill)",
		Phases: []Phase{
			diffPhase("options", "plain", 500000, 10000000, cfg{types: types, prof: p, flags: CmpValue | CmpErr, opts: 1, fill: 0.3}),
			diffPhase("names", "plain", 400000, 8000000, cfg{types: types, prof: q, flags: CmpValue | CmpErr, opts: 1, fill: 0.3}),
			initOptsPhase("init-options", 1),
		},
		Need: []string{"expect-ok", "expect-error", "errors-compared", "init-options-checked", "oracle-validated"},
	}
}

// C25

func checkC25() *Check {
	p := profDefault
	e := p
	e.Mismatch, e.BadNum, e.UnmErr = 0.02, 0.05, 0.03
	big := p
	big.MaxElems, big.Big = 12, 0.2
	return &Check{
		ID:   "C25",
		Rule: "distinct (type, document, options, prefill)",
		Phases: []Phase{
			diffPhase("default", "plain", 700000, 15000000, cfg{types: allTypes, prof: p, fill: 0.4, flags: CmpValue | CmpSyntax, unm: 0.1}),
			diffPhase("errors", "plain", 300000, 6000000, cfg{types: allTypes, prof: e, fill: 0.2, flags: CmpValue | CmpSyntax, mutate: 0.1}),
			diffPhase("big", "plain", 60000, 1500000, cfg{types: allTypes, prof: big, fill: 0.3, budget: 1500}),
			hugePhase(2500, cfg{types: allTypes, fill: 0.3, flags: CmpValue | CmpErr | CmpEvents, unm: 0.05}),
			giantPhase(32, cfg{types: allTypes, fill: 0.3, flags: CmpValue | CmpErr | CmpEvents, unm: 0.05}),
			widePhase(600),
			diffPhase("default-32bit", "386", 100000, 2000000, cfg{types: allTypes, prof: p, fill: 0.4, flags: CmpValue | CmpErr | CmpEvents}),
		},
		Need: []string{"expect-ok", "expect-error", "oracle-validated"},
	}
}

var _ = utf8.RuneError
