package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Prof controls the JSON generator.
type Prof struct {
	Null     float64 // probability of null instead of a value
	Mismatch float64 // probability of a value of another kind
	BadNum   float64 // probability of numbers out of range or of the wrong form
	Unknown  float64 // probability of an unknown member
	Dup      float64 // probability of a duplicate member
	Missing  float64 // probability that a field is missing
	KeyVar   float64 // probability of a name variation (case, escapes)
	WS       float64 // probability of whitespace at any place
	Esc      float64 // probability of escapes and special characters in strings
	BadUTF8  float64 // probability of invalid UTF-8 in strings with specials
	UnmErr   float64 // probability of errors in unmarshaler data
	MaxElems int     // maximum elements of containers
	MaxDepth int     // maximum depth
	Big      float64 // probability of big containers
	Huge     float64 // probability of documents with huge parts
	Giant    bool    // huge parts are larger than 2^16
}

var profDefault = Prof{
	Null: 0.06, Mismatch: 0.006, BadNum: 0.02, Unknown: 0.15, Dup: 0.08,
	Missing: 0.25, KeyVar: 0.15, WS: 0.08, Esc: 0.25, BadUTF8: 0.1,
	UnmErr: 0.01, MaxElems: 5, MaxDepth: 7, Big: 0.02, Huge: 0.0008,
}

// profValid produces no errors.
var profValid = func() Prof {
	p := profDefault
	p.Mismatch, p.BadNum, p.UnmErr = 0, 0, 0
	return p
}()

// Gen generates JSON documents for types.
type Gen struct {
	r *rng
	Prof
	b      []byte
	budget int // remaining values
	feat   map[string]int
	huge   int  // remaining huge parts
	large  bool // the document may have huge parts

	// leaf, if not nil, may write the value of type t itself.
	leaf func(g *Gen, t reflect.Type) bool
}

func validProf() Prof { return profValid }

func newGen(r *rng, p Prof) *Gen {
	g := &Gen{r: r, Prof: p, budget: 150}
	if p.Huge > 0 && r.p(p.Huge) {
		g.huge = 1 + r.n(2)
		g.Big = 0
		if p.Huge < 1 {
			// Errors are per value.
			g.Mismatch, g.BadNum, g.UnmErr = g.Mismatch/50, g.BadNum/50, g.UnmErr/50
		}
	}
	return g
}

var hugeSizes = []int{
	127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
	8191, 8192, 8193, 16384, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000,
}

var giantSizes = []int{
	99_999, 100_000, 100_001, 131_071, 131_072, 131_073, 200_000, 262_143, 262_144, 262_145, 300_000,
	500_000, 524_287, 524_288, 524_289, 1_000_000, 1_048_575, 1_048_576, 1_048_577,
}

// hugePart returns the size of a huge part of the document or, usually, 0.
func (g *Gen) hugePart(p float64) int {
	if g.huge <= 0 || !g.r.p(p) {
		return 0
	}
	g.huge--
	if g.Giant {
		g.huge = 0
		return giantSizes[g.r.n(len(giantSizes))]
	}
	n := len(hugeSizes)
	if g.r.n(3) != 0 {
		n = 21
	}
	return hugeSizes[g.r.n(n)]
}

// Doc generates a document for type t.
func (g *Gen) Doc(t reflect.Type) []byte {
	if g.huge > 0 && tooBigElems(t) {
		g.huge = 0
	}
	g.large = g.huge > 0
	g.b = g.b[:0]
	g.ws()
	g.val(t, 0)
	g.ws()
	return g.b
}

func (g *Gen) count(f string) {
	if g.feat != nil {
		g.feat[f]++
	}
}

func (g *Gen) ws() {
	for g.WS > 0 && g.r.p(g.WS) {
		n := 1
		if g.r.n(8) == 0 {
			n = g.r.n(20)
		}
		if h := g.hugePart(0.02); h > 0 {
			n = h
		}
		for ; n > 0; n-- {
			g.b = append(g.b, " \t\n\r"[g.r.n(4)])
		}
	}
}

func (g *Gen) s(s string) { g.b = append(g.b, s...) }

func (g *Gen) elems(depth int) int {
	if n := g.hugePart(0.4); n > 0 {
		// Small elements
		g.MaxElems, g.Big, g.Dup, g.WS = 1, 0, 0, g.WS/4
		g.MaxDepth = depth + 2
		g.budget = n * 2
		return n
	}
	if g.Big > 0 && depth < 3 && g.r.p(g.Big) {
		return g.r.n(40)
	}
	switch g.r.n(8) {
	case 0:
		return 0
	case 1:
		return 1
	}
	return g.r.n(g.MaxElems + 1)
}

func (g *Gen) val(t reflect.Type, depth int) {
	g.budget--
	if g.leaf != nil && g.leaf(g, t) {
		return
	}
	if g.r.p(g.Null) {
		g.count("null:" + t.Kind().String())
		g.s("null")
		return
	}
	if g.Mismatch > 0 && g.r.p(g.Mismatch) {
		g.count("mismatch")
		g.anyVal(depth)
		return
	}
	if t.Kind() == reflect.Pointer {
		if g.budget < 0 || depth > g.MaxDepth && g.r.n(2) == 0 {
			g.s("null")
			return
		}
		g.val(t.Elem(), depth)
		return
	}
	if isJSONUnm(t) {
		if g.UnmErr > 0 && g.r.p(g.UnmErr) {
			g.s(g.r.pick(`"#err1"`, `"#boom"`, `["#errx"]`, `{"a":"#boom"}`, `"#err1"`, `"#boom"`, `"#nildest"`, `["#tagopt"]`, `"#unknown"`, `"#depth"`))
			return
		}
		if t.Name() == "UJNest" || g.r.n(2) == 0 {
			g.anyVal(depth)
			return
		}
		switch g.r.n(4) {
		case 0:
			g.str(g.content())
		case 1:
			g.num()
		default:
			g.anyVal(depth)
		}
		return
	}
	if isTextUnm(t) {
		if g.UnmErr > 0 && g.r.p(g.UnmErr) {
			g.s(g.r.pick(`"#err1"`, `"\u0023boom"`, `"#err1"`, `"\u0023boom"`, `"#tagopt"`, `"#unknown"`))
			return
		}
		g.str(g.content())
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		g.s(g.r.pick("true", "false"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		g.s(g.intLit(t))
	case reflect.Float32, reflect.Float64:
		g.s(g.floatLit(t.Bits()))
	case reflect.String:
		if isNumberType(t) {
			if g.r.n(4) == 0 {
				if g.BadNum > 0 && g.r.p(g.BadNum) {
					g.str(g.badQuotedNum())
				} else {
					g.cleanStr(g.numLit())
				}
				return
			}
			g.s(g.numLit())
			return
		}
		g.str(g.content())
	case reflect.Interface:
		g.anyVal(depth)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && !isJSONUnm(t.Elem()) && !isTextUnm(t.Elem()) && g.r.n(3) != 0 {
			g.cleanStr(g.b64())
			return
		}
		n := g.elems(depth)
		if depth > g.MaxDepth || g.budget < 0 {
			n = 0
		}
		g.array(n, func(int) { g.val(t.Elem(), depth+1) })
	case reflect.Array:
		n := t.Len()
		switch g.r.n(6) {
		case 0:
			n = g.r.n(n + 1)
		case 1:
			n += g.r.n(4)
			if h := g.hugePart(0.3); h > 0 {
				n, g.MaxDepth, g.MaxElems = n+h, depth+2, 1
			}
		case 2:
			n = 0
		}
		if g.budget < -50 && !g.large {
			n = 0
		}
		g.array(n, func(i int) {
			if i >= t.Len() && g.r.n(2) == 0 {
				g.anyVal(depth + 1)
				return
			}
			g.val(t.Elem(), depth+1)
		})
	case reflect.Map:
		n := g.elems(depth)
		if depth > g.MaxDepth || g.budget < 0 {
			n = 0
		}
		g.s("{")
		for i := 0; i < n; i++ {
			if i > 0 {
				g.s(",")
			}
			g.ws()
			g.mapKey(t.Key())
			g.ws()
			g.s(":")
			g.ws()
			g.val(t.Elem(), depth+1)
			g.ws()
		}
		if n == 0 {
			g.ws()
		}
		g.s("}")
	case reflect.Struct:
		g.structVal(t, depth)
	default:
		g.anyVal(depth)
	}
}

func (g *Gen) array(n int, elem func(i int)) {
	g.s("[")
	if n == 0 {
		g.ws()
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.s(",")
		}
		g.ws()
		elem(i)
		g.ws()
	}
	g.s("]")
}

func (g *Gen) mapKey(t reflect.Type) {
	if reflect.PointerTo(t).Implements(tpTU) {
		if g.UnmErr > 0 && g.r.p(g.UnmErr) {
			g.s(`"#err key"`)
			return
		}
		if g.r.n(2) == 0 {
			g.str(keyPool[g.r.n(len(keyPool))])
			return
		}
		g.str(g.content())
		return
	}
	switch t.Kind() {
	case reflect.String:
		if g.r.n(3) != 0 {
			g.str(keyPool[g.r.n(len(keyPool))])
			return
		}
		g.str(g.content())
	default:
		if g.BadNum > 0 && g.r.p(g.BadNum) {
			switch g.r.n(3) {
			case 0:
				g.str(g.badQuotedNum())
			case 1:
				g.str(g.content())
			case 2:
				g.cleanStr(g.boundaryInt(t, true))
			}
			return
		}
		if g.r.n(3) == 0 {
			g.cleanStr(strconv.Itoa(g.r.n(8)))
			return
		}
		s := g.boundaryInt(t, false)
		if g.r.n(10) == 0 {
			s = g.r.pick("+", "00", "0") + s // accepted by strconv unless "0-1"
			if strings.Contains(s, "-") {
				s = "5"
			}
			if s[0] == '+' && t.Kind() >= reflect.Uint {
				s = s[1:]
			}
		}
		g.cleanStr(s)
	}
}

// boundaryInt returns integer literals, out of the range of t if bad.
func (g *Gen) boundaryInt(t reflect.Type, bad bool) string {
	bits := uint(t.Bits())
	signed := t.Kind() <= reflect.Int64
	min, max := new(big.Int), new(big.Int)
	if signed {
		max.Lsh(big.NewInt(1), bits-1)
		min.Neg(max)
	} else {
		max.Lsh(big.NewInt(1), bits)
	}
	max.Sub(max, big.NewInt(1))
	if !bad {
		switch g.r.n(8) {
		case 0:
			return min.String()
		case 1:
			return max.String()
		case 2:
			if signed {
				return min.Add(min, big.NewInt(int64(g.r.n(12)))).String()
			}
			return max.Sub(max, big.NewInt(int64(g.r.n(12)))).String()
		case 3:
			return "0"
		case 4:
			return strconv.Itoa(g.r.n(10))
		}
		// Any number of digits
		x := g.r.u64() >> (64 - bits)
		x >>= uint(g.r.n(int(bits)))
		if signed {
			y := int64(x)
			switch bits {
			case 8:
				y = int64(int8(x))
			case 16:
				y = int64(int16(x))
			case 32:
				y = int64(int32(x))
			}
			return strconv.FormatInt(y, 10)
		}
		return strconv.FormatUint(x, 10)
	}
	d := big.NewInt(int64(g.r.n(3)) + 1)
	switch g.r.n(6) {
	case 0:
		d = new(big.Int).SetUint64(g.r.u64() >> uint(g.r.n(64)))
	case 1: // multiples of the modulus, would wrap around into the range
		d = new(big.Int).Lsh(big.NewInt(int64(1+g.r.n(40))), bits)
		d.Sub(d, big.NewInt(int64(g.r.n(300))))
	case 2:
		d = new(big.Int).Mul(max, big.NewInt(int64(1+g.r.n(9))))
	case 3:
		d = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(g.r.n(28))), nil)
	}
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	if g.r.n(2) == 0 {
		return min.Sub(min, d).String()
	}
	return max.Add(max, d).String()
}

func (g *Gen) intLit(t reflect.Type) string {
	if g.BadNum > 0 && g.r.p(g.BadNum) {
		g.count("badint")
		switch g.r.n(8) {
		case 0:
			return g.r.pick("1.0", "0.5", "-0.0", "1e3", "1E+2", "0e0", "-1e-1", "10.00")
		case 1:
			return g.numLit()
		}
		return g.boundaryInt(t, true)
	}
	if g.r.n(40) == 0 && t.Kind() <= reflect.Int64 {
		return "-0"
	}
	return g.boundaryInt(t, false)
}

// numLit returns any valid number literal.
func (g *Gen) numLit() string {
	var b strings.Builder
	if g.r.n(3) == 0 {
		b.WriteByte('-')
	}
	digits := func(n int) {
		for ; n > 0; n-- {
			b.WriteByte('0' + byte(g.r.n(10)))
		}
	}
	if g.r.n(4) == 0 {
		b.WriteByte('0')
	} else {
		b.WriteByte('1' + byte(g.r.n(9)))
		digits(g.r.n(1 + []int{0, 4, 10, 20}[g.r.n(4)]))
	}
	if g.r.n(2) == 0 {
		b.WriteByte('.')
		digits(1 + g.r.n(1+[]int{1, 7, 9, 22}[g.r.n(4)]))
		if h := g.hugePart(0.05); h > 0 {
			digits(h % 5000)
		}
	}
	if g.r.n(3) == 0 {
		b.WriteString(g.r.pick("e", "E"))
		b.WriteString(g.r.pick("", "+", "-"))
		switch g.r.n(6) {
		case 0:
			digits(3)
		case 1:
			b.WriteString("000000000" + strconv.Itoa(g.r.n(10)))
		default:
			digits(1 + g.r.n(2))
		}
	}
	return b.String()
}

func (g *Gen) num() { g.s(g.numLit()) }

// inRange tells whether s is in the range of floats of the given size.
func inRange(s string, bits int) bool {
	_, err := strconv.ParseFloat(s, bits)
	return err == nil
}

func (g *Gen) floatLit(bits int) string {
	if g.BadNum > 0 && g.r.p(g.BadNum) {
		g.count("badfloat")
		return g.r.pick("1e400", "-1e400", "1e39", "3.5e38", "340282356779733661637539395458142568448",
			"179769313486231580793e289", "1.8e308", "123456789e302", "-1e309", "1E999999999999")
	}
	for {
		s := g.floatLit1(bits)
		if inRange(s, bits) {
			return s
		}
	}
}

func (g *Gen) floatLit1(bits int) string {
	switch g.r.n(14) {
	case 0:
		return g.r.pick("0", "-0", "0.0", "-0.0", "0e0", "-0e-5", "0E+9", "-0.000000000000000000000")
	case 1: // shortest form
		if bits == 32 {
			f := math.Float32frombits(uint32(g.r.u64()))
			if f != f || math.IsInf(float64(f), 0) {
				return "1"
			}
			return strconv.FormatFloat(float64(f), "eEfg"[g.r.n(2)], -1, 32)
		}
		f := math.Float64frombits(g.r.u64())
		if f != f || math.IsInf(f, 0) {
			return "1"
		}
		return strconv.FormatFloat(f, "eE"[g.r.n(2)], -1, 64)
	case 2: // around the fast path limits
		base := g.r.pick("16777216", "9007199254740992", "9999999", "10000000", "999999999999999", "1000000000000000", "-8388608", "33554432")
		x, _ := strconv.ParseInt(base, 10, 64)
		return strconv.FormatInt(x+int64(g.r.n(7))-3, 10)
	case 3: // halfway cases
		if bits == 32 {
			m := uint64(g.r.u64()>>40 | 1<<23)
			x := new(big.Int).SetUint64(m*2 + 1)
			x.Lsh(x, uint(g.r.n(60)))
			s := x.String()
			switch g.r.n(4) {
			case 0:
				s += ".0000000000000000000000000000001"
			case 1:
				s += ".0"
			}
			return s
		}
		m := g.r.u64()>>11 | 1<<52
		x := new(big.Int).SetUint64(m)
		x.Lsh(x, 1)
		x.Add(x, big.NewInt(1))
		x.Lsh(x, uint(g.r.n(100)))
		s := x.String()
		switch g.r.n(4) {
		case 0:
			s += ".00000000000000000000000000000000000000001"
		case 1:
			s += "e0"
		}
		return s
	case 4: // subnormals and extremes
		return g.r.pick("4.9e-324", "2.4e-324", "2.5e-324", "1e-45", "7e-46", "1.4e-45", "1.1754943e-38",
			"2.2250738585072011e-308", "2.2250738585072014e-308", "3.4028234e38", "3.4028235677973366e38",
			"1.7976931348623157e308", "1e-400", "-1e-400", "1e-50", "5e-324", "-4.9406564584124654e-324",
			"1.401298464324817e-45", "0.000000000000000000000000000000000000011754942")
	case 5, 6: // integers of any length
		n := 1 + g.r.n(24)
		if bits == 32 && g.r.n(2) == 0 {
			n = 6 + g.r.n(5)
		}
		var b strings.Builder
		if g.r.n(3) == 0 {
			b.WriteByte('-')
		}
		b.WriteByte('1' + byte(g.r.n(9)))
		for i := 1; i < n; i++ {
			b.WriteByte('0' + byte(g.r.n(10)))
		}
		return b.String()
	case 7, 8:
		return fmt.Sprintf("%d.%d", int(g.r.u64()%2000)-1000, g.r.n(1000))
	}
	return g.numLit()
}

func (g *Gen) badQuotedNum() string {
	switch g.r.n(3) {
	case 0:
		s := g.numLit()
		i := g.r.n(len(s) + 1)
		return s[:i] + g.r.pick(" ", "x", ".", "-", "e", "+", ",", "\x00", "é", "0x", "_") + s[i:]
	case 1:
		s := g.numLit()
		return s[:g.r.n(len(s))]
	}
	return g.r.pick("", " ", "-", "+1", "01", "1.", ".5", "1e", "1e+", "--1", "0x10", "1 ", " 1", "NaN", "Infinity",
		"inf", "null", "true", "1_000", "1,2", "12345678.", "123456789e", "12345678e-", "00", "-01", "1.2.3", "1e5.5", "\"1\"")
}

func (g *Gen) b64() string {
	n := g.r.n(20)
	if h := g.hugePart(0.3); h > 0 {
		n = h
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.r.u64())
	}
	s := base64.StdEncoding.EncodeToString(b)
	if g.BadNum > 0 && g.r.p(g.BadNum) {
		switch g.r.n(4) {
		case 0:
			return s + "="
		case 1:
			return strings.TrimRight(s, "=") + "*"
		case 2:
			if len(s) > 0 {
				return s[:len(s)-1]
			}
		case 3:
			return strings.NewReplacer("+", "-", "/", "_").Replace(s) + "-_=="
		}
	}
	if g.r.n(10) == 0 && len(s) > 2 {
		return s[:2] + "\n\r" + s[2:] // line breaks are ignored by base64
	}
	return s
}

// content returns the content of a string value. It's valid UTF-8 unless
// BadUTF8 is set.
func (g *Gen) content() string {
	n := g.r.n(12)
	switch g.r.n(10) {
	case 0:
		n = 0
	case 1:
		n = g.r.n(50)
	}
	if h := g.hugePart(0.15); h > 0 {
		n = h
	}
	var b strings.Builder
	special := g.r.p(g.Esc)
	for i := 0; i < n; i++ {
		if special && g.r.n(3) == 0 {
			switch g.r.n(9) {
			case 0:
				b.WriteString(g.r.pick("\"", "\\", "/", "\b", "\f", "\n", "\r", "\t"))
			case 1:
				b.WriteRune(rune(g.r.n(0x20)))
			case 2:
				b.WriteRune(rune(0x80 + g.r.n(0x780)))
			case 3:
				b.WriteRune(rune(0x800 + g.r.n(0xF800)))
			case 4:
				b.WriteRune(rune(0x10000 + g.r.n(0x100000)))
			case 5:
				b.WriteString(g.r.pick("\u2028", "\u2029", "<", ">", "&", "\x7f", "\ufffd", "\U0010ffff", "\uffff", "é", "日本"))
			case 6:
				if g.BadUTF8 > 0 && g.r.p(g.BadUTF8) {
					g.count("badutf8")
					b.WriteString(g.r.pick("\xff", "\xc0\x80", "\xed\xa0\x80", "\xe2\x82", "\xf0\x9f\x98", "\x80",
						"\xc3", "\xf4\x90\x80\x80", "\xfe", "\xed\xbf\xbf", "\xc3\xc3\xa9"))
				}
			default:
				b.WriteByte(byte(' ' + g.r.n(95)))
			}
			continue
		}
		b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFG 0123456789_-."[g.r.n(47)])
	}
	s := b.String()
	if strings.Contains(s, "#") {
		s = strings.ReplaceAll(s, "#", "+")
	}
	return s
}

const hexLo, hexUp = "0123456789abcdef", "0123456789ABCDEF"

func (g *Gen) hex4(x uint16) {
	g.s(`\u`)
	for sh := 12; sh >= 0; sh -= 4 {
		if g.r.n(2) == 0 {
			g.b = append(g.b, hexLo[x>>sh&15])
		} else {
			g.b = append(g.b, hexUp[x>>sh&15])
		}
	}
}

// str writes content as string literal, escaping it randomly.
func (g *Gen) str(content string) {
	g.b = append(g.b, '"')
	esc := g.Esc > 0 && g.r.p(g.Esc/2)
	for i := 0; i < len(content); {
		r, n := utf8.DecodeRuneInString(content[i:])
		c := content[i]
		switch {
		case r == utf8.RuneError && n == 1:
			g.b = append(g.b, c)
		case c == '"' || c == '\\':
			if g.r.n(4) == 0 {
				g.hex4(uint16(c))
			} else {
				g.b = append(g.b, '\\', c)
			}
		case c < 0x20:
			if j := strings.IndexByte("\b\f\n\r\t", c); j >= 0 && g.r.n(3) != 0 {
				g.b = append(g.b, '\\', "bfnrt"[j])
			} else {
				g.hex4(uint16(c))
			}
		case esc && g.r.n(4) == 0:
			switch {
			case c == '/' && g.r.n(2) == 0:
				g.s(`\/`)
			case r >= 0x10000:
				g.hex4(uint16(0xD800 + (r-0x10000)>>10))
				g.hex4(uint16(0xDC00 + (r-0x10000)&0x3FF))
			default:
				g.hex4(uint16(r))
			}
		default:
			g.b = append(g.b, content[i:i+n]...)
		}
		i += n
	}
	if esc && g.BadUTF8 > 0 && g.r.p(g.BadUTF8) {
		// Lone or wrongly ordered surrogates
		g.count("surrogate")
		for k := 1 + g.r.n(3); k > 0; k-- {
			switch g.r.n(4) {
			case 0:
				g.hex4(uint16(0xD800 + g.r.n(0x400)))
			case 1:
				g.hex4(uint16(0xDC00 + g.r.n(0x400)))
			case 2:
				g.hex4(uint16(0xD800 + g.r.n(0x400)))
				g.s(g.r.pick("x", `\n`, `\u0041`, "", `\uD83D`, `\\u`))
			case 3:
				g.hex4(uint16(g.r.u64()))
			}
		}
	}
	g.b = append(g.b, '"')
}

// anyVal writes any value.
func (g *Gen) anyVal(depth int) {
	g.budget--
	k := g.r.n(9)
	if depth > g.MaxDepth || g.budget < 0 {
		k = g.r.n(6)
	}
	switch k {
	case 0:
		g.s("null")
	case 1:
		g.s(g.r.pick("true", "false"))
	case 2, 3:
		if g.BadNum > 0 && g.r.p(g.BadNum/4) {
			g.s(g.r.pick("1e400", "-1E309"))
			return
		}
		for {
			if s := g.numLit(); inRange(s, 64) {
				g.s(s)
				return
			}
		}
	case 4, 5:
		g.str(g.content())
	case 6, 7:
		g.array(g.elems(depth), func(int) { g.anyVal(depth + 1) })
	default:
		n := g.elems(depth)
		g.s("{")
		if n == 0 {
			g.ws()
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				g.s(",")
			}
			g.ws()
			if g.r.n(2) == 0 {
				g.str(keyPool[g.r.n(len(keyPool))])
			} else {
				g.str(g.content())
			}
			g.ws()
			g.s(":")
			g.ws()
			g.anyVal(depth + 1)
			g.ws()
		}
		g.s("}")
	}
}

func (g *Gen) structVal(t reflect.Type, depth int) {
	fields := structFields(t)
	type member struct {
		f *refField // nil for unknown
	}
	var ms []member
	for i := range fields {
		missing := g.Missing
		if depth > g.MaxDepth {
			missing = 0.9
		}
		if g.budget < 0 {
			missing = 0.95
		}
		if len(fields) > 12 {
			missing = (missing + 1) / 2
		}
		if g.r.p(missing) {
			continue
		}
		ms = append(ms, member{&fields[i]})
		if g.r.p(g.Dup) {
			ms = append(ms, member{&fields[i]})
		}
	}
	for g.Unknown > 0 && g.r.p(g.Unknown) {
		ms = append(ms, member{})
	}
	if h := g.hugePart(0.1); h > 0 && len(fields) > 0 {
		// Many unknown or duplicate members
		g.MaxElems, g.Big, g.WS, g.MaxDepth, g.budget = 1, 0, 0, depth+2, h*2
		for ; h > 0; h-- {
			m := member{}
			if g.r.n(4) == 0 {
				m.f = &fields[g.r.n(len(fields))]
			}
			ms = append(ms, m)
		}
	}
	if g.r.n(2) == 0 {
		for i := len(ms) - 1; i > 0; i-- {
			j := g.r.n(i + 1)
			ms[i], ms[j] = ms[j], ms[i]
		}
	}
	g.s("{")
	if len(ms) == 0 {
		g.ws()
	}
	for i, m := range ms {
		if i > 0 {
			g.s(",")
		}
		g.ws()
		if m.f == nil {
			g.count("unknown")
			g.str(g.unknownName(t))
		} else {
			g.fieldName(m.f.name)
		}
		g.ws()
		g.s(":")
		g.ws()
		switch {
		case m.f == nil:
			g.anyVal(depth + 1)
		case m.f.quoted:
			g.quoted(m.f.typ)
		default:
			g.val(m.f.typ, depth+1)
		}
		g.ws()
	}
	g.s("}")
}

// nearName returns a text that's similar to a name of a field.
func (g *Gen) nearName(fields []refField) string {
	if len(fields) == 0 {
		return ""
	}
	n := fields[g.r.n(len(fields))].name
	if n == "" {
		return "_"
	}
	b := []byte(n)
	i := g.r.n(len(b))
	if g.r.n(3) == 0 {
		i = len(b) - 1
	}
	switch g.r.n(8) {
	case 0:
		return n[:i]
	case 1:
		return n + g.r.pick(" ", "\x00", "x", n)
	case 2, 3:
		b[i] ^= 0x20 // differs from case folding unless it's a letter
	case 4:
		b[i]++
	case 5:
		b[i] ^= 0x80
	case 6:
		j := g.r.n(len(b))
		b[i], b[j] = b[j], b[i]
	case 7:
		return n[i:]
	}
	return string(b)
}

func (g *Gen) unknownName(t reflect.Type) string {
	if g.r.n(3) == 0 {
		return g.nearName(structFields(t))
	}
	if t.NumField() > 0 && g.r.n(3) == 0 {
		// Names that are similar to field names or names of ignored fields.
		f := t.Field(g.r.n(t.NumField()))
		n := f.Name
		switch g.r.n(5) {
		case 0:
			return n + g.r.pick("x", "_", " ", "\x00", "é", "s")
		case 1:
			return n[:len(n)-1]
		case 2:
			return f.Tag.Get("json")
		case 3:
			return " " + n
		}
		return n
	}
	if g.r.n(3) == 0 {
		return g.content()
	}
	return g.r.pick("unknown", "zz", "", "U", "-", "?", "unknown long name of a member", "x1", "\u0000")
}

func (g *Gen) fieldName(name string) {
	if !g.r.p(g.KeyVar) {
		g.b = append(append(append(g.b, '"'), name...), '"')
		return
	}
	g.count("keyvar")
	switch g.r.n(7) {
	case 6: // other members of the folding orbits
		b := []rune(name)
		for i := range b {
			for g.r.n(3) == 0 {
				b[i] = unicode.SimpleFold(b[i])
			}
		}
		g.cleanStr(string(b))
	case 0:
		g.cleanStr(strings.ToUpper(name))
	case 1:
		g.cleanStr(strings.ToLower(name))
	case 2: // swap case
		b := []rune(name)
		for i := range b {
			if g.r.n(2) == 0 {
				if u := []rune(strings.ToUpper(string(b[i]))); len(u) == 1 && u[0] != b[i] {
					b[i] = u[0]
				} else if l := []rune(strings.ToLower(string(b[i]))); len(l) == 1 {
					b[i] = l[0]
				}
			}
		}
		g.cleanStr(string(b))
	case 3: // special folds
		g.cleanStr(strings.NewReplacer("k", "\u212a", "K", "\u212a", "s", "\u017f", "S", "\u017f", "ſ", "S", "ü", "Ü").Replace(name))
	default: // escaped
		g.b = append(g.b, '"')
		for _, r := range name {
			if r < 0x10000 && g.r.n(2) == 0 {
				g.hex4(uint16(r))
			} else if r == '"' || r == '\\' {
				g.b = append(g.b, '\\', byte(r))
			} else {
				g.b = utf8.AppendRune(g.b, r)
			}
		}
		g.b = append(g.b, '"')
	}
}

// quoted writes the value of a field with the string option.
func (g *Gen) quoted(t reflect.Type) {
	if g.r.p(g.Null) {
		g.s("null")
		return
	}
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	} else if g.r.n(20) == 0 {
		g.cleanStr("null")
		return
	}
	if g.BadNum > 0 && g.r.p(g.BadNum) {
		g.count("badquoted")
		switch g.r.n(7) {
		case 0: // not quoted
			g.val(t, 0)
		case 1:
			g.anyVal(0)
		case 2, 3:
			g.str(g.badQuotedNum())
		case 4:
			g.str(g.r.pick("true", "false", "True", "tru", "truex", " true", "nul", "null ", "\"\"", "\"", "", "\"a", "a\"",
				"\"a\"b\"", "\"a\" ", "\"\\x\"", "\"\x01\"", "\"\\u12\"", "[]", "{}", "\"\xff\"", "\"a\"\"b\"", "\\\"", "\"\\\""))
		case 5:
			sub := Gen{r: g.r, Prof: g.Prof, budget: 5}
			sub.WS = 0
			sub.val(t, 0)
			s := string(sub.b)
			switch g.r.n(4) {
			case 0:
				s += g.r.pick(" ", "x", "\"", "0x", "\n", ",", ".")
			case 1:
				s = g.r.pick(" ", "x", "\"", "-", "\t") + s
			case 2:
				s = s[:g.r.n(len(s))]
			}
			g.str(s)
		case 6:
			sub := Gen{r: g.r, Prof: g.Prof, budget: 5}
			sub.BadNum = 1
			sub.val(t, 0)
			g.str(string(sub.b))
		}
		return
	}
	sub := Gen{r: g.r, Prof: g.Prof, budget: 5}
	sub.Null, sub.Mismatch, sub.BadNum, sub.WS = 0, 0, 0, 0
	sub.val(t, 0)
	g.cleanStr(string(sub.b))
}

// cleanStr writes a string whose contents matter: nothing that isn't in content
// is added to it unless bad values are wanted.
func (g *Gen) cleanStr(content string) {
	bad := g.BadUTF8
	if g.BadNum == 0 {
		g.BadUTF8 = 0
	}
	g.str(content)
	g.BadUTF8 = bad
}

// mutate changes some bytes of doc, typically making it invalid.
func (g *Gen) mutate(doc []byte) []byte {
	out := append([]byte(nil), doc...)
	for k := 1 + g.r.n(3); k > 0; k-- {
		if len(out) == 0 {
			out = append(out, byte(g.r.u64()))
			continue
		}
		i := g.r.n(len(out))
		const tokens = "{}[],:\"\\0123456789-+.eEtfnul \t\n/*'\x00\x1f\x7f\x80\xff"
		switch g.r.n(8) {
		case 0:
			out = append(out[:i], out[i+1:]...)
		case 1:
			out[i] = tokens[g.r.n(len(tokens))]
		case 2:
			out = append(out[:i], append([]byte{tokens[g.r.n(len(tokens))]}, out[i:]...)...)
		case 3:
			out = out[:i]
		case 4:
			j := g.r.n(len(out))
			out[i], out[j] = out[j], out[i]
		case 5:
			out[i] ^= 1 << uint(g.r.n(8))
		case 6:
			out = append(out, g.r.pick(",", "}", "]", "0", " x", "null", "\"", "\x00", "{}", "//", "\xef\xbb\xbf")...)
		case 7: // duplicate a piece
			j := i + g.r.n(len(out)-i+1)
			out = append(out[:j:j], out[i:]...)
		}
	}
	return out
}
