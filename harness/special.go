package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

// chainPhase decodes long chains of recursive types.
func chainPhase(name string, quick, thor int) Phase {
	type step struct{ pre, post string }
	type fam struct {
		t     *Type
		steps []step
		leafs []string
	}
	fams := []fam{
		{typeNamed("*RPtr"), []step{{`{"next":`, `}`}, {`{"v":1,"next":`, `}`}, {`{"next":`, `,"v":2}`}, {`{"next":null,"next":`, `,"v":3}`}}, []string{`{}`, `null`, `{"v":5}`}},
		{typeNamed("*RSlice"), []step{{`{"k":[`, `]}`}, {`{"k":[{"v":"x"},`, `,{"v":"y"}],"v":"z"}`}, {`{"v":"q","k":[`, `,null]}`}, {`{"k":[],"k":[`, `,{"k":[]}]}`}, {`{"k":[{"k":[{},{}]},`, `]}`}}, []string{`{}`, `null`, `{"v":"5"}`, `{"k":[]}`}},
		{typeNamed("*RMap"), []step{{`{"m":{"a":`, `}}`}, {`{"m":{"x":{"v":1},"a":`, `,"y":{"v":2}},"v":3}`}, {`{"v":4,"m":{"b":null,"a":`, `}}`}}, []string{`{}`, `null`, `{"v":5}`, `{"m":{}}`}},
		{typeNamed("RTree"), []step{{`{"l":`, `}`}, {`{"r":`, `,"id":1}`}, {`{"ks":[`, `]}`}, {`{"l":{"id":2},"ks":[{"id":3},`, `],"r":{"s":"r"},"s":"x"}`}, {`{"id":7,"r":`, `,"l":{"ks":[{}]}}`}}, []string{`{}`, `null`, `{"id":5}`, `{"ks":[]}`}},
		{typeNamed("RMix"), []step{{`{"p":`, `}`}, {`{"s":[`, `]}`}, {`{"m":{"a":`, `}}`}, {`{"ps":[`, `]}`}, {`{"mp":{"q":`, `}}`}, {`{"ss":[[],[{},`, `,{}],[]]}`}, {`{"ms":{"3":[`, `]}}`},
			{`{"ap":[null,`, `]}`}, {`{"pp":`, `}`}, {`{"pm":{"k":`, `}}`}, {`{"sm":[{"z":`, `}]}`}, {`{"x":{"p":`, `,"y":3},"z":1}`}, {`{"a":"1","s":[{"a":"2"},`, `,{"a":"3"}],"m":{"b":{"a":"4"}}}`},
			{`{"m":{"b":{"z":1},"a":`, `,"c":{"z":2}},"s":[{"z":3}],"z":4}`}, {`{"ap":[`, `,{"z":9}]}`}, {`{"mp":{"a":null,"b":`, `,"c":{"p":{}}}}`}}, []string{`{}`, `null`, `{"z":5}`, `{"s":[]}`, `{"m":{},"s":null}`}},
		{typeNamed("*RMutA"), []step{{`{"b":{"a":`, `}}`}, {`{"bs":[{"as":[`, `]}]}`}, {`{"bs":[{"w":"1"},{"m":{"k":`, `}},{"w":"2"}],"v":3}`}, {`{"b":{"b":{"a":`, `,"w":"x"},"w":"y"},"v":1}`}, {`{"b":{"as":[{"v":1},`, `,{"v":2}],"b":{"w":"z"}}}`}}, []string{`{}`, `null`, `{"v":5}`}},
		{typeNamed("*RAny"), []step{{`{"k":[`, `]}`}, {`{"n":`, `}`}, {`{"d":[1,{"x":[]}],"k":[{"d":2},`, `,{"u":[3]}],"t":"txt"}`}, {`{"u":{"a":1},"n":`, `,"mm":{"q":[[]]}}`}}, []string{`{}`, `null`, `{"d":5}`}},
		{typeNamed("*RBelow"), []step{{`{"arr":[{"r":`, `}]}`}, {`{"arr":[{"q":1},{"r":`, `,"q":2}],"v":3}`}, {`{"map":{"a":{"r":[`, `]}}}`}, {`{"map":{"a":{"q":1,"r":[{"v":1},`, `,{"v":2}]},"b":{"q":2}},"v":7}`}}, []string{`{}`, `null`, `{"v":5}`}},
		{typeNamed("*RText"), []step{{`{"m":{"a":`, `}}`}, {`{"i":{"5":`, `}}`}, {`{"e":{"x":`, `}}`}, {`{"m":{"x":{"v":true},"a":`, `,"y":{}},"i":{"1":{}},"v":true}`}}, []string{`{}`, `null`, `{"v":true}`}},
		{typeNamed("*RBig"), []step{{`{"m":{"a":`, `}}`}, {`{"s":[`, `]}`}, {`{"p":`, `}`}, {`{"pad":[1,2],"s":[{"pad":[3]},`, `,{"pad":[4]}],"p":{"pad":[5]}}`}}, []string{`{}`, `null`, `{"pad":[1]}`}},
		{typeNamed("*RNum"), []step{{`{"p":`, `}`}, {`{"s":[`, `]}`}, {`{"m":{"1":`, `}}`}, {`{"n":1.50,"s":[{"n":"2"},`, `],"m":{"3":{"n":4}}}`}}, []string{`{}`, `null`, `{"n":5}`}},
		{typeNamed("*PosR[int]"), []step{{`{"k":[`, `]}`}, {`{"x":`, `}`}, {`{"m":{"a":`, `}}`}, {`{"mp":{"1":`, `}}`}, {`{"sk":[[],[`, `]]}`}, {`{"v":1,"sk":[[{"v":2}],[{"v":3},`, `,{"v":4}]],"ms":{"a":[1,2]},"ss":[[5,null]],"z":6}`}}, []string{`{}`, `null`, `{"v":5}`}},
		{typeNamed("*PosR[string]"), []step{{`{"k":[`, `]}`}, {`{"x":`, `,"v":"1"}`}, {`{"m":{"a":`, `}}`}, {`{"mp":{"1":`, `},"r":["a"]}`}, {`{"ms":{"u":["v"]},"sk":[[],[`, `]]}`}}, []string{`{}`, `null`, `{"v":"q"}`}},
		{typeNamed("any"), []step{{`[`, `]`}, {`{"a":`, `}`}, {`[1,{"b":[]},`, `,[[]],{}]`}, {`{"a":[],"b":`, `,"c":{}}`}}, []string{`{}`, `null`, `1`, `"x"`}},
	}
	return Phase{
		Name: name, Variant: "plain", Quick: quick, Thor: thor,
		Run: func(w *W, idx uint64, r *rng) {
			f := fams[int(idx)%len(fams)]
			d := []int{1, 2, 5, 20, 63, 64, 65, 130, 400, 1000}[r.n(10)]
			if w.Tier == "thorough" && r.n(4) == 0 {
				d = 1000 + r.n(1500)
			}
			mixed := r.n(3) != 0
			st := f.steps[r.n(len(f.steps))]
			var b bytes.Buffer
			posts := make([]string, d)
			for i := 0; i < d; i++ {
				if mixed {
					st = f.steps[r.n(len(f.steps))]
				}
				b.WriteString(st.pre)
				posts[i] = st.post
			}
			leaf := f.leafs[r.n(len(f.leafs))]
			if r.n(10) == 0 {
				leaf = r.pick("1", `"x"`, "[]", "[[]]", "{\"zz\":{}}", "true", "1e999", "{", "]", "")
			}
			b.WriteString(leaf)
			for i := d - 1; i >= 0; i-- {
				b.WriteString(posts[i])
			}
			c := &Case{T: f.t, Doc: b.Bytes(), Flags: CmpValue | CmpErr | CmpSyntax, Str: r.n(2) == 0, Fresh: r.n(3) == 0}
			w.diff(c)
			w.nontrivial(caseHash(c))
			if d >= 1000 {
				w.obs("deepest-chain-1000")
			}
			w.sample(c.String)
		},
	}
}

// nilDestPhase decodes into nil destinations.
func nilDestPhase(name string, quick, thor int) Phase {
	return Phase{
		Name: name, Variant: "plain", Quick: quick, Thor: thor,
		Run: func(w *W, idx uint64, r *rng) {
			t := allTypes[int(idx)%len(allTypes)]
			g := newGen(r, profDefault)
			doc := g.Doc(t.R)
			if r.n(3) == 0 {
				doc = g.mutate(doc)
			}
			if r.n(8) == 0 {
				doc = nil
			}
			in := exact(doc)
			str := r.n(2) == 0
			o := randOpts(r)
			w.desc = func() string { return fmt.Sprintf("type=%s input=%q string=%v destination=nil", t.Name, doc, str) }
			w.Evals++
			w.nontrivial(mix(hashStr(t.Name), hashBytes(doc)))
			dst := reflect.Zero(reflect.PointerTo(t.T)).Interface()
			for i := 0; i < 2; i++ {
				res := w.call(func() (int, error) { return w.decoder(t, str, i == 1).Decode(in, dst, &o) })
				if !errors.Is(res.Err, jscandec.ErrNilDest) {
					w.fail("Decode returned %v", res.Err)
				}
				if res.Index == -1 {
					w.fail("Decode returned index %d and %v", res.Index, res.Err)
				}
				if len(res.Ev) != 0 {
					w.fail("unmarshaler called")
				}
				res = w.call(func() (int, error) {
					if str {
						return -1, t.UnmS(in, dst)
					}
					return -1, t.UnmB(in, dst)
				})
				if !errors.Is(res.Err, jscandec.ErrNilDest) {
					w.fail("Unmarshal returned %v", res.Err)
				}
			}
			w.obs("nil-destinations")
		},
	}
}

// anyDepthPhase decodes documents with about 10000 levels into any.
func anyDepthPhase(name string, quick, thor int) Phase {
	types := []*Type{typeNamed("any"), typeNamed("[]any"), typeNamed("map[string]any"), typeNamed("*RAny"), typeNamed("*Pos[any]"), typeNamed("NAny"), typeNamed("*any"), typeNamed("*[2]any")}
	wrap := map[string][2]string{
		"any": {"", ""}, "[]any": {"[", "]"}, "map[string]any": {`{"x":`, "}"}, "*RAny": {`{"k":[{"d":`, "}]}"},
		"*Pos[any]": {`{"mm":{"1":{"a":`, `}}}`}, "NAny": {"", ""}, "*any": {"", ""}, "*[2]any": {"[0,", "]"},
	}
	depths := []int{9990, 9998, 9999, 10000, 10001, 10002, 10003, 12000, 100000}
	return Phase{
		Name: name, Variant: "plain", Quick: quick, Thor: thor,
		Run: func(w *W, idx uint64, r *rng) {
			t := types[int(idx)%len(types)]
			d := depths[r.n(len(depths))]
			wr := wrap[t.Name]
			var b bytes.Buffer
			b.WriteString(wr[0])
			mode := r.n(3)
			bad := -1
			closers := make([]byte, 0, d)
			for i := 0; i < d; i++ {
				if i == 10000 {
					bad = b.Len()
				}
				if mode == 0 || mode == 2 && r.n(2) == 0 {
					b.WriteByte('[')
					closers = append(closers, ']')
				} else {
					if i == d-1 {
						b.WriteByte('{')
					} else {
						b.WriteString(`{"a":`)
					}
					closers = append(closers, '}')
				}
			}
			for i := d - 1; i >= 0; i-- {
				b.WriteByte(closers[i])
			}
			b.WriteString(wr[1])
			doc := b.Bytes()
			str := r.n(2) == 0
			w.desc = func() string { return fmt.Sprintf("type=%s depth=%d mode=%d string=%v", t.Name, d, mode, str) }
			w.Evals++
			w.nontrivial(mix(hashStr(t.Name), hashBytes(doc)))
			dst := reflect.New(t.T)
			o := jscandec.DecodeOptions{}
			res := w.call(func() (int, error) { return w.decoder(t, str, false).Decode(doc, dst.Interface(), &o) })
			wd := strings.Count(wr[0], "[") + strings.Count(wr[0], "{")
			switch {
			case d > 10000:
				if !errors.Is(res.Err, jscandec.ErrExceededMaxDepth) {
					w.fail("%d levels inside of any: error %v", d, res.Err)
				}
				if res.Index != bad {
					w.fail("%d levels inside of any: error index %d, expected %d", d, res.Index, bad)
				}
				w.obs("max-depth-errors")
			case d+wd <= 10000:
				if res.Err != nil || res.Index != -1 {
					w.fail("%d levels: error %v at %d", d, res.Err, res.Index)
				}
				n := 0
				for v := anyIn(dst.Elem(), wr[0]); v != nil; n++ {
					switch x := v.(type) {
					case []any:
						v = nil
						if len(x) > 0 {
							v = x[0]
						}
					case map[string]any:
						v = x["a"]
					default:
						w.fail("unexpected value of type %T inside", v)
					}
				}
				if n != d {
					w.fail("%d levels were decoded as %d", d, n)
				}
				w.obs("max-depth-accepted")
			}
			if d > 20000 {
				runtime.GC()
			}
		},
	}
}

// anyIn extracts the nested value of anyDepthPhase.
func anyIn(v reflect.Value, wrap string) any {
	for v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	switch wrap {
	case "":
	case "[":
		v = v.Index(0)
	case "[0,":
		v = v.Index(1)
	case `{"x":`:
		v = v.MapIndex(reflect.ValueOf("x"))
	case `{"k":[{"d":`:
		v = v.FieldByName("K").Index(0).FieldByName("D")
	default:
		v = v.FieldByName("MM").MapIndex(reflect.ValueOf(int8(1))).MapIndex(reflect.ValueOf(NString("a")))
	}
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	return v.Interface()
}

// C13

type seqStep struct {
	t    *Type
	str  bool
	doc  []byte
	fill uint64
	opts jscandec.DecodeOptions
	nil_ bool
	keep bool
}

func (s *seqStep) String() string {
	return fmt.Sprintf("{type=%s string=%v input=%q prefill=%d options=%+v nil=%v same-destination=%v}", s.t.Name, s.str, s.doc, s.fill, s.opts, s.nil_, s.keep)
}

// panicky replaces error markers such that unmarshalers panic.
func panicky(doc []byte, r *rng) []byte {
	for _, m := range []string{"#err1", "#boom", "#errx", "#err key"} {
		if r.n(2) == 0 {
			doc = bytes.ReplaceAll(doc, []byte(m), []byte("#panic"))
		}
	}
	return doc
}

func checkC13() *Check {
	unmT := typesWith(FJSONUnm|FTextUnm, func(t *Type) bool { return t.Feat&(FMap|FSlice|FStruct|FRecur) != 0 })
	recT := typesWith(FRecur, nil)
	seq := func(types []*Type, prof Prof) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			toks := NewToks()
			input := exact
			if r.n(2) == 0 {
				// All inputs are in the same buffer.
				buf := make([]byte, 4096)
				input = func(doc []byte) []byte {
					if len(doc) > len(buf) {
						return exact(doc)
					}
					n := copy(buf, doc)
					return buf[:n:n]
				}
			}
			nt := 1 + r.n(3)
			var ts []*Type
			for i := 0; i < nt; i++ {
				ts = append(ts, types[r.n(len(types))])
			}
			decs := map[*Type][2]Dec{}
			for _, t := range ts {
				b, err := t.NewB(toks, jscandec.DefaultInitOptions)
				if err != nil {
					w.fail("NewDecoder %s: %v", t.Name, err)
				}
				s, err := t.NewS(toks, jscandec.DefaultInitOptions)
				if err != nil {
					w.fail("NewDecoder %s: %v", t.Name, err)
				}
				decs[t] = [2]Dec{b, s}
			}
			type pair struct{ a, b any }
			last := map[*Type]pair{}
			var retained []pair
			var steps []*seqStep
			w.desc = func() string {
				var b strings.Builder
				for i, s := range steps {
					fmt.Fprintf(&b, "step %d: %s\n", i, s)
				}
				return b.String()
			}
			k := 3 + r.n(8)
			var h uint64
			for i := 0; i < k; i++ {
				t := ts[r.n(len(ts))]
				p := prof
				switch r.n(6) {
				case 0:
					p.Mismatch, p.BadNum = 0.1, 0.1
				case 1:
					p.UnmErr = 0.3
				case 2:
					p = profValid
				}
				g := newGen(r, p)
				g.budget = 60
				s := &seqStep{t: t, str: r.n(2) == 0}
				s.doc = append([]byte(nil), g.Doc(t.R)...)
				if r.n(5) == 0 {
					s.doc = g.mutate(s.doc)
				}
				if r.n(3) == 0 {
					s.doc = panicky(s.doc, r)
				}
				if r.n(3) == 0 {
					s.opts = randOpts(r)
				}
				if r.n(2) == 0 {
					s.fill = r.u64() | 1
				}
				s.nil_ = r.n(30) == 0
				var pr pair
				if l, ok := last[t]; ok && r.n(5) == 0 {
					s.keep, pr = true, l
				} else {
					a, b := reflect.New(t.T), reflect.New(t.T)
					if s.fill != 0 {
						fillRoot(a.Elem(), s.fill)
						fillRoot(b.Elem(), s.fill)
					}
					pr = pair{a.Interface(), b.Interface()}
				}
				steps = append(steps, s)
				w.Evals++
				h = mix(h, hashStr(t.Name), hashBytes(s.doc), s.fill)
				fresh := t.NewB
				if s.str {
					fresh = t.NewS
				}
				fd, err := fresh(NewToks(), jscandec.DefaultInitOptions)
				if err != nil {
					w.fail("NewDecoder %s: %v", t.Name, err)
				}
				da, db := pr.a, pr.b
				if s.nil_ {
					da = reflect.Zero(reflect.PointerTo(t.T)).Interface()
					db = da
				}
				oa, ob := s.opts, s.opts
				ra := w.call(func() (int, error) { return decs[t][b2u(s.str)].Decode(input(s.doc), da, &oa) })
				rb := w.call(func() (int, error) { return fd.Decode(exact(s.doc), db, &ob) })
				w.sameResults("used decoder", "fresh decoder", ra, rb)
				if d := equalValues(reflect.ValueOf(pr.a).Elem(), reflect.ValueOf(pr.b).Elem()); d != "" {
					w.fail("contents after a used decoder and a fresh decoder differ: %s\n used: %s\nfresh: %s", d,
						render(reflect.ValueOf(pr.a).Elem()), render(reflect.ValueOf(pr.b).Elem()))
				}
				switch {
				case ra.Panic != nil:
					w.obs("calls-panicked")
				case ra.Err != nil:
					w.obs("calls-failed")
				default:
					w.obs("calls-succeeded")
				}
				if i > 0 {
					w.obs("calls-after-calls")
				}
				last[t] = pr
				retained = append(retained, pr)
			}
			// Earlier results weren't modified by later calls.
			for i, pr := range retained {
				if d := equalValues(reflect.ValueOf(pr.a).Elem(), reflect.ValueOf(pr.b).Elem()); d != "" {
					w.fail("the result of step %d was modified by a later call: %s", i, d)
				}
			}
			w.nontrivial(h)
			w.obs("histories")
			w.sample(w.desc)
		}
	}
	p := profDefault
	p.UnmErr = 0.03
	// The number of calls between two calls is around a power of two.
	many := func(period int) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			t := allTypes[r.n(len(allTypes))]
			str := r.n(2) == 0
			mk := t.NewB
			if str {
				mk = t.NewS
			}
			toks := NewToks()
			d, err := mk(toks, jscandec.DefaultInitOptions)
			if err != nil {
				w.fail("NewDecoder %s: %v", t.Name, err)
			}
			type step struct {
				doc  []byte
				opts jscandec.DecodeOptions
				want any
				res  Result
			}
			var steps [3]step
			for i := range steps {
				p := profValid
				switch i {
				case 0:
					p.Missing, p.Null = 0, 0
				case 1:
					p.Missing = 0.9
					if r.n(4) == 0 {
						p.Mismatch, p.BadNum, p.UnmErr = 0.2, 0.1, 0.2
					}
				case 2:
					p.Missing, p.Null = 0.7, 0.2
					if r.n(4) == 0 {
						p.Mismatch, p.BadNum = 0.1, 0.1
					}
				}
				g := newGen(r, p)
				g.budget = 25
				doc := append([]byte(nil), g.Doc(t.R)...)
				if i == 1 {
					switch r.n(4) {
					case 0:
						doc = []byte("null")
					case 1:
						doc = []byte(r.pick("{}", "[]", "0", "1 ", "[[", `""`))
					}
					if len(doc) > 40 {
						doc = []byte(r.pick("null", "{}", "[]"))
					}
				}
				s := &steps[i]
				s.doc = exact(doc)
				if r.n(4) == 0 {
					s.opts = randOpts(r)
				}
			}
			gap := 0
			w.desc = func() string {
				return fmt.Sprintf("type=%s string=%v: %q (options %+v), then %d times %q (options %+v), then %q (options %+v)", t.Name, str,
					steps[0].doc, steps[0].opts, gap, steps[1].doc, steps[1].opts, steps[2].doc, steps[2].opts)
			}
			for i := range steps {
				s := &steps[i]
				fd, err := mk(NewToks(), jscandec.DefaultInitOptions)
				if err != nil {
					w.fail("NewDecoder %s: %v", t.Name, err)
				}
				s.want = reflect.New(t.T).Interface()
				o := s.opts
				s.res = w.call(func() (int, error) { return fd.Decode(s.doc, s.want, &o) })
			}
			buf := make([]byte, 256)
			shared := r.n(2) == 0
			run := func(i int, check bool) {
				s := &steps[i]
				in := s.doc
				if shared && len(in) <= len(buf) {
					in = buf[:copy(buf, in)]
				}
				dst := reflect.New(t.T)
				di := dst.Interface()
				o := s.opts
				res := w.call(func() (int, error) { return d.Decode(in, di, &o) })
				if !check && res.Index == s.res.Index {
					return
				}
				w.sameResults("used decoder", "fresh decoder", res, s.res)
				if d := equalValues(dst.Elem(), reflect.ValueOf(s.want).Elem()); d != "" {
					w.fail("contents after a used decoder and a fresh decoder differ: %s\n used: %s\nfresh: %s", d,
						render(dst.Elem()), render(reflect.ValueOf(s.want).Elem()))
				}
			}
			for delta := -2; delta <= 2; delta++ {
				gap = period + delta - 1
				run(0, true)
				for i := 0; i < gap; i++ {
					run(1, i%64 == 0)
				}
				run(2, true)
				w.Evals += uint64(gap) + 2
			}
			w.nontrivial(mix(hashStr(t.Name), hashBytes(steps[0].doc), hashBytes(steps[2].doc), uint64(period)))
			w.obs("long-histories")
			w.sample(w.desc)
		}
	}
	return &Check{
		ID:   "C13",
		Rule: "distinct histories of 3 to 10 calls (types, inputs, options, prefills) or of 256 or 65,536 calls",
		Phases: []Phase{
			{Name: "histories", Variant: "plain", Quick: 50000, Thor: 1200000, Run: seq(allTypes, p)},
			{Name: "recursive", Variant: "plain", Quick: 40000, Thor: 900000, Run: seq(recT, p)},
			{Name: "unmarshalers", Variant: "plain", Quick: 40000, Thor: 900000, Run: seq(unmT, p)},
			{Name: "many-calls-256", Variant: "plain", Quick: 16000, Thor: 200000, Run: many(256)},
			{Name: "many-calls-65536", Variant: "plain", Quick: 160, Thor: 2000, Run: many(65536)},
		},
		Need: []string{"calls-succeeded", "calls-failed", "calls-panicked", "calls-after-calls", "long-histories"},
	}
}

// sameResults compares the outcomes of two calls.
func (w *W) sameResults(na, nb string, a, b Result) {
	if (a.Panic != nil) != (b.Panic != nil) || a.Panic != nil && a.Panic != b.Panic {
		w.fail("%s: panic %v, %s: panic %v", na, a.Panic, nb, b.Panic)
	}
	if a.Panic != nil {
		return
	}
	if !equivErr(a.Err, b.Err) {
		w.fail("%s: error %v at %d, %s: error %v at %d", na, a.Err, a.Index, nb, b.Err, b.Index)
	}
	if a.Index != b.Index {
		w.fail("%s: index %d, %s: index %d (%v)", na, a.Index, nb, b.Index, a.Err)
	}
	if len(a.Ev) != len(b.Ev) {
		w.fail("%s: %d calls of unmarshalers, %s: %d", na, len(a.Ev), nb, len(b.Ev))
	}
	for i := range a.Ev {
		if a.Ev[i] != b.Ev[i] {
			w.fail("%s: call %d of unmarshaler %+v, %s: %+v", na, i, a.Ev[i], nb, b.Ev[i])
		}
	}
}

// equivErr tells whether two errors are equivalent, regardless of whether the
// input was a string or []byte.
func equivErr(a, b error) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	ia, ca, oka := jscanErr(a)
	ib, cb, okb := jscanErr(b)
	if oka || okb {
		return oka && okb && ia == ib && ca == cb
	}
	for _, s := range []error{
		jscandec.ErrUnexpectedValue, jscandec.ErrIntegerOverflow, jscandec.ErrUnknownField,
		jscandec.ErrExceededMaxDepth, jscandec.ErrNilDest, errBoom,
		jscandec.ErrStringTagOptionOnUnsupportedType,
	} {
		if errors.Is(a, s) != errors.Is(b, s) {
			return false
		}
	}
	return a.Error() == b.Error() && reflect.TypeOf(a) == reflect.TypeOf(b)
}

// C14

func checkC14() *Check {
	run := func(types []*Type, prof Prof, spare bool, flags Flags) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			t := types[r.n(len(types))]
			seed := r.u64() | 1
			mk := func(x reflect.Type) any {
				v := reflect.New(x)
				fillRoot(v.Elem(), seed)
				return v.Interface()
			}
			dst, ref, std := mk(t.T), mk(t.R), mk(t.R)
			k := 1 + r.n(5)
			var hist []string
			for i := 0; i < k; i++ {
				g := newGen(r, prof)
				g.budget = 60
				if r.n(4) == 0 {
					g.Null = 0.3
				}
				if r.n(4) == 0 {
					g.MaxElems = 12
				}
				c := &Case{
					T: t, Doc: append([]byte(nil), g.Doc(t.R)...), Str: r.n(2) == 0, Flags: flags,
					Dst: dst, RefDst: ref, Unm: r.n(20) == 0,
					Note: fmt.Sprintf("prefill=%d history=%q", seed, hist),
				}
				if !spare {
					for _, v := range []any{dst, ref, std} {
						zeroSpare(reflect.ValueOf(v), 0)
					}
				}
				o := w.diff(c)
				if !o.Ok || o.Undef || o.Res.Err != nil || o.Res.Panic != nil {
					break
				}
				w.nontrivial(mix(caseHash(c), seed, uint64(i)))
				if i > 0 {
					w.obs("decoded-into-results")
				}
				if !spare {
					evEnabled = false
					err := json.Unmarshal(c.Doc, std)
					evEnabled = true
					d := ""
					if err != nil {
						d = err.Error()
					} else {
						d = equalValues(reflect.ValueOf(ref).Elem(), reflect.ValueOf(std).Elem())
					}
					w.obs("oracle-validated")
					if d != "" {
						w.oracleMismatch(fmt.Sprintf("%s: %s", c, d))
					}
				}
				w.sample(c.String)
				hist = append(hist, string(c.Doc))
			}
		}
	}
	p := profValid
	p.Null = 0.1
	p.Missing = 0.4
	deep := p
	deep.MaxDepth, deep.MaxElems = 10, 3
	fl := CmpValue | CmpIdent | CmpEvents
	return &Check{
		ID:   "C14",
		Rule: "distinct (type, existing contents, sequence of up to 5 documents decoded into the same variable)",
		Phases: []Phase{
			{Name: "merge", Variant: "plain", Quick: 170000, Thor: 4000000, Run: run(allTypes, p, false, fl)},
			{Name: "containers", Variant: "plain", Quick: 100000, Thor: 3000000, Run: run(typesWith(FMap|FSlice|FArray, nil), deep, false, fl)},
			{Name: "spare-capacity", Variant: "plain", Quick: 60000, Thor: 2000000, Run: run(typesWith(FSlice, nil), p, true, fl)},
		},
		Need: []string{"expect-ok", "objects-reused", "objects-created", "decoded-into-results", "oracle-validated"},
	}
}

func (w *W) oracleMismatch(m string) {
	m = "ORACLE MISMATCH " + m
	if w.verbose {
		fmt.Println(m)
	}
	w.Mismatch = append(w.Mismatch, m)
	w.writeStats()
	fmt.Println(m)
	println(m)
	exit(exitOracle)
}

// C17

func checkC17() *Check {
	run := func(c cfg) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			x := c.gen(r, idx)
			if r.n(10) == 0 {
				x.Doc = panicky(x.Doc, r)
			}
			w.desc = x.String
			w.Evals++
			var res [2]Result
			var dst [2]reflect.Value
			fresh := r.n(50) == 0
			for k := range res {
				dst[k] = reflect.New(x.T.T)
				if x.Fill != 0 {
					fillRoot(dst[k].Elem(), x.Fill)
				}
				o := x.Opts
				res[k] = w.call(func() (int, error) {
					if x.Unm {
						if k == 0 {
							return -1, x.T.UnmB(exact(x.Doc), dst[k].Interface())
						}
						return -1, x.T.UnmS(exact(x.Doc), dst[k].Interface())
					}
					return w.decoder(x.T, k == 1, fresh).Decode(exact(x.Doc), dst[k].Interface(), &o)
				})
			}
			w.sameResults("[]byte input", "string input", res[0], res[1])
			if d := equalValues(dst[0].Elem(), dst[1].Elem()); d != "" {
				w.fail("[]byte and string inputs give different values: %s\n[]byte: %s\nstring: %s", d, render(dst[0].Elem()), render(dst[1].Elem()))
			}
			switch {
			case res[0].Panic != nil:
				w.obs("pairs-panicked")
			case res[0].Err != nil:
				w.obs("pairs-failed")
			default:
				w.obs("pairs-succeeded")
			}
			w.nontrivial(caseHash(x))
			w.sample(x.String)
		}
	}
	e := profDefault
	e.Mismatch, e.BadNum, e.UnmErr = 0.03, 0.08, 0.03
	esc := profDefault
	esc.Esc, esc.BadUTF8, esc.KeyVar = 0.8, 0.4, 0.5
	hugeProf := e
	hugeProf.Huge, hugeProf.Big, hugeProf.Mismatch, hugeProf.BadNum, hugeProf.UnmErr = 1, 0, 0.0003, 0.0006, 0.0003
	return &Check{
		ID:   "C17",
		Rule: "distinct (type, document, options, prefill) decoded from both []byte and string",
		Phases: []Phase{
			{Name: "pairs", Variant: "plain", Quick: 500000, Thor: 12000000, Run: run(cfg{types: allTypes, prof: profDefault, fill: 0.3, opts: 0.2, unm: 0.1})},
			{Name: "errors", Variant: "plain", Quick: 400000, Thor: 9000000, Run: run(cfg{types: allTypes, prof: e, fill: 0.3, opts: 0.4, mutate: 0.3})},
			{Name: "strings", Variant: "plain", Quick: 300000, Thor: 8000000, Run: run(cfg{types: typesWith(FString|FAny|FStringTag|FTextUnm|FBytes|FKeyStr|FKeyText|FNumber, nil), prof: esc, fill: 0.2, opts: 0.2})},
			{Name: "huge", Variant: "plain", Quick: 1500, Thor: 30000, Run: run(cfg{types: smallElems(allTypes), prof: hugeProf, fill: 0.1, opts: 0.2, mutate: 0.1})},
			{Name: "pairs-32bit", Variant: "386", Quick: 80000, Thor: 1500000, Run: run(cfg{types: allTypes, prof: e, fill: 0.3, opts: 0.2, mutate: 0.1})},
		},
		Need: []string{"pairs-succeeded", "pairs-failed", "pairs-panicked"},
	}
}

// C22

func checkC22() *Check {
	run := func(c cfg) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			x := c.gen(r, idx)
			if r.n(8) == 0 {
				x.Doc = panicky(x.Doc, r)
			}
			if r.n(8) == 0 {
				for _, m := range []string{"#err1", "#boom", "#errx", "#err key"} {
					x.Doc = bytes.ReplaceAll(x.Doc, []byte(m), []byte(r.pick("#tagopt", "#nildest", "#unknown", "#depth")))
				}
			}
			w.desc = x.String
			w.Evals++
			var dst [2]reflect.Value
			for k := range dst {
				dst[k] = reflect.New(x.T.T)
				if x.Fill != 0 {
					fillRoot(dst[k].Elem(), x.Fill)
				}
			}
			in := exact(x.Doc)
			a := w.call(func() (int, error) {
				if x.Str {
					return 0, x.T.UnmS(in, dst[0].Interface())
				}
				return 0, x.T.UnmB(in, dst[0].Interface())
			})
			if !bytes.Equal(in, x.Doc) {
				w.fail("the input was modified")
			}
			b := w.call(func() (int, error) {
				return w.decoder(x.T, x.Str, r.n(4) == 0).Decode(exact(x.Doc), dst[1].Interface(), jscandec.DefaultOptions)
			})
			a.Index = b.Index
			w.sameResults("Unmarshal", "Decode", a, b)
			if d := equalValues(dst[0].Elem(), dst[1].Elem()); d != "" {
				w.fail("Unmarshal and Decode give different values: %s\nUnmarshal: %s\n   Decode: %s", d, render(dst[0].Elem()), render(dst[1].Elem()))
			}
			switch {
			case a.Panic != nil:
				w.obs("pairs-panicked")
			case a.Err != nil:
				w.obs("pairs-failed")
			default:
				w.obs("pairs-succeeded")
			}
			w.nontrivial(caseHash(x))
			w.sample(x.String)
		}
	}
	e := profDefault
	e.Mismatch, e.BadNum, e.UnmErr = 0.03, 0.06, 0.05
	unm := e
	unm.UnmErr = 0.2
	big := profValid
	big.MaxElems, big.Big = 20, 0.3
	return &Check{
		ID:   "C22",
		Rule: "distinct (type, document, prefill) given to both Unmarshal and Decode",
		Phases: []Phase{
			{Name: "pairs", Variant: "plain", Quick: 300000, Thor: 7000000, Run: run(cfg{types: allTypes, prof: profDefault, fill: 0.4})},
			{Name: "errors", Variant: "plain", Quick: 200000, Thor: 5000000, Run: run(cfg{types: allTypes, prof: e, fill: 0.3, mutate: 0.3})},
			{Name: "unmarshalers", Variant: "plain", Quick: 100000, Thor: 2000000, Run: run(cfg{types: typesWith(FJSONUnm|FTextUnm|FKeyText, nil), prof: unm, fill: 0.3})},
			{Name: "big", Variant: "plain", Quick: 20000, Thor: 400000, Run: run(cfg{types: allTypes, prof: big, fill: 0.2, budget: 2000})},
			diffPhase("merge", "plain", 100000, 2000000, cfg{types: allTypes, prof: profDefault, fill: 1, unm: 1, flags: CmpValue | CmpIdent | CmpEvents}),
			newDecoderPhase("types", 1),
			nilDestPhase("nil-destination", 2000, 20000),
		},
		Need: []string{"pairs-succeeded", "pairs-failed", "pairs-panicked", "types-rejected", "types-accepted", "nil-destinations"},
	}
}
