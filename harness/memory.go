package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

func exit(code int) { os.Exit(code) }

// arena is a piece of memory outside of the Go heap between two inaccessible pages.
type arena struct {
	all  []byte
	mem  []byte // accessible part
	page int
}

func newArena(size int) *arena {
	p := os.Getpagesize()
	size = (size + p - 1) / p * p
	m, err := syscall.Mmap(-1, 0, size+2*p, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	a := &arena{all: m, mem: m[p : p+size : p+size], page: p}
	a.protect(m[:p], syscall.PROT_NONE)
	a.protect(m[p+size:], syscall.PROT_NONE)
	return a
}

func (a *arena) protect(b []byte, prot int) {
	if err := syscall.Mprotect(b, prot); err != nil {
		panic(err)
	}
}

// put copies doc to the end or start of the arena.
func (a *arena) put(doc []byte, atEnd bool) []byte {
	var in []byte
	if atEnd {
		in = a.mem[len(a.mem)-len(doc):]
	} else {
		in = a.mem[:len(doc):len(doc)]
	}
	copy(in, doc)
	return in
}

func (a *arena) contains(p unsafe.Pointer) bool {
	b := uintptr(unsafe.Pointer(&a.mem[0]))
	return uintptr(p) >= b && uintptr(p) < b+uintptr(len(a.mem))
}

var growSink byte

// growStack makes the stack of the goroutine move.
//
//go:noinline
func growStack(n int) byte {
	var b [1024]byte
	b[n%1024] = byte(n)
	if n <= 0 {
		return b[0]
	}
	return growStack(n-1) + b[n%1024]
}

type retainedRes struct {
	dst, ref reflect.Value
	desc     string
}

// startGC runs the garbage collector permanently in the background.
func startGC() {
	debug.SetGCPercent(10)
	go func() {
		for {
			runtime.GC()
			time.Sleep(200 * time.Microsecond)
		}
	}()
}

// gcPhase decodes while the garbage collector runs permanently, retains the
// results and verifies them again much later.
func gcPhase(name, variant string, quick, thor int, env []string, gc bool, c cfg) Phase {
	if c.prof.MaxElems == 0 {
		c.prof = profDefault
	}
	const ringSize = 128
	ring := make([]retainedRes, ringSize)
	pos := 0
	verify := func(w *W, x retainedRes) {
		if !x.dst.IsValid() {
			return
		}
		w.desc = func() string { return x.desc }
		if d := equalValues(x.dst.Elem(), x.ref.Elem()); d != "" {
			w.fail("a decoded value changed after Decode returned: %s\n got: %s\nwant: %s", d, render(x.dst.Elem()), render(x.ref.Elem()))
		}
		w.obs("results-verified-later")
	}
	var hookRng rng
	return Phase{
		Name: name, Variant: variant, Quick: quick, Thor: thor, Env: env,
		Init: func(w *W) {
			hookRng = rng{s: 99}
			unmHook = func() {
				switch hookRng.n(40) {
				case 0:
					runtime.GC()
					w.obs("collections-in-unmarshalers")
				case 1, 2, 3, 4, 5, 6:
					growSink += growStack(4 + hookRng.n(60))
					w.obs("stack-growths-in-unmarshalers")
				case 7:
					runtime.Gosched()
				}
			}
			if gc {
				startGC()
			}
		},
		Run: func(w *W, idx uint64, r *rng) {
			x := c.gen(r, idx)
			x.Flags = CmpValue | CmpEvents
			w.desc = x.String
			o := w.diff(x)
			if r.n(8) == 0 {
				// A new goroutine starts with a small stack.
				done := make(chan struct{})
				go func() {
					defer close(done)
					dst := reflect.New(x.T.T)
					d, err := x.T.NewB(NewToks(), jscandec.DefaultInitOptions)
					if err != nil {
						return
					}
					defer func() { _ = recover() }()
					evEnabled = false
					defer func() { evEnabled = true }()
					oo := x.Opts
					_, err = d.Decode(exact(x.Doc), dst.Interface(), &oo)
					if (err == nil) != (o.Res.Err == nil) && x.Fill == 0 && !x.Str {
						w.fail("error on another goroutine: %v, before: %v", err, o.Res.Err)
					}
				}()
				<-done
			}
			w.nontrivial(caseHash(x))
			w.desc = x.String
			w.extents("", reflect.ValueOf(o.Dst).Elem(), r, 0)
			if o.Ok && o.Valid && !o.Undef {
				verify(w, ring[pos])
				ring[pos] = retainedRes{dst: reflect.ValueOf(o.Dst), ref: reflect.ValueOf(o.RefDst), desc: x.String()}
				pos = (pos + 1) % ringSize
			}
			// Churn: allocate objects of many sizes that would overwrite freed memory.
			if r.n(4) == 0 {
				churn(r)
			}
			w.sample(x.String)
		},
		Fini: func(w *W) {
			runtime.GC()
			for _, x := range ring {
				verify(w, x)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			w.Obs["garbage-collections"] += uint64(ms.NumGC)
		},
	}
}

//go:linkname checkptrBase runtime.checkptrBase
func checkptrBase(p unsafe.Pointer) uintptr

// extent verifies that n bytes at p belong to one object.
func (w *W) extent(path, what string, p unsafe.Pointer, n uintptr) {
	if n == 0 {
		return
	}
	if p == nil || checkptrBase(p) != checkptrBase(unsafe.Add(p, n-1)) {
		w.fail("%s: %s of %d bytes at %p exceeds the object in memory", path, what, n, p)
	}
	w.obs("extents-verified")
}

// extents verifies that every object v refers to is at least as large as its type,
// length or capacity requires and overwrites the spare capacity of slices.
func (w *W) extents(path string, v reflect.Value, r *rng, depth int) {
	if depth > 2000 {
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.String:
		s := v.String()
		w.extent(path, "string", unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)))
	case reflect.Slice:
		if v.Len() > v.Cap() {
			w.fail("%s: slice of length %d and capacity %d", path, v.Len(), v.Cap())
		}
		if v.Cap() == 0 {
			return
		}
		w.extent(path, "slice", v.UnsafePointer(), uintptr(v.Cap())*t.Elem().Size())
		if v.Cap() > v.Len() && r.n(2) == 0 {
			full := access(v).Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap() && i < v.Len()+8; i++ {
				fill(full.Index(i), r, 5)
			}
			w.obs("spare-capacity-overwritten")
		}
		if k := t.Elem().Kind(); k <= reflect.Complex128 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.extents(path+"[]", v.Index(i), r, depth+1)
		}
	case reflect.Array:
		if k := t.Elem().Kind(); k <= reflect.Complex128 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.extents(path+"[]", v.Index(i), r, depth+1)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			w.extents(path+".key", it.Key(), r, depth+1)
			w.extents(path+".value", it.Value(), r, depth+1)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			w.extent(path, "pointee", v.UnsafePointer(), t.Elem().Size())
			w.extents(path+".*", v.Elem(), r, depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.extents(path, v.Elem(), r, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.extents(path+"."+t.Field(i).Name, v.Field(i), r, depth+1)
		}
	}
}

var churnSink [64]any

func churn(r *rng) {
	for i := 0; i < 8; i++ {
		n := 1 + r.n(40)
		switch r.n(4) {
		case 0:
			b := make([]byte, n*8)
			for j := range b {
				b[j] = 0xEE
			}
			churnSink[r.n(64)] = b
		case 1:
			b := make([]*int, n)
			x := 0x5A5A5A
			for j := range b {
				b[j] = &x
			}
			churnSink[r.n(64)] = b
		case 2:
			churnSink[r.n(64)] = map[string]int{"churn": n}
		case 3:
			b := make([]string, n)
			for j := range b {
				b[j] = "churned"
			}
			churnSink[r.n(64)] = b
		}
	}
}

// guardPhase decodes documents that end or start at an inaccessible page or
// are followed by other bytes.
func guardPhase(name, variant string, quick, thor int, c cfg) Phase {
	if c.prof.MaxElems == 0 {
		c.prof = profDefault
	}
	var a *arena
	return Phase{
		Name: name, Variant: variant, Quick: quick, Thor: thor,
		Init: func(w *W) { a = newArena(1 << 20) },
		Run: func(w *W, idx uint64, r *rng) {
			x := c.gen(r, idx)
			if len(x.Doc) > 1<<19 {
				return
			}
			if r.n(6) == 0 && len(x.Doc) > 0 {
				x.Doc = x.Doc[:r.n(len(x.Doc))] // truncated
			}
			w.Evals++
			w.desc = x.String
			mode := r.n(3)
			var in, tail []byte
			switch mode {
			case 0:
				in = a.put(x.Doc, true)
				w.obs("input-before-guard-page")
			case 1:
				in = a.put(x.Doc, false)
				w.obs("input-after-guard-page")
			case 2:
				// The capacity exceeds the length.
				t := r.pick("0", "}", "]", `"`, "\\u0041\"", "e5", ".5", "123", "null", `,"a":1}`, "\\", "\x80\x80", "\xed\xb8\x80", "ue", "lse", " 1", ":1}", "]]]]", "\"\"")
				buf := append(append(make([]byte, 0, len(x.Doc)+64), x.Doc...), t...)
				in, tail = buf[:len(x.Doc)], buf
				w.obs("input-followed-by-garbage")
			}
			dst, ref := reflect.New(x.T.T), reflect.New(x.T.T)
			if x.Fill != 0 {
				fillRoot(dst.Elem(), x.Fill)
				fillRoot(ref.Elem(), x.Fill)
			}
			o := x.Opts
			got := w.call(func() (int, error) {
				if x.Str {
					return w.decoder(x.T, true, false).(interface {
						DecodeStr(string, any, *jscandec.DecodeOptions) (int, error)
					}).DecodeStr(unsafe.String(unsafe.SliceData(in), len(in)), dst.Interface(), &o)
				}
				return w.decoder(x.T, false, false).Decode(in, dst.Interface(), &o)
			})
			want := w.call(func() (int, error) {
				return w.decoder(x.T, x.Str, false).Decode(exact(x.Doc), ref.Interface(), &o)
			})
			w.sameResults("decoded next to other memory", "decoded alone", got, want)
			if d := equalValues(dst.Elem(), ref.Elem()); d != "" {
				w.fail("the memory next to the input affects the result: %s", d)
			}
			if !bytes.Equal(in, x.Doc) || tail != nil && !bytes.Equal(tail[:len(in)], x.Doc) {
				w.fail("the input was modified")
			}
			w.nontrivial(caseHash(x))
			w.sample(x.String)
		},
	}
}

func checkC15() *Check {
	p := profDefault
	e := profDefault
	e.Mismatch, e.BadNum, e.UnmErr = 0.02, 0.05, 0.03
	ptrT := typesWith(FPtr|FMap|FSlice|FAny|FString, nil)
	recT := typesWith(FRecur|FJSONUnm|FTextUnm, nil)
	clob := []string{"GODEBUG=clobberfree=1"}
	mark := []string{"GODEBUG=gccheckmark=1,clobberfree=1"}
	asan := []string{"ASAN_OPTIONS=halt_on_error=1:exitcode=66:detect_leaks=0"}
	return &Check{
		ID:   "C15",
		Rule: "distinct (type, document, options, prefill) decoded under a memory monitor",
		Phases: []Phase{
			gcPhase("gc", "plain", 60000, 1200000, clob, true, cfg{types: allTypes, prof: p, fill: 0.4, mutate: 0.05}),
			gcPhase("gc-pointers", "plain", 40000, 900000, clob, true, cfg{types: ptrT, prof: p, fill: 0.7}),
			gcPhase("gc-recursive", "plain", 40000, 900000, clob, true, cfg{types: recT, prof: p, fill: 0.3, budget: 80}),
			gcPhase("write-barriers", "plain", 16000, 400000, mark, true, cfg{types: ptrT, prof: p, fill: 0.4, budget: 400}),
			gcPhase("address-sanitizer", "asan", 60000, 1500000, asan, false, cfg{types: allTypes, prof: e, fill: 0.4, mutate: 0.1}),
			gcPhase("address-sanitizer-recursive", "asan", 20000, 500000, asan, false, cfg{types: recT, prof: e, fill: 0.4, budget: 80}),
			guardPhase("guard-pages", "plain", 200000, 5000000, cfg{types: allTypes, prof: e, fill: 0.2, mutate: 0.3, opts: 0.1}),
			guardPhase("guard-pages-checkptr", "asan", 30000, 600000, cfg{types: allTypes, prof: e, fill: 0.2, mutate: 0.3}),
		},
		Need: []string{"expect-ok", "extents-verified", "spare-capacity-overwritten", "garbage-collections", "results-verified-later", "input-before-guard-page", "input-after-guard-page", "input-followed-by-garbage", "collections-in-unmarshalers", "stack-growths-in-unmarshalers"},
		Note: []string{"the asan build also enables checkptr instrumentation (unsafe.Pointer rules)", "gccheckmark=1 makes the collector verify after every cycle that no reachable object was missed (missing write barriers)"},
	}
}

// C16

// strIn counts the string values of v in and outside of the arena.
func (w *W) strIn(v reflect.Value, a *arena, depth int, path string, f func(path string, s string, key bool), g func(path string, p unsafe.Pointer)) {
	if depth > 200 || !v.IsValid() {
		return
	}
	t := v.Type()
	if t.Kind() != reflect.Pointer && t.Kind() != reflect.Interface && (isJSONUnm(t) || isTextUnm(t)) {
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 && v.Len() > 0 {
			g(path, v.UnsafePointer())
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		f(path, v.String(), false)
	case reflect.Slice:
		if v.Len() > 0 && t.Elem().Size() > 0 {
			g(path, v.UnsafePointer())
		}
		for i := 0; i < v.Len() && i < 500; i++ {
			w.strIn(v.Index(i), a, depth+1, fmt.Sprintf("%s[%d]", path, i), f, g)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.strIn(v.Index(i), a, depth+1, fmt.Sprintf("%s[%d]", path, i), f, g)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if it.Key().Kind() == reflect.String && !isTextUnm(it.Key().Type()) {
				f(path+".key", it.Key().String(), true)
			}
			w.strIn(it.Value(), a, depth+1, path+"["+render(it.Key())+"]", f, g)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			g(path, v.UnsafePointer())
			w.strIn(v.Elem(), a, depth+1, path+".*", f, g)
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.strIn(v.Elem(), a, depth+1, path, f, g)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				w.strIn(v.Field(i), a, depth+1, path+"."+t.Field(i).Name, f, g)
			}
		}
	}
}

func checkC16() *Check {
	run := func(c cfg, plain bool) Phase {
		var a *arena
		return Phase{
			Variant: "plain",
			Init:    func(w *W) { a = newArena(1 << 20) },
			Run: func(w *W, idx uint64, r *rng) {
				x := c.gen(r, idx)
				if plain {
					x.Str = r.n(4) != 0
				}
				if len(x.Doc) > 1<<19 || len(x.Doc) == 0 {
					return
				}
				w.Evals++
				w.desc = x.String
				in := a.put(x.Doc, r.n(2) == 0)
				dst, ref := reflect.New(x.T.T), reflect.New(x.T.T)
				if x.Fill != 0 {
					fillRoot(dst.Elem(), x.Fill)
					fillRoot(ref.Elem(), x.Fill)
				}
				o := x.Opts
				if idx/8%8 == 0 {
					// Decoding must not write to the input. (Changing the protection
					// is expensive.)
					a.protect(a.mem, syscall.PROT_READ)
					w.obs("decoded-from-read-only-memory")
				}
				res := w.call(func() (int, error) {
					if x.Str {
						return w.decoder(x.T, true, false).(interface {
							DecodeStr(string, any, *jscandec.DecodeOptions) (int, error)
						}).DecodeStr(unsafe.String(unsafe.SliceData(in), len(in)), dst.Interface(), &o)
					}
					return w.decoder(x.T, false, false).Decode(in, dst.Interface(), &o)
				})
				if idx/8%8 == 0 {
					a.protect(a.mem, syscall.PROT_READ|syscall.PROT_WRITE)
				}
				if !bytes.Equal(in, x.Doc) {
					w.fail("the input was modified: %q", in)
				}
				want := w.call(func() (int, error) {
					return w.decoder(x.T, false, false).Decode(exact(x.Doc), ref.Interface(), &o)
				})
				if x.Str {
					w.strIn(dst.Elem(), a, 0, "", func(path, s string, key bool) {
						if len(s) == 0 {
							return
						}
						in := a.contains(unsafe.Pointer(unsafe.StringData(s)))
						if in {
							w.obs("strings-referring-to-the-source")
						}
						if plain && !key && !in {
							w.fail("%s: the string %q was copied", path, s)
						}
					}, func(path string, p unsafe.Pointer) {
						if a.contains(p) {
							w.fail("%s refers to the (immutable) source string", path)
						}
						w.obs("mutable-values-checked")
					})
					if idx%16 == 0 {
						// The source stays valid but mustn't have been changed by the above.
						if d := equalValues(dst.Elem(), ref.Elem()); d != "" && res.Err == nil {
							w.fail("wrong value: %s", d)
						}
					}
					// Strings may refer to the arena; forget dst.
					w.nontrivial(caseHash(x))
					w.sample(x.String)
					return
				}
				// Overwrite the input: nothing may refer to it.
				for i := range in {
					in[i] = 0xEE
				}
				w.sameResults("", "", res, want)
				if d := equalValues(dst.Elem(), ref.Elem()); d != "" {
					w.fail("overwriting the input changes the decoded value: %s", d)
				}
				none := func(path string, p unsafe.Pointer) {
					if a.contains(p) {
						w.fail("%s refers to the input", path)
					}
					w.obs("references-checked")
				}
				w.strIn(dst.Elem(), a, 0, "", func(path, s string, key bool) {
					if len(s) > 0 {
						none(path, unsafe.Pointer(unsafe.StringData(s)))
					}
				}, none)
				if res.Err == nil && res.Panic == nil {
					w.obs("inputs-overwritten")
				} else {
					w.obs("inputs-overwritten-after-failure")
				}
				if res.Err != nil {
					_ = res.Err.Error()
				}
				w.nontrivial(caseHash(x))
				w.sample(x.String)
			},
		}
	}
	with := func(name string, quick, thor int, p Phase) Phase {
		p.Name, p.Quick, p.Thor = name, quick, thor
		return p
	}
	strT := typesWith(FString|FAny|FNumber|FMap|FBytes|FTextUnm|FJSONUnm|FStringTag, nil)
	e := profDefault
	e.Mismatch, e.BadNum, e.UnmErr = 0.02, 0.04, 0.02
	noEsc := profValid
	noEsc.Esc, noEsc.BadUTF8, noEsc.KeyVar, noEsc.Unknown = 0, 0, 0, 0.02
	plainT := typesWith(FString|FAny, func(t *Type) bool { return t.Feat&FStringTag == 0 })
	huge := e
	huge.Huge, huge.Missing = 1, 0.1
	huge.Mismatch, huge.BadNum, huge.UnmErr = 0.0003, 0.0006, 0.0003
	return &Check{
		ID:   "C16",
		Rule: "distinct (type, document, options, prefill) decoded from an input that's watched and then overwritten",
		Phases: []Phase{
			with("overwrite", 300000, 7000000, run(cfg{types: strT, prof: profDefault, fill: 0.2, opts: 0.1}, false)),
			with("errors", 200000, 5000000, run(cfg{types: allTypes, prof: e, fill: 0.2, opts: 0.2, mutate: 0.2}, false)),
			with("string-source", 150000, 3000000, run(cfg{types: plainT, prof: noEsc}, true)),
			with("huge", 2000, 40000, run(cfg{types: smallElems(strT), prof: huge, fill: 0.2}, false)),
		},
		Need: []string{"decoded-from-read-only-memory", "inputs-overwritten", "inputs-overwritten-after-failure", "references-checked", "strings-referring-to-the-source", "mutable-values-checked"},
	}
}

// C19

func checkC19() *Check {
	run := func(types []*Type) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			evEnabled = false
			defer func() { evEnabled = true }()
			G := 8
			if r.n(40) == 0 {
				G = 65 + r.n(80)
				w.obs("runs-of-many-goroutines")
			}
			type item struct {
				x    *Case
				in   []byte
				sin  string
				want Result
				ref  reflect.Value
			}
			p := profDefault
			switch r.n(3) {
			case 0:
				p.Mismatch, p.BadNum, p.UnmErr = 0.03, 0.05, 0.05
			case 1:
				p = profValid
			}
			p.Huge = 0.01
			c := cfg{types: types, prof: p, fill: 0.3, opts: 0.3, mutate: 0.05, budget: 60}
			nt := 1 + r.n(4) // few types such that goroutines use the same
			c.types = nil
			for i := 0; i < nt; i++ {
				c.types = append(c.types, types[r.n(len(types))])
			}
			items := make([]*item, 4+r.n(10))
			do := func(it *item, decs map[*Type]*[2]Dec, tk *Toks, dst reflect.Value) (res Result) {
				defer func() {
					if p := recover(); p != nil {
						res = Result{Panic: fmt.Sprint(p)}
					}
				}()
				x := it.x
				if x.Unm {
					if x.Str {
						res.Err = x.T.UnmS(it.in, dst.Interface())
					} else {
						res.Err = x.T.UnmB(it.in, dst.Interface())
					}
					return
				}
				d := decs[x.T]
				if d == nil {
					d = &[2]Dec{}
					decs[x.T] = d
				}
				k := b2u(x.Str)
				if d[k] == nil {
					nd := x.T.NewB
					if x.Str {
						nd = x.T.NewS
					}
					var err error
					if d[k], err = nd(tk, jscandec.DefaultInitOptions); err != nil {
						res.Err = err
						return
					}
				}
				o := jscandec.DefaultOptions
				if x.Opts != (jscandec.DecodeOptions{}) {
					o = &x.Opts // shared by all goroutines
				}
				if x.Str {
					res.Index, res.Err = d[k].(interface {
						DecodeStr(string, any, *jscandec.DecodeOptions) (int, error)
					}).DecodeStr(it.sin, dst.Interface(), o)
				} else {
					res.Index, res.Err = d[k].Decode(it.in, dst.Interface(), o)
				}
				return
			}
			newDst := func(x *Case) reflect.Value {
				d := reflect.New(x.T.T)
				if x.Fill != 0 {
					fillRoot(d.Elem(), x.Fill)
				}
				return d
			}
			for i := range items {
				x := c.gen(r, uint64(i))
				x.Unm = x.Opts == (jscandec.DecodeOptions{}) && r.n(3) == 0
				x.Doc = append([]byte(nil), x.Doc...)
				items[i] = &item{x: x, in: exact(x.Doc), sin: string(x.Doc)}
			}
			w.desc = func() string {
				s := ""
				for i, it := range items {
					s += fmt.Sprintf("call %d: %s\n", i, it.x)
				}
				return s
			}
			// Some types are used for the first time by the goroutines.
			seqFirst := r.n(2) == 0
			seq := func() {
				for _, it := range items {
					it.ref = newDst(it.x)
					it.want = do(it, map[*Type]*[2]Dec{}, NewToks(), it.ref)
				}
			}
			if seqFirst {
				seq()
			}
			type got struct {
				it  *item
				res Result
				dst reflect.Value
			}
			results := make([][]got, G)
			order := make([][]int, G)
			for g := range order {
				n := 6 + r.n(6)
				for i := 0; i < n; i++ {
					order[g] = append(order[g], r.n(len(items)))
				}
			}
			var start, done sync.WaitGroup
			start.Add(1)
			var inFlight, overlaps int64
			for g := 0; g < G; g++ {
				g := g
				rr := rng{s: r.u64()}
				done.Add(1)
				go func() {
					defer done.Done()
					start.Wait()
					decs := map[*Type]*[2]Dec{}
					tk := NewToks()
					for _, i := range order[g] {
						it := items[i]
						if rr.n(4) == 0 {
							decs = map[*Type]*[2]Dec{} // new decoders
						}
						switch rr.n(4) {
						case 0:
							runtime.Gosched()
						case 1:
							time.Sleep(time.Duration(rr.n(30)) * time.Microsecond)
						}
						dst := newDst(it.x)
						if atomic.AddInt64(&inFlight, 1) > 1 {
							atomic.AddInt64(&overlaps, 1)
						}
						res := do(it, decs, tk, dst)
						atomic.AddInt64(&inFlight, -1)
						results[g] = append(results[g], got{it, res, dst})
					}
				}()
			}
			start.Done()
			done.Wait()
			if !seqFirst {
				seq()
			}
			w.Obs["overlapping-calls"] += uint64(overlaps)
			var h uint64
			for _, rs := range results {
				for _, x := range rs {
					w.Evals++
					h = mix(h, caseHash(x.it.x))
					w.obs("concurrent-calls")
					a, b := x.res, x.it.want
					if a.Panic != b.Panic {
						w.fail("concurrently: panic %v, sequentially: %v (%s)", a.Panic, b.Panic, x.it.x)
					}
					if pm, ok := a.Panic.(string); ok {
						if !bytes.Contains([]byte(pm), []byte("#panic")) {
							w.fail("panic: %s (%s)", pm, x.it.x)
						}
						continue
					}
					if a.Index != b.Index || !equivErr(a.Err, b.Err) {
						w.fail("concurrently: error %v at %d, sequentially: %v at %d (%s)", a.Err, a.Index, b.Err, b.Index, x.it.x)
					}
					if d := equalValues(x.dst.Elem(), x.it.ref.Elem()); d != "" {
						w.fail("result differs from sequential decoding: %s\nconcurrent: %s\nsequential: %s\n%s", d,
							render(x.dst.Elem()), render(x.it.ref.Elem()), x.it.x)
					}
				}
			}
			for _, it := range items {
				if !bytes.Equal(it.in, it.x.Doc) || it.sin != string(it.x.Doc) {
					w.fail("a shared input was modified")
				}
			}
			if *jscandec.DefaultOptions != (jscandec.DecodeOptions{}) || *jscandec.DefaultInitOptions != (jscandec.InitOptions{}) {
				w.fail("the default options were modified")
			}
			w.nontrivial(h)
			w.obs("concurrent-runs")
			w.sample(w.desc)
		}
	}
	race := []string{"GORACE=halt_on_error=1 exitcode=66 history_size=3"}
	recT := typesWith(FRecur|FStringTag|FJSONUnm|FTextUnm, nil)
	return &Check{
		ID:   "C19",
		Rule: "distinct sets of calls made by 8 or up to 145 goroutines at once",
		Phases: []Phase{
			{Name: "race-detector", Variant: "race", Quick: 3000, Thor: 60000, Shards: 4, Env: race, Run: run(allTypes)},
			{Name: "race-detector-special", Variant: "race", Quick: 1500, Thor: 30000, Shards: 4, Env: race, Run: run(recT)},
			{Name: "stress", Variant: "plain", Quick: 12000, Thor: 300000, Shards: 4, Run: run(allTypes)},
		},
		Need: []string{"concurrent-calls", "overlapping-calls", "runs-of-many-goroutines"},
	}
}

// C21

// finBox has a finalizer that counts.
type finTracker struct {
	pending int64
}

// firstObjects collects objects reachable from v that finalizers can be set on.
func heapObjects(v reflect.Value, depth int, out *[]reflect.Value) {
	if depth > 40 || !v.IsValid() || len(*out) > 200 {
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if trackable(t.Elem()) {
			*out = append(*out, v)
		}
		heapObjects(v.Elem(), depth+1, out)
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		if t.Elem().Size()*uintptr(v.Cap()) >= 16 && trackable(t.Elem()) {
			*out = append(*out, v)
		}
		for i := 0; i < v.Len() && i < 20; i++ {
			heapObjects(v.Index(i), depth+1, out)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			heapObjects(v.Index(i), depth+1, out)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		*out = append(*out, v)
		for it := v.MapRange(); it.Next(); {
			heapObjects(it.Value(), depth+1, out)
		}
	case reflect.Interface:
		if !v.IsNil() {
			heapObjects(v.Elem(), depth+1, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			heapObjects(v.Field(i), depth+1, out)
		}
	}
}

// trackable tells whether objects of type t are allocated on their own.
func trackable(t reflect.Type) bool { return t.Size() >= 16 || t.Size() >= 8 && hasPointers(t) }

func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.String, reflect.Interface, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

type finObj struct{ p, q *byte }

// setFin sets a finalizer on the object that starts at p.
func setFin(p unsafe.Pointer, f func()) {
	runtime.SetFinalizer((*finObj)(p), func(*finObj) { f() })
}

type rootBox struct {
	v   reflect.Value // *struct{V T; Pad [2]*byte}
	dst any           // *T
}

var boxTypes = map[reflect.Type]reflect.Type{}

// newBox allocates a T at the start of a trackable object.
func newBox(t reflect.Type) (obj unsafe.Pointer, dst reflect.Value) {
	bt, ok := boxTypes[t]
	if !ok {
		bt = reflect.StructOf([]reflect.StructField{
			{Name: "V", Type: t},
			{Name: "Pad", Type: reflect.TypeOf([2]*byte{})},
		})
		boxTypes[t] = bt
	}
	b := reflect.New(bt)
	return b.UnsafePointer(), b.Elem().Field(0).Addr()
}

func checkC21() *Check {
	const batch = 150
	run := func(c cfg) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			type info struct {
				x    *Case
				what string
				how  string
				fin  int32
			}
			infos := make([]*info, 0, batch)
			var keep []Dec
			w.desc = func() string {
				s := ""
				for _, i := range infos {
					if atomic.LoadInt32(&i.fin) == 0 {
						s += fmt.Sprintf("%s not freed after %s: %s\n", i.what, i.how, i.x)
					}
				}
				return s
			}
			toks := NewToks()
			for k := 0; k < batch; k++ {
				x := c.gen(r, idx*batch+uint64(k))
				x.Doc = append([]byte(nil), x.Doc...)
				if r.n(3) == 0 {
					x.Doc = panicky(x.Doc, r)
				}
				in := &info{x: x}
				nd, tk := x.T.NewB, toks
				if x.Str {
					nd = x.T.NewS
				}
				if r.n(2) == 0 {
					tk = NewToks()
				}
				d, err := nd(tk, jscandec.DefaultInitOptions)
				if err != nil {
					w.fail("NewDecoder: %v", err)
				}
				keep = append(keep, d)
				w.Evals++
				w.nontrivial(caseHash(x))
				rr := rng{s: r.u64()}
				doneCh := make(chan string)
				// Decode on another goroutine whose stack is gone afterwards.
				go func() {
					fail := ""
					defer func() { doneCh <- fail }()
					obj, dst := newBox(x.T.T)
					if x.Fill != 0 {
						fill(dst.Elem(), &rng{s: x.Fill}, 0)
					}
					track := func(p unsafe.Pointer, what string) {
						in.what = what
						setFin(p, func() { atomic.StoreInt32(&in.fin, 1) })
					}
					mode := rr.n(3)
					if mode == 2 && x.Fill == 0 {
						mode = 1
					}
					if mode == 2 {
						// An object the destination refers to before the call
						var objs []reflect.Value
						heapObjects(dst.Elem(), 0, &objs)
						if len(objs) == 0 {
							mode = 0
						} else {
							o := objs[rr.n(len(objs))]
							track(o.UnsafePointer(), "existing "+o.Type().String())
						}
					}
					func() {
						defer func() {
							if p := recover(); p != nil {
								if _, ok := p.(unmPanic); !ok {
									fail = fmt.Sprint("panic: ", p)
								}
								in.how = "panic"
							}
						}()
						evEnabled = false
						opts := x.Opts
						_, err := d.Decode(exact(x.Doc), dst.Interface(), &opts)
						in.how = "success"
						if err != nil {
							in.how = "error"
						}
					}()
					evEnabled = true
					if mode == 1 {
						var objs []reflect.Value
						heapObjects(dst.Elem(), 0, &objs)
						if len(objs) == 0 {
							mode = 0
						} else {
							o := objs[rr.n(len(objs))]
							track(o.UnsafePointer(), "decoded "+o.Type().String())
						}
					}
					if mode == 0 {
						track(obj, "destination")
					}
				}()
				if f := <-doneCh; f != "" {
					w.fail("%s: %s", f, x)
				}
				infos = append(infos, in)
			}
			left := func() (n int) {
				for _, i := range infos {
					if atomic.LoadInt32(&i.fin) == 0 {
						n++
					}
				}
				return
			}
			n := 0
			for try := 0; try < 40; try++ {
				runtime.GC()
				for s := 0; s < 20; s++ {
					if n = left(); n == 0 {
						break
					}
					time.Sleep(time.Duration(1+try*5) * 100 * time.Microsecond)
				}
				if n == 0 {
					break
				}
			}
			if n != 0 {
				w.fail("%d objects aren't freed while the decoder is alive", n)
			}
			for _, i := range infos {
				w.obs("freed-after-" + i.how)
				switch i.what[:5] {
				case "desti":
					w.obs("destinations-freed")
				case "exist":
					w.obs("existing-objects-freed")
				case "decod":
					w.obs("decoded-objects-freed")
				}
			}
			runtime.KeepAlive(keep)
			w.sample(func() string { return infos[0].x.String() })
		}
	}
	p := profDefault
	p.UnmErr, p.Mismatch, p.BadNum = 0.03, 0.01, 0.02
	unm := p
	unm.UnmErr = 0.2
	return &Check{
		ID:   "C21",
		Rule: "distinct (type, document, options, prefill) whose destination or an object reachable from it was tracked",
		Phases: []Phase{
			{Name: "all", Variant: "plain", Quick: 500, Thor: 10000, Run: run(cfg{types: allTypes, prof: p, fill: 0.4, mutate: 0.1, opts: 0.1})},
			{Name: "recursive", Variant: "plain", Quick: 300, Thor: 6000, Run: run(cfg{types: typesWith(FRecur, nil), prof: p, fill: 0.3, mutate: 0.15})},
			{Name: "unmarshalers", Variant: "plain", Quick: 300, Thor: 6000, Run: run(cfg{types: typesWith(FJSONUnm|FTextUnm, nil), prof: unm, fill: 0.3})},
		},
		Need: []string{"destinations-freed", "decoded-objects-freed", "existing-objects-freed", "freed-after-success", "freed-after-error", "freed-after-panic"},
		Note: []string{"each case counts 150 decodes; the destinations are tracked by finalizers while all decoders stay reachable"},
	}
}

// C20

// maxElemSize returns the size of the largest type reachable from t.
func maxElemSize(t reflect.Type, seen map[reflect.Type]bool) uintptr {
	if seen[t] {
		return 0
	}
	seen[t] = true
	m := t.Size()
	up := func(x reflect.Type) {
		if s := maxElemSize(x, seen); s > m {
			m = s
		}
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array:
		up(t.Elem())
	case reflect.Map:
		up(t.Key())
		up(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			up(t.Field(i).Type)
		}
	}
	return m
}

func checkC20() *Check {
	raw := func(gen func(g *Gen, r *rng, idx uint64) (*Type, []byte)) func(w *W, idx uint64, r *rng) {
		return func(w *W, idx uint64, r *rng) {
			g := newGen(r, profDefault)
			t, doc := gen(g, r, idx)
			str := r.n(2) == 0
			fillSeed := uint64(0)
			if r.n(4) == 0 {
				fillSeed = r.u64() | 1
			}
			w.Evals++
			w.desc = func() string {
				return fmt.Sprintf("type=%s string=%v prefill=%d length=%d input=%.3000q", t.Name, str, fillSeed, len(doc), doc)
			}
			w.nontrivial(mix(hashStr(t.Name), hashBytes(doc), fillSeed))
			dst := reflect.New(t.T)
			if fillSeed != 0 {
				fillRoot(dst.Elem(), fillSeed)
			}
			var o jscandec.DecodeOptions
			if r.n(3) == 0 {
				o = randOpts(r)
			}
			res := w.call(func() (int, error) { return w.decoder(t, str, false).Decode(doc, dst.Interface(), &o) })
			switch {
			case res.Err != nil:
				w.obs("calls-failed")
				if res.Index < 0 || res.Index > len(doc) {
					w.fail("error index %d is outside of the input (%v)", res.Index, res.Err)
				}
				if res.Err.Error() == "" {
					w.fail("empty error message")
				}
			default:
				w.obs("calls-succeeded")
			}
			w.sample(w.desc)
		}
	}
	garbage := func(g *Gen, r *rng, idx uint64) (*Type, []byte) {
		t := allTypes[r.n(len(allTypes))]
		n := r.n(60)
		b := make([]byte, n)
		const tokens = "{}[],:\"\\0123456789-+.eEtrufalsn \t\n\x00\x7f\x80\xff"
		for i := range b {
			if r.n(12) == 0 {
				b[i] = byte(r.u64())
			} else {
				b[i] = tokens[r.n(len(tokens))]
			}
		}
		return t, b
	}
	mismatch := func(g *Gen, r *rng, idx uint64) (*Type, []byte) {
		// A document for another type
		t, u := allTypes[r.n(len(allTypes))], allTypes[r.n(len(allTypes))]
		doc := g.Doc(u.R)
		if r.n(3) == 0 {
			doc = g.mutate(doc)
		}
		return t, append([]byte(nil), doc...)
	}
	mixed := func(g *Gen, r *rng, idx uint64) (*Type, []byte) {
		t := allTypes[r.n(len(allTypes))]
		g.Mismatch, g.BadNum, g.UnmErr = 0.1, 0.15, 0.05
		doc := g.Doc(t.R)
		if r.n(2) == 0 {
			doc = g.mutate(doc)
		}
		return t, append([]byte(nil), doc...)
	}
	prefixes := func(w *W, idx uint64, r *rng) {
		t := allTypes[r.n(len(allTypes))]
		g := newGen(r, profDefault)
		g.budget = 40
		doc := append([]byte(nil), g.Doc(t.R)...)
		str := r.n(2) == 0
		for n := 0; n <= len(doc) && n < 400; n++ {
			in := exact(doc[:n])
			w.Evals++
			w.desc = func() string { return fmt.Sprintf("type=%s string=%v input=%q", t.Name, str, in) }
			dst := reflect.New(t.T)
			o := jscandec.DecodeOptions{}
			res := w.call(func() (int, error) { return w.decoder(t, str, false).Decode(in, dst.Interface(), &o) })
			if res.Err == nil && res.Panic == nil && !json.Valid(in) {
				w.fail("invalid input was accepted")
			}
			w.obs("prefixes")
		}
		w.nontrivial(mix(hashStr(t.Name), hashBytes(doc)))
	}
	deepTypes := []*Type{}
	for _, n := range []string{"any", "[]any", "map[string]any", "json.RawMessage", "UJ", "struct{}", "[0]int", "S3", "[][]bool", "*RPtr", "*RSlice", "*RMap", "RMix", "RTree", "*RMutA", "*RBelow", "*RText", "*RAny", "*RNum", "*[][]int", "*[][]string", "*map[string]map[string]string", "string", "int", "UT", "*UTree", "*UJNest", "*Pos[any]", "*SStr", "SStr", "*SIgnored"} {
		for _, t := range allTypes {
			if t.Name == n {
				deepTypes = append(deepTypes, t)
			}
		}
	}
	pieces := []string{"[", `{"a":`, `{"k":[`, `{"p":`, `{"s":[`, `{"m":{"a":`, `{"next":`, `{"l":`, `{"ks":[`, `{"b":{"a":`, `{"bs":[`, `{"arr":[{"r":`, `{"n":`, `{"d":`, `[[`, `[{}, `, `{"zz":[`, `{"":{"":`, `{"x":{"p":`, `{"ss":[[`, `"\"`, `"`, "1", "-", "{", "[1,", "\t", " ", "\\u", "\xff", `{"map":{"q":{"r":[`, `{"kS":[`, "null", "[[],", `{"A":`}
	deep := func(g *Gen, r *rng, idx uint64) (*Type, []byte) {
		t := deepTypes[r.n(len(deepTypes))]
		n := []int{10, 100, 1000, 9999, 10001, 20000, 100000}[r.n(7)]
		p := pieces[r.n(len(pieces))]
		q := ""
		if r.n(3) == 0 {
			q = pieces[r.n(len(pieces))]
		}
		var b bytes.Buffer
		var closers []byte
		for i := 0; i < n && b.Len() < 600000; i++ {
			s := p
			if q != "" && r.n(2) == 0 {
				s = q
			}
			b.WriteString(s)
			str := false
			for j := 0; j < len(s); j++ {
				switch {
				case s[j] == '"':
					str = !str
				case str:
				case s[j] == '[':
					closers = append(closers, ']')
				case s[j] == '{':
					closers = append(closers, '}')
				case (s[j] == ']' || s[j] == '}') && len(closers) > 0:
					closers = closers[:len(closers)-1]
				}
			}
		}
		if r.n(4) != 0 {
			b.WriteString(r.pick("null", "1", "", "{}", "[]", `"x"`))
			for i := len(closers) - 1; i >= 0; i-- {
				b.WriteByte(closers[i])
			}
		}
		return t, b.Bytes()
	}
	// Allocation bounds
	var allocTypes []*Type
	allocTypes = append(allocTypes, allTypes...)
	alloc := func(w *W, idx uint64, r *rng) {
		t := allocTypes[r.n(len(allocTypes))]
		g := newGen(r, profDefault)
		g.Big, g.MaxElems, g.budget = 0.3, 30, 3000
		g.Mismatch, g.BadNum, g.UnmErr = 0, 0, 0
		switch r.n(6) {
		case 0:
			g.Mismatch, g.BadNum = 0.0005, 0.0005
		case 1:
			g.Missing = 0.9
		case 2:
			g.MaxElems, g.budget = 300, 6000
		}
		doc := append([]byte(nil), g.Doc(t.R)...)
		if r.n(6) == 0 {
			doc = g.mutate(doc)
		}
		size := maxElemSize(t.T, map[reflect.Type]bool{})
		dst := reflect.New(t.T)
		dec := w.decoder(t, false, false)
		w.desc = func() string { return fmt.Sprintf("type=%s length=%d input=%.3000q", t.Name, len(doc), doc) }
		w.Evals++
		w.nontrivial(mix(hashStr(t.Name), hashBytes(doc)))
		o := jscandec.DecodeOptions{}
		in := exact(doc)
		var a, b runtime.MemStats
		evEnabled = false
		runtime.ReadMemStats(&a)
		res := w.call(func() (int, error) { return dec.Decode(in, dst.Interface(), &o) })
		runtime.ReadMemStats(&b)
		evEnabled = true
		_ = res
		used := b.TotalAlloc - a.TotalAlloc
		// Every value takes at least two bytes of the input and gets at most one element
		// (plus the slack of maps, growing slices and size classes) and
		// tokens.
		bound := uint64(1<<17) + uint64(len(doc)+16)*(uint64(size)*6+800)
		if used > bound {
			w.fail("%d bytes were allocated for an input of %d bytes (bound: %d)", used, len(doc), bound)
		}
		if k := used / uint64(len(doc)+64); k > w.Obs["max-bytes-allocated-per-input-byte"] {
			// Not a sum but good enough to see the order of magnitude.
			w.Obs["max-bytes-allocated-per-input-byte"] = k
		}
		w.obs("allocations-measured")
	}
	return &Check{
		ID:   "C20",
		Rule: "distinct (type, input, prefill)",
		Phases: []Phase{
			newDecoderPhase("types", 1),
			{Name: "garbage", Variant: "plain", Quick: 500000, Thor: 12000000, Run: raw(garbage)},
			{Name: "mismatch", Variant: "plain", Quick: 500000, Thor: 12000000, Run: raw(mismatch)},
			{Name: "mixed", Variant: "plain", Quick: 500000, Thor: 12000000, Run: raw(mixed)},
			{Name: "prefixes", Variant: "plain", Quick: 10000, Thor: 250000, Run: prefixes},
			{Name: "deep", Variant: "plain", Quick: 2500, Thor: 50000, Run: raw(deep)},
			{Name: "allocations", Variant: "plain", Quick: 12000, Thor: 250000, Run: alloc},
			chainPhase("chains", 200, 4000),
			anyDepthPhase("any-depth", 60, 600),
			nilDestPhase("nil-destination", 2000, 20000),
			{Name: "mixed-32bit", Variant: "386", Quick: 100000, Thor: 2000000, Run: raw(mixed)},
		},
		Need: []string{"types-rejected", "types-accepted", "calls-failed", "calls-succeeded", "prefixes", "allocations-measured", "max-depth-errors", "nil-destinations"},
		Note: []string{"a worker that makes no progress for 60 s of CPU time or exceeds 3 GiB is reported as a violation", "the maximum stack is limited to 256 MiB"},
	}
}

var _ = errors.New
