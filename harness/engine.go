package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

// Phase is one workload of a property check. Its cases are numbered from 0 and
// everything about a case is determined by (seed, property, phase, number).
type Phase struct {
	Name    string
	Variant string // plain, race, asan, 386
	Quick   int    // number of cases in the quick tier
	Thor    int    // number of cases in the thorough tier
	Shards  int    // maximum number of processes, 0 = number of CPUs
	Env     []string
	// Run executes case idx.
	Run func(w *W, idx uint64, r *rng)
	// Init is called once per worker.
	Init func(w *W)
	// Fini is called once per worker after all cases.
	Fini func(w *W)
}

// Check is the check of a property.
type Check struct {
	ID     string
	Rule   string
	Phases []Phase
	// Need lists the observation counters that must not be zero.
	Need []string
	Note []string
}

// W is the state of a worker process.
type W struct {
	Prop, PhaseName string
	Tier            string
	Seed            uint64
	Idx             uint64
	dir             string
	shard           int
	progress        []uint64

	toks *Toks
	decB map[*Type]Dec
	decS map[*Type]Dec

	Evals            uint64
	Obs              map[string]uint64
	hashes           map[uint64]struct{}
	Samples          []string
	Mismatch         []string // oracle disagreements
	verbose          bool
	catch, shrinking bool
	desc             func() string // describes the current case
}

// Stats is what a worker reports.
type Stats struct {
	Evals    uint64
	Obs      map[string]uint64
	Samples  []string
	Mismatch []string
}

// ViolationRec is written by a worker that found a violation.
type ViolationRec struct {
	Prop, Phase, Tier string
	Seed, Idx         uint64
	Shard             int
	Message           string
	Desc              string
}

func newW(prop, phase, tier string, seed uint64, dir string, shard int) *W {
	w := &W{
		Prop: prop, PhaseName: phase, Tier: tier, Seed: seed, dir: dir, shard: shard,
		toks: NewToks(), decB: map[*Type]Dec{}, decS: map[*Type]Dec{},
		Obs: map[string]uint64{}, hashes: map[uint64]struct{}{},
	}
	return w
}

const exitViolation = 10

// fail reports a violation of the property and ends the process.
func (w *W) fail(format string, args ...any) {
	if w.catch {
		panic(caughtFail{fmt.Sprintf(format, args...)})
	}
	desc := ""
	if w.desc != nil {
		func() {
			defer func() { _ = recover() }()
			desc = w.desc()
		}()
	}
	rec := ViolationRec{
		Prop: w.Prop, Phase: w.PhaseName, Tier: w.Tier, Seed: w.Seed,
		Idx: w.Idx, Shard: w.shard,
		Message: fmt.Sprintf(format, args...), Desc: desc,
	}
	b, _ := json.MarshalIndent(rec, "", " ")
	if w.dir != "" {
		_ = os.WriteFile(fmt.Sprintf("%s/violation.%s.%d", w.dir, w.PhaseName, w.shard), b, 0o644)
	}
	if w.verbose {
		fmt.Printf("FAIL %s\n", b)
	}
	os.Exit(exitViolation)
}

// obs counts an observation.
func (w *W) obs(name string) { w.Obs[name]++ }

// nontrivial records the hash of a distinct non-trivial case.
func (w *W) nontrivial(h uint64) {
	if len(w.hashes) < 4_000_000 {
		w.hashes[h] = struct{}{}
	}
}

func (w *W) sample(f func() string) {
	// Keep some cases spread over the run.
	if len(w.Samples) < 3 && (w.Evals == 3 || w.Evals == 997 || w.Evals == 20011) {
		s := f()
		if len(s) > 700 {
			s = s[:700] + "…"
		}
		w.Samples = append(w.Samples, strings.ToValidUTF8(s, "\uFFFD"))
	}
}

func (w *W) openProgress(path string) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(4096); err != nil {
		panic(err)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	w.progress = unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), 512)
}

// step publishes the number of the current case.
func (w *W) step(idx uint64) {
	w.Idx = idx
	if w.progress != nil {
		w.progress[0] = idx + 1
		w.progress[1]++
	}
}

func (w *W) runPhase(ph *Phase, only int64, from, to, stride uint64) {
	if ph.Init != nil {
		ph.Init(w)
	}
	hseed := mix(w.Seed, hashStr(w.Prop), hashStr(ph.Name))
	run := func(i uint64) {
		w.step(i)
		w.desc = nil
		r := &rng{s: mix(hseed, i)}
		ph.Run(w, i, r)
	}
	if only >= 0 {
		run(uint64(only))
	} else {
		for i := from; i < to; i += stride {
			run(i)
		}
	}
	if ph.Fini != nil {
		ph.Fini(w)
	}
}

func (w *W) writeStats() {
	st := Stats{Evals: w.Evals, Obs: w.Obs, Samples: w.Samples, Mismatch: w.Mismatch}
	b, err := json.Marshal(st)
	if err != nil {
		panic(err)
	}
	base := fmt.Sprintf("%s/%%s.%s.%d", w.dir, w.PhaseName, w.shard)
	hb := make([]byte, 0, 8*len(w.hashes))
	for h := range w.hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	if err := os.WriteFile(fmt.Sprintf(base, "hashes"), hb, 0o644); err != nil {
		panic(err)
	}
	if err := os.WriteFile(fmt.Sprintf(base, "stats"), b, 0o644); err != nil {
		panic(err)
	}
}

// decoder returns a decoder for t, a reused one or, if fresh, a new one.
func (w *W) decoder(t *Type, str, fresh bool) Dec {
	m := w.decB
	if str {
		m = w.decS
	}
	if !fresh {
		if d := m[t]; d != nil {
			return d
		}
	}
	nd, tk := t.NewB, w.toks
	if fresh {
		tk = NewToks()
	}
	if str {
		nd = t.NewS
	}
	d, err := nd(tk, jscandec.DefaultInitOptions)
	if err != nil {
		w.fail("NewDecoder for %s: %v", t.Name, err)
	}
	if !fresh {
		m[t] = d
	}
	return d
}

// Result is the observed outcome of a call.
type Result struct {
	Index int
	Err   error
	Panic any // panic of an unmarshaler (unmPanic)
	Ev    []Event
}

// call runs f and turns panics of the code under test into violations.
func (w *W) call(f func() (int, error)) (res Result) {
	evlog = evlog[:0]
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(caughtFail); ok {
				panic(p)
			}
			if _, ok := p.(unmPanic); ok {
				res.Panic = p
				res.Ev = append([]Event(nil), evlog...)
				return
			}
			w.fail("panic: %v\n%s", p, debug.Stack())
		}
	}()
	i, err := f()
	res.Index, res.Err = i, err
	if len(evlog) > 0 {
		res.Ev = append([]Event(nil), evlog...)
	}
	return res
}

// Flags of differential cases.
type Flags uint

const (
	CmpValue  Flags = 1 << iota // success/failure and value
	CmpErr                      // error index and cause
	CmpEvents                   // calls of unmarshalers
	CmpSyntax                   // syntactically invalid input must be rejected
	CmpIdent                    // existing pointers, maps and slices are reused, new ones aren't shared
	CmpSynErr                   // index and cause of syntax errors
)

// Case is one differential case.
type Case struct {
	T      *Type
	Doc    []byte
	Str    bool // decode from string
	Fresh  bool // use a new decoder
	Unm    bool // use Unmarshal
	Opts   jscandec.DecodeOptions
	Fill   uint64 // seed of the existing contents of the destination, 0 = none
	Flags  Flags
	Note   string
	Dst    any // destination to use instead of a new one
	RefDst any // reference destination, required if Dst is set
	Causes bool
}

func (c *Case) String() string {
	return fmt.Sprintf("type=%s input=%q string=%v unmarshal=%v fresh=%v options=%+v prefill=%d %s",
		c.T.Name, c.Doc, c.Str, c.Unm, c.Fresh, c.Opts, c.Fill, c.Note)
}

// Outcome tells what diff observed.
type Outcome struct {
	Valid  bool
	Undef  bool
	Ok     bool // expected (and observed) success
	Dst    any
	RefDst any
	RefErr *refErr
	Res    Result
}

// exact returns a copy of doc in an allocation of exactly its length.
func exact(doc []byte) []byte {
	in := make([]byte, len(doc))
	copy(in, doc)
	return in[:len(in):len(in)]
}

// diff decodes c by jscandec and by the reference decoder (which is validated
// against encoding/json) and compares the results as requested by c.Flags.
func (w *W) diff(c *Case) (o Outcome) {
	w.Evals++
	w.desc = c.String
	if w.verbose && !w.catch {
		fmt.Println("CASE", c)
	}
	if w.shrinking {
		w.shrink(*c)
	}
	in := exact(c.Doc)
	intact := func() bool { return true }
	dst := c.Dst
	if dst == nil {
		dst, intact = c.T.NewDst()
		if c.Fill != 0 {
			fillRoot(reflect.ValueOf(dst).Elem(), c.Fill)
		}
	}
	// Reference destination
	ref := c.RefDst
	var ident *identTrack
	if ref == nil && (c.Flags&CmpIdent == 0 || json.Valid(c.Doc)) {
		ref = reflect.New(c.T.R).Interface()
		if c.Fill != 0 {
			fillRoot(reflect.ValueOf(ref).Elem(), c.Fill)
		}
	}
	if c.Flags&CmpIdent != 0 && ref != nil {
		ident = newIdentTrack()
		ident.walk("", reflect.ValueOf(dst).Elem(), reflect.ValueOf(ref).Elem(), 0)
		ident.base, ident.new = ident.n, 0
		ident.kept = map[identKey]bool{}
	}
	opts := c.Opts
	res := w.call(func() (int, error) {
		if c.Unm {
			var err error
			if c.Str {
				err = c.T.UnmS(in, dst)
			} else {
				err = c.T.UnmB(in, dst)
			}
			if err != nil {
				return 0, err
			}
			return -1, nil
		}
		return w.decoder(c.T, c.Str, c.Fresh).Decode(in, dst, &opts)
	})
	o.Res, o.Dst = res, dst
	if !intact() {
		w.fail("memory next to the destination was overwritten")
	}
	if !bytes.Equal(in, c.Doc) {
		w.fail("the input was modified: %q", in)
	}
	if opts != c.Opts {
		w.fail("the options were modified: %+v", opts)
	}
	ok := res.Err == nil && res.Panic == nil
	if ok && res.Index != -1 {
		w.fail("index %d returned without an error", res.Index)
	}
	var deep bool
	if o.Valid, deep = syntaxValid(w, c.Doc); deep {
		// Too deep for encoding/json
		w.obs("outside-domain")
		o.Undef = true
		w.touch(dst)
		return o
	}
	if !o.Valid {
		w.obs("syntax-invalid")
		if ok && c.Flags&CmpSyntax != 0 {
			w.fail("syntactically invalid input was accepted")
		}
		if c.Flags&CmpSynErr != 0 && !c.Unm && res.Panic == nil {
			w.checkSyntaxError(c, &o)
		}
		w.touch(dst)
		return o
	}

	// Expected outcome
	o.RefDst = ref
	evlog = evlog[:0]
	err := w.reference(c, ref)
	refEv := evlog
	if err == errUndef {
		w.obs("outside-domain")
		o.Undef = true
		w.touch(dst)
		return o
	}
	if err != nil {
		o.RefErr = err.(*refErr)
	}
	o.Ok = err == nil
	if o.Ok {
		w.obs("expect-ok")
	} else {
		w.obs("expect-error")
	}

	// Compare
	if c.Flags&CmpValue != 0 {
		switch {
		case o.Ok && !ok:
			w.validateOracle(c, ref, err)
			w.fail("unexpected error at %d: %v; expected value: %s", res.Index, res.Err, render(reflect.ValueOf(ref).Elem()))
		case !o.Ok && ok:
			w.validateOracle(c, ref, err)
			w.fail("no error, expected error %v; decoded: %s", err, render(reflect.ValueOf(dst).Elem()))
		}
		if ok {
			if d := equalValues(reflect.ValueOf(dst).Elem(), reflect.ValueOf(ref).Elem()); d != "" {
				w.validateOracle(c, ref, err)
				w.fail("wrong value: %s\n got: %s\nwant: %s", d,
					render(reflect.ValueOf(dst).Elem()), render(reflect.ValueOf(ref).Elem()))
			}
		}
	}
	if !ok {
		w.touch(dst)
	}
	if ident != nil && ok && o.Ok {
		ident.walk("", reflect.ValueOf(dst).Elem(), reflect.ValueOf(ref).Elem(), 0)
		if ident.bad != "" {
			w.fail("identity: %s\nvalue: %s", ident.bad, render(reflect.ValueOf(dst).Elem()))
		}
		if d := ident.checkSnaps(); d != "" {
			w.fail("data outside of the destination: %s", d)
		}
		w.Obs["former-objects-compared"] += uint64(len(ident.snaps))
		w.Obs["objects-reused"] += uint64(ident.old)
		w.Obs["objects-created"] += uint64(ident.new)
	}
	if c.Flags&CmpErr != 0 && !o.Ok && !ok && !c.Unm {
		if !causeMatches(res.Err, o.RefErr.Cause) {
			w.fail("wrong error: %v (at %d), expected: %v", res.Err, res.Index, err)
		}
		if res.Index != o.RefErr.Index {
			w.fail("wrong error index: %d (%v), expected: %v", res.Index, res.Err, err)
		}
		w.obs("errors-compared")
	}
	if c.Causes && !o.Ok && !ok && !causeMatches(res.Err, o.RefErr.Cause) {
		w.fail("wrong error cause: %v, expected: %v", res.Err, err)
	}
	if c.Flags&CmpEvents != 0 && ok == o.Ok {
		if len(refEv) > 0 {
			w.Obs["unmarshaler-calls"] += uint64(len(refEv))
		}
		for i := 0; i < len(refEv) || i < len(res.Ev); i++ {
			switch {
			case i >= len(res.Ev):
				w.fail("unmarshaler not called: %+v (%d of %d calls)", refEv[i], len(res.Ev), len(refEv))
			case i >= len(refEv):
				w.fail("unexpected unmarshaler call: %+v", res.Ev[i])
			case res.Ev[i] != refEv[i]:
				w.fail("call %d of unmarshaler: %+v, expected %+v", i, res.Ev[i], refEv[i])
			}
		}
	}

	// Validate the oracle itself against encoding/json.
	if w.Evals%4 == 0 {
		w.validateOracle(c, ref, err)
	}
	return o
}

// checkSyntaxError verifies the error reported for a syntactically invalid document.
func (w *W) checkSyntaxError(c *Case, o *Outcome) {
	idx, code, called := syntaxExpect(c.Doc, c.Str)
	if code == 0 {
		return // Only encoding/json rejects it.
	}
	if gi, gc, ok := jscanErr(o.Res.Err); ok {
		if gi != idx || gc != code || o.Res.Index != idx {
			w.fail("wrong syntax error: code %d at %d (returned index %d), expected code %d at %d",
				gc, gi, o.Res.Index, code, idx)
		}
		w.obs("syntax-errors-compared")
		return
	}
	if o.Res.Err == nil {
		w.fail("syntactically invalid input was accepted")
	}
	if !called {
		w.fail("wrong error: %v at %d, expected the syntax error %d at %d", o.Res.Err, o.Res.Index, code, idx)
	}
	// The value is complete and followed by garbage.
	// An error in the value takes precedence.
	n := parseJSON(c.Doc)
	ref := reflect.New(c.T.R)
	if c.Fill != 0 {
		fillRoot(ref.Elem(), c.Fill)
	}
	err := refDecodeNode(c.Doc, n, ref.Elem(), &c.Opts)
	if err == errUndef {
		return
	}
	if err == nil {
		w.fail("wrong error: %v at %d, expected the syntax error %d at %d", o.Res.Err, o.Res.Index, code, idx)
	}
	re := err.(*refErr)
	if !causeMatches(o.Res.Err, re.Cause) || o.Res.Index != re.Index {
		w.fail("wrong error: %v at %d, expected %v", o.Res.Err, o.Res.Index, err)
	}
	w.obs("errors-before-garbage-compared")
}

func (w *W) reference(c *Case, ref any) error {
	return refDecode(c.Doc, reflect.ValueOf(ref).Elem(), &c.Opts)
}

// validateOracle compares the expectation of the reference decoder with
// encoding/json. A disagreement makes the run inconclusive.
func (w *W) validateOracle(c *Case, ref any, refErrV error) {
	if c.Opts.DisableCaseInsensitiveMatching || c.Opts.DisableFieldNameUnescaping || c.Dst != nil {
		return
	}
	std := reflect.New(c.T.R)
	if c.Fill != 0 {
		fillRoot(std.Elem(), c.Fill)
	}
	evEnabled = false
	jd := json.NewDecoder(bytes.NewReader(c.Doc))
	if c.Opts.DisallowUnknownFields {
		jd.DisallowUnknownFields()
	}
	err := jd.Decode(std.Interface())
	evEnabled = true
	w.obs("oracle-validated")
	d := ""
	if (err == nil) != (refErrV == nil) {
		d = fmt.Sprintf("encoding/json: %v, reference: %v", err, refErrV)
	} else if err == nil {
		d = equalValues(reflect.ValueOf(ref).Elem(), std.Elem())
	}
	if d != "" {
		if w.catch {
			panic(caughtFail{"ORACLE MISMATCH " + d})
		}
		m := fmt.Sprintf("ORACLE MISMATCH %s: %s", c, d)
		if w.verbose {
			fmt.Println(m)
		}
		w.Mismatch = append(w.Mismatch, m)
		w.writeStats()
		fmt.Fprintln(os.Stderr, m)
		os.Exit(exitOracle)
	}
}

const exitOracle = 11

// touch verifies that dst is a valid value by reading everything.
func (w *W) touch(dst any) {
	budget := 20000
	touchSink += touch(reflect.ValueOf(dst).Elem(), 0, &budget)
}

var touchSink uint64

func caseHash(c *Case) uint64 {
	o := uint64(0)
	if c.Opts.DisallowUnknownFields {
		o |= 1
	}
	if c.Opts.DisableFieldNameUnescaping {
		o |= 2
	}
	if c.Opts.DisableCaseInsensitiveMatching {
		o |= 4
	}
	return mix(hashStr(c.T.Name), hashBytes(c.Doc), c.Fill, o)
}

var _ = errors.New
var _ = runtime.GC
