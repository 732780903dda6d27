package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"

	jscandec "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
)

// Event is one observed call of an unmarshaler.
type Event struct {
	Typ  string
	Text bool
	Data string
	Recv uintptr // address of the receiver (0 if not applicable)
}

// evlog records the calls of all unmarshalers. It's only used while the
// process runs single-threaded.
var (
	evlog     []Event
	evEnabled = true
)

// unmHook, if not nil, is called by every unmarshaler.
var unmHook func()

func record(typ string, text bool, data []byte) error {
	if unmHook != nil {
		unmHook()
	}
	if !evEnabled {
		return unmErr(data)
	}
	evlog = append(evlog, Event{Typ: typ, Text: text, Data: string(data)})
	return unmErr(data)
}

// UnmError is returned by all unmarshalers for data containing "#err".
type UnmError struct{ Data string }

func (e *UnmError) Error() string { return "UnmError:" + e.Data }

var errBoom = errors.New("boom")

type unmPanic struct{ data string }

func unmErr(data []byte) error {
	s := string(data)
	if i := strings.Index(s, "#"); i >= 0 {
		switch {
		case strings.HasPrefix(s[i:], "#err"):
			return &UnmError{Data: s}
		case strings.HasPrefix(s[i:], "#boom"):
			return errBoom
		case strings.HasPrefix(s[i:], "#panic"):
			panic(unmPanic{s})
		case strings.HasPrefix(s[i:], "#nildest"):
			return jscandec.ErrNilDest
		case strings.HasPrefix(s[i:], "#tagopt"):
			return jscandec.ErrStringTagOptionOnUnsupportedType
		case strings.HasPrefix(s[i:], "#unknown"):
			return jscandec.ErrUnknownField
		case strings.HasPrefix(s[i:], "#depth"):
			return fmt.Errorf("wrapped: %w", jscandec.ErrExceededMaxDepth)
		}
	}
	return nil
}

// JSON unmarshalers

// UJ is a struct with pointer receiver.
type UJ struct {
	Raw string
	N   int
}

func (u *UJ) UnmarshalJSON(b []byte) error {
	u.Raw = string(b)
	u.N++
	return record("UJ", false, b)
}

// MarshalJSON returns the raw value.
func (u UJ) MarshalJSON() ([]byte, error) {
	if u.Raw == "" {
		return []byte("null"), nil
	}
	return []byte(u.Raw), nil
}

// UJBig is larger than 128 bytes.
type UJBig struct {
	Pad [17]uint64
	Raw string
}

func (u *UJBig) UnmarshalJSON(b []byte) error {
	u.Raw = string(b)
	u.Pad[16] = uint64(len(b))
	return record("UJBig", false, b)
}

type UJStr string

func (u *UJStr) UnmarshalJSON(b []byte) error {
	*u = UJStr("s" + string(b))
	return record("UJStr", false, b)
}

type UJInt int32

func (u *UJInt) UnmarshalJSON(b []byte) error {
	*u = UJInt(len(b)) + *u*31
	return record("UJInt", false, b)
}

type UJBool bool

func (u *UJBool) UnmarshalJSON(b []byte) error {
	*u = UJBool(len(b)%2 == 0)
	return record("UJBool", false, b)
}

type UJU8 uint8

func (u *UJU8) UnmarshalJSON(b []byte) error {
	*u = UJU8(len(b))
	return record("UJU8", false, b)
}

type UJF64 float64

func (u *UJF64) UnmarshalJSON(b []byte) error {
	*u = UJF64(len(b)) / 2
	return record("UJF64", false, b)
}

type UJSlice []byte

func (u *UJSlice) UnmarshalJSON(b []byte) error {
	*u = append((*u)[:0:0], b...)
	return record("UJSlice", false, b)
}

type UJMap map[string]string

func (u *UJMap) UnmarshalJSON(b []byte) error {
	if *u == nil {
		*u = UJMap{}
	}
	(*u)[string(b)] += "x"
	return record("UJMap", false, b)
}

type UJArr [2]string

func (u *UJArr) UnmarshalJSON(b []byte) error {
	u[0], u[1] = u[1], string(b)
	return record("UJArr", false, b)
}

// UJEmpty is a zero-size unmarshaler.
type UJEmpty struct{}

func (u *UJEmpty) UnmarshalJSON(b []byte) error { return record("UJEmpty", false, b) }

// UJValMap has a value receiver.
type UJValMap map[string]string

func (u UJValMap) UnmarshalJSON(b []byte) error {
	if u != nil {
		u[string(b)] += "v"
	}
	return record("UJValMap", false, b)
}

// UJVal is a struct with a value receiver that holds a pointer.
type UJVal struct{ P *string }

func (u UJVal) UnmarshalJSON(b []byte) error {
	if u.P != nil {
		*u.P += string(b)
	}
	return record("UJVal", false, b)
}

// UJNest decodes its contents by jscandec itself (reentrancy).
type UJNest struct {
	V any
	S string
}

func (u *UJNest) UnmarshalJSON(b []byte) error {
	u.S = ""
	var v any
	if err := jscandec.Unmarshal(b, &v); err != nil {
		return fmt.Errorf("nested: %w", err)
	}
	u.V = v
	u.S = string(b)
	return record("UJNest", false, b)
}

// UJSelf decodes its contents into values of its own type (reentrancy).
type UJSelf struct {
	Kids []*UJSelf
	M    map[string]UJSelf
	V    any
}

func (u *UJSelf) UnmarshalJSON(b []byte) error {
	*u = UJSelf{}
	if err := record("UJSelf", false, b); err != nil {
		return err
	}
	switch b[0] {
	case '[':
		return jscandec.Unmarshal(b, &u.Kids)
	case '{':
		return jscandec.Unmarshal(string(b), &u.M)
	}
	d, err := jscandec.NewDecoder[[]byte, any](jscan.NewTokenizer[[]byte](4, 4), jscandec.DefaultInitOptions)
	if err != nil {
		return err
	}
	_, err = d.Decode(b, &u.V, jscandec.DefaultOptions)
	return err
}

// Text unmarshalers

type UT struct {
	S string
	N int
}

func (u *UT) UnmarshalText(b []byte) error {
	u.S = string(b)
	u.N++
	return record("UT", true, b)
}

type UTStr string

func (u *UTStr) UnmarshalText(b []byte) error {
	*u = UTStr("t" + string(b))
	return record("UTStr", true, b)
}

type UTInt int

func (u *UTInt) UnmarshalText(b []byte) error {
	i, err := strconv.Atoi(string(b))
	if err == nil {
		*u = UTInt(i + 1000)
	} else {
		*u = UTInt(len(b))
	}
	return record("UTInt", true, b)
}

type UTU8 uint8

func (u *UTU8) UnmarshalText(b []byte) error {
	*u = UTU8(len(b) % 7)
	return record("UTU8", true, b)
}

type UTBytes []byte

func (u *UTBytes) UnmarshalText(b []byte) error {
	*u = append((*u)[:0:0], b...)
	return record("UTBytes", true, b)
}

type UTBool bool

func (u *UTBool) UnmarshalText(b []byte) error {
	*u = UTBool(len(b)%2 == 1)
	return record("UTBool", true, b)
}

// UTArr is a comparable array kind.
type UTArr [2]string

func (u *UTArr) UnmarshalText(b []byte) error {
	u[0], u[1] = string(b), strconv.Itoa(len(b))
	return record("UTArr", true, b)
}

// UTEmpty is a zero-size text unmarshaler.
type UTEmpty struct{}

func (u *UTEmpty) UnmarshalText(b []byte) error { return record("UTEmpty", true, b) }

// UTBig is a comparable key of more than 128 bytes.
type UTBig [40]uint32

func (u *UTBig) UnmarshalText(b []byte) error {
	*u = UTBig{}
	for i, c := range b {
		u[i%40] = u[i%40]*31 + uint32(c)
	}
	return record("UTBig", true, b)
}

// UTVal has a value receiver.
type UTVal struct{ P *string }

func (u UTVal) UnmarshalText(b []byte) error {
	if u.P != nil {
		*u.P += string(b)
	}
	return record("UTVal", true, b)
}

// UBoth implements both interfaces, JSON has precedence for values.
type UBoth struct{ J, T string }

func (u *UBoth) UnmarshalJSON(b []byte) error {
	u.J = string(b)
	return record("UBoth", false, b)
}

func (u *UBoth) UnmarshalText(b []byte) error {
	u.T = string(b)
	return record("UBoth", true, b)
}

// UFin is a JSON unmarshaler holding a struct with pointers.
type UTree struct {
	Kids []UTree
	Raw  string
}

func (u *UTree) UnmarshalJSON(b []byte) error {
	u.Raw = string(b)
	u.Kids = append(u.Kids, UTree{Raw: "kid"})
	return record("UTree", false, b)
}

var _ json.Unmarshaler = (*UJ)(nil)
