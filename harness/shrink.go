package main

import (
	"encoding/json"
	"fmt"
)

type caughtFail struct{ msg string }

// fails tells whether diff reports a violation for c.
func (w *W) fails(c Case) (msg string, failed bool) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case caughtFail:
			msg, failed = p.msg, true
		default:
			panic(p)
		}
	}()
	w.catch = true
	defer func() { w.catch = false }()
	w.diff(&c)
	return "", false
}

// shrink minimizes the document of a failing case. It's only used for replays.
func (w *W) shrink(c Case) {
	w.shrinking = false
	msg, ok := w.fails(c)
	if !ok {
		return
	}
	try := func(n Case) bool {
		if m, ok := w.fails(n); ok {
			c, msg = n, m
			return true
		}
		return false
	}
	if c.Fill != 0 {
		n := c
		n.Fill = 0
		try(n)
	}
	for again := true; again; {
		again = false
		if json.Valid(c.Doc) {
		RESTART:
			var spans [][2]int
			var reps []string
			var walk func(n *node)
			walk = func(n *node) {
				for _, r := range []string{"null", "0", `""`, "[]", "{}"} {
					if n.end-n.start > len(r) {
						spans = append(spans, [2]int{n.start, n.end})
						reps = append(reps, r)
					}
				}
				for i := range n.kids {
					st := n.kids[i].start
					if n.kind == nObject {
						st = n.keys[i].start
					}
					if i+1 < len(n.kids) {
						e := n.kids[i+1].start
						if n.kind == nObject {
							e = n.keys[i+1].start
						}
						spans = append(spans, [2]int{st, e})
						reps = append(reps, "")
					} else if i > 0 {
						spans = append(spans, [2]int{n.kids[i-1].end, n.kids[i].end})
						reps = append(reps, "")
					} else {
						spans = append(spans, [2]int{st, n.kids[i].end})
						reps = append(reps, "")
					}
				}
				for i := range n.kids {
					walk(&n.kids[i])
				}
			}
			walk(parseJSON(c.Doc))
			for i, s := range spans {
				n := c
				n.Doc = append(append(append([]byte(nil), c.Doc[:s[0]]...), reps[i]...), c.Doc[s[1]:]...)
				if json.Valid(n.Doc) && len(n.Doc) < len(c.Doc) && try(n) {
					again = true
					goto RESTART
				}
			}
		}
		for i := 0; i < len(c.Doc); i++ {
			for l := 16; l > 0; l /= 4 {
				if i+l > len(c.Doc) {
					continue
				}
				n := c
				n.Doc = append(append([]byte(nil), c.Doc[:i]...), c.Doc[i+l:]...)
				if json.Valid(n.Doc) == json.Valid(c.Doc) && try(n) {
					again = true
					i--
					break
				}
			}
		}
	}
	fmt.Printf("MINIMIZED %s\n%s\n", c.String(), msg)
}
