package main

import "encoding/json"

// syntaxValid tells whether doc is one RFC 8259 JSON value, whatever its depth.
// deep is true if it is but encoding/json refuses it because of its depth.
func syntaxValid(w *W, doc []byte) (valid, deep bool) {
	ok, depth := recognise(doc)
	std := json.Valid(doc)
	if depth <= 10_000 && ok != std {
		w.oracleMismatch("the recogniser and json.Valid disagree about " + string(doc))
	}
	return ok, ok && !std
}

// recognise is a recogniser of RFC 8259. Like encoding/json
// it doesn't care about invalid UTF-8 and lone surrogates.
func recognise(s []byte) (ok bool, maxDepth int) {
	var stack []byte // '{' or '['
	i := 0
	ws := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r') {
			i++
		}
	}
	digits := func() bool {
		n := i
		for i < len(s) && '0' <= s[i] && s[i] <= '9' {
			i++
		}
		return i > n
	}
	str := func() bool {
		if i >= len(s) || s[i] != '"' {
			return false
		}
		for i++; i < len(s); i++ {
			switch c := s[i]; {
			case c == '"':
				i++
				return true
			case c < 0x20:
				return false
			case c == '\\':
				if i++; i >= len(s) {
					return false
				}
				switch s[i] {
				case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				case 'u':
					for k := 0; k < 4; k++ {
						i++
						if i >= len(s) || !('0' <= s[i] && s[i] <= '9' || 'a' <= s[i] && s[i] <= 'f' || 'A' <= s[i] && s[i] <= 'F') {
							return false
						}
					}
				default:
					return false
				}
			}
		}
		return false
	}
	lit := func(l string) bool {
		if len(s)-i < len(l) || string(s[i:i+len(l)]) != l {
			return false
		}
		i += len(l)
		return true
	}
	key := func() bool {
		if !str() {
			return false
		}
		ws()
		return lit(":")
	}
VALUE:
	ws()
	if i >= len(s) {
		return false, maxDepth
	}
	switch c := s[i]; {
	case c == '{' || c == '[':
		i++
		stack = append(stack, c)
		if len(stack) > maxDepth {
			maxDepth = len(stack)
		}
		ws()
		if i < len(s) && s[i] == c+2 { // } or ]
			goto END
		}
		if c == '{' && !key() {
			return false, maxDepth
		}
		goto VALUE
	case c == '"':
		if !str() {
			return false, maxDepth
		}
	case c == 't':
		if !lit("true") {
			return false, maxDepth
		}
	case c == 'f':
		if !lit("false") {
			return false, maxDepth
		}
	case c == 'n':
		if !lit("null") {
			return false, maxDepth
		}
	default:
		if c == '-' {
			i++
		}
		if i < len(s) && s[i] == '0' {
			i++
		} else if !digits() {
			return false, maxDepth
		}
		if i < len(s) && s[i] == '.' {
			i++
			if !digits() {
				return false, maxDepth
			}
		}
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			i++
			if i < len(s) && (s[i] == '+' || s[i] == '-') {
				i++
			}
			if !digits() {
				return false, maxDepth
			}
		}
	}
AFTER:
	ws()
	if len(stack) == 0 {
		return i == len(s), maxDepth
	}
	if i >= len(s) {
		return false, maxDepth
	}
	if s[i] == ',' {
		i++
		ws()
		if stack[len(stack)-1] == '{' && !key() {
			return false, maxDepth
		}
		goto VALUE
	}
END:
	if s[i] != stack[len(stack)-1]+2 {
		return false, maxDepth
	}
	i++
	stack = stack[:len(stack)-1]
	goto AFTER
}
