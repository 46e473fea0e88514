package main

import (
	"go/token"
	"go/types"
)

// form is a linear combination of values, plus k.
type form struct {
	c map[*Val]int64
	k int64
}

func (f form) plus(g form, m int64) form {
	r := form{c: make(map[*Val]int64, len(f.c)+len(g.c)), k: f.k + m*g.k}
	for v, n := range f.c {
		r.c[v] = n
	}
	for v, n := range g.c {
		if r.c[v] += m * n; r.c[v] == 0 {
			delete(r.c, v)
		}
	}
	return r
}

// form writes v as a linear combination. Sums are taken apart only if they cannot overflow.
func (s *State) form(v *Val, depth int) form {
	atom := form{c: map[*Val]int64{v: 1}}
	if n, ok := v.int64(); ok {
		return form{k: n}
	}
	if depth > 8 {
		return atom
	}
	switch v.Op {
	case "conv":
		if isIntVal(v.Args[0]) {
			l, h := s.interval(v.Args[0], 0)
			tl, th := typeRange(v.Typ, s.run.P)
			if l >= tl && h <= th {
				return s.form(v.Args[0], depth+1)
			}
		}
	case "len":
		x := v.Args[0].strip()
		for x.Op == "conv" && isStringOrBytes(x.Typ) && isStringOrBytes(x.Args[0].Typ) {
			x = x.Args[0].strip()
		}
		if x.Op == "slice" && x.Args[0] != nil {
			if _, ok := x.Args[0].Typ.Underlying().(*types.Pointer); ok {
				break
			}
			lo, hi := form{}, form{}
			if x.Args[1] != nil {
				lo = s.form(x.Args[1], depth+1)
			}
			if x.Args[2] != nil {
				hi = s.form(x.Args[2], depth+1)
			} else {
				hi = s.form(s.run.lenOf(s, nil, "len", x.Args[0], types.Typ[types.Int]), depth+1)
			}
			return hi.plus(lo, -1)
		}
		if x != v.Args[0] {
			return s.form(s.run.lenOf(s, nil, "len", x, types.Typ[types.Int]), depth+1)
		}
	case "bin":
		a, b := v.Args[0], v.Args[1]
		if v.Typ == nil || !isWideInt(v.Typ) || !s.small(a, depth) || !s.small(b, depth) {
			break
		}
		switch token.Token(v.Idx) {
		case token.ADD:
			return s.form(a, depth+1).plus(s.form(b, depth+1), 1)
		case token.SUB:
			return s.form(a, depth+1).plus(s.form(b, depth+1), -1)
		}
	}
	return atom
}

// small reports whether v is so far from the limits of its type that adding others like it does not overflow.
func (s *State) small(v *Val, depth int) bool {
	if v == nil || depth > 8 {
		return false
	}
	switch v.Op {
	case "len", "cap":
		return true
	case "call":
		if isCallOf(v, "encoding/base64", "EncodedLen", "DecodedLen") {
			return s.small(v.Args[len(v.Args)-1], depth+1)
		}
	case "conv":
		if s.small(v.Args[0], depth+1) {
			return true
		}
	case "bin":
		if op := token.Token(v.Idx); op == token.ADD || op == token.SUB {
			return s.small(v.Args[0], depth+1) && s.small(v.Args[1], depth+1)
		}
	}
	if found(v) {
		return true
	}
	l, h := s.interval(v, 0)
	if l >= -1<<30 && h <= 1<<30 {
		return true
	}
	for _, f := range s.Facts {
		if f.op == "lt" && f.b != nil && l >= -1<<30 && (f.val && f.a == v && lengthy(f.b) || !f.val && f.b == v && lengthy(f.a)) {
			return true
		}
	}
	return false
}

// lengthy reports whether v is no more than the length of something.
func lengthy(v *Val) bool {
	if v.Op == "bin" && token.Token(v.Idx) == token.SUB {
		n, ok := v.Args[1].int64()
		return ok && n >= 0 && lengthy(v.Args[0])
	}
	return v.Op == "len"
}

// found reports whether v is the result of a search for one byte, or for a text that is not empty.
func found(v *Val) bool {
	if v == nil || v.Op != "call" || len(v.Args) != 2 {
		return false
	}
	switch {
	case isCallOf(v, "bytes", "IndexByte"), isCallOf(v, "strings", "IndexByte"), isCallOf(v, "bytes", "LastIndexByte"), isCallOf(v, "strings", "LastIndexByte"),
		isCallOf(v, "strings", "IndexRune"), isCallOf(v, "bytes", "IndexRune"), isCallOf(v, "strings", "IndexAny"), isCallOf(v, "bytes", "IndexAny"),
		isCallOf(v, "strings", "IndexFunc"), isCallOf(v, "bytes", "IndexFunc"):
		return true
	case isCallOf(v, "strings", "Index"), isCallOf(v, "strings", "LastIndex"), isCallOf(v, "bytes", "Index"), isCallOf(v, "bytes", "LastIndex"):
		sep, ok := v.Args[1].strip().str()
		return ok && sep != ""
	}
	return false
}

// proves reports whether b - a >= 0 follows from what is known, by adding up inequalities.
func (s *State) proves(a, b *Val) bool {
	if a == nil || b == nil {
		return false
	}
	goal := s.form(b, 0).plus(s.form(a, 0), -1)
	var hyps []form
	for _, k := range sortedKeys(s.Facts) {
		f := s.Facts[k]
		if f.b == nil || !isIntVal(f.a) || !isIntVal(f.b) {
			continue
		}
		d := s.form(f.b, 0).plus(s.form(f.a, 0), -1)
		switch {
		case f.op == "lt" && f.val:
			d.k--
			hyps = append(hyps, d)
		case f.op == "lt":
			hyps = append(hyps, form{}.plus(d, -1))
		case f.op == "eq" && f.val:
			hyps = append(hyps, d, form{}.plus(d, -1))
		}
	}
	atoms := map[*Val]bool{}
	for v := range goal.c {
		atoms[v] = true
	}
	for _, h := range hyps {
		for v := range h.c {
			atoms[v] = true
		}
	}
	for v := range atoms {
		l, h := s.interval(v, 0)
		if l > minInf {
			hyps = append(hyps, form{map[*Val]int64{v: 1}, -l})
		}
		if h < maxInf {
			hyps = append(hyps, form{map[*Val]int64{v: -1}, h})
		}
		if found(v) {
			n := s.form(s.run.lenOf(s, nil, "len", v.Args[0], types.Typ[types.Int]), 0)
			n.k--
			hyps = append(hyps, n.plus(form{c: map[*Val]int64{v: 1}}, -1), form{map[*Val]int64{v: 1}, 1})
		}
	}
	var try func(g form, depth int) bool
	try = func(g form, depth int) bool {
		if len(g.c) == 0 {
			return g.k >= 0
		}
		if depth == 0 {
			return false
		}
		// the atom of the least key decides
		var at *Val
		for v := range g.c {
			if at == nil || v.Key < at.Key {
				at = v
			}
		}
		for _, h := range hyps {
			d := h.c[at]
			if d == 0 || g.c[at]%d != 0 || g.c[at]/d <= 0 {
				continue
			}
			if try(g.plus(h, -(g.c[at]/d)), depth-1) {
				return true
			}
		}
		return false
	}
	return try(goal, 4)
}
