package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type memEnt struct{ addr, val *Val }

type fact struct {
	op   string // "eq", "lt", "true"
	a, b *Val
	val  bool
}

func (f fact) key() string {
	k := f.op + "|" + f.a.Key
	if f.b != nil {
		k += "|" + f.b.Key
	}
	return k
}

type deferred struct {
	instr *ssa.Defer
	call  callTarget
}

// callTarget is a resolved call: exactly one of fn (static or closure), meth (interface call), builtin or fv applies.
type callTarget struct {
	fn       *ssa.Function
	bindings []*Val
	meth     *types.Func
	recv     *Val // receiver of an interface call
	builtin  string
	fv       *Val // function value
	args     []*Val
	sig      *types.Signature
}

// Act is one activation on the abstract stack.
type Act struct {
	F      *Frame
	Env    map[ssa.Value]*Val
	Block  *ssa.BasicBlock
	Idx    int
	Defers []deferred
	// how to continue in the caller
	deferCall bool // this is a deferred call: results are dropped and the caller's instruction is run again
	onceCall  bool
	unwind    bool // the panic is being propagated through this activation
}

func (a *Act) clone() *Act {
	b := *a
	b.Env = make(map[ssa.Value]*Val, len(a.Env)+4)
	for k, v := range a.Env {
		b.Env[k] = v
	}
	b.Defers = append([]deferred(nil), a.Defers...)
	return &b
}

type trace struct {
	prev *trace
	pos  token.Pos
	note string
	n    int
}

// State is one abstract state: stack, memory, facts, and the monitor's variables.
type State struct {
	Stack []*Act
	Mem   map[string]memEnt
	Facts map[string]fact
	M     map[string]*Val
	Panic bool
	tr    *trace
	run   *Run
}

func (s *State) clone() *State {
	t := &State{Panic: s.Panic, tr: s.tr, run: s.run}
	t.Stack = make([]*Act, len(s.Stack))
	for i, a := range s.Stack {
		t.Stack[i] = a.clone()
	}
	t.Mem = make(map[string]memEnt, len(s.Mem)+4)
	for k, v := range s.Mem {
		t.Mem[k] = v
	}
	t.Facts = make(map[string]fact, len(s.Facts)+4)
	for k, v := range s.Facts {
		t.Facts[k] = v
	}
	t.M = make(map[string]*Val, len(s.M)+2)
	for k, v := range s.M {
		t.M[k] = v
	}
	return t
}

func (s *State) top() *Act { return s.Stack[len(s.Stack)-1] }

func (s *State) note(pos token.Pos, n string) {
	k := 0
	if s.tr != nil {
		k = s.tr.n + 1
	}
	s.tr = &trace{prev: s.tr, pos: pos, note: n, n: k}
}

// --- monitor variables -----------------------------------------------------

func (s *State) Get(k string) *Val    { return s.M[k] }
func (s *State) Set(k string, v *Val) { s.M[k] = v }
func (s *State) Del(k string)         { delete(s.M, k) }
func (s *State) Flag(k string) bool   { _, ok := s.M[k]; return ok }
func (s *State) SetFlag(k string)     { s.M[k] = s.run.intVal(1) }
func (s *State) Int(k string) int64 {
	n, _ := s.M[k].int64()
	return n
}

// Inc counts up to three.
func (s *State) Inc(k string) {
	if n := s.Int(k); n < 3 {
		s.SetInt(k, n+1)
	}
}

func (s *State) SetInt(k string, n int64) {
	if n == 0 {
		delete(s.M, k)
	} else {
		s.M[k] = s.run.intVal(n)
	}
}

// DelPrefix removes all monitor variables whose name starts with p.
func (s *State) DelPrefix(p string) {
	for k := range s.M {
		if strings.HasPrefix(k, p) {
			delete(s.M, k)
		}
	}
}

func (s *State) Prefix(p string) (ks []string) {
	for _, k := range sortedKeys(s.M) {
		if strings.HasPrefix(k, p) {
			ks = append(ks, k)
		}
	}
	return
}

// --- facts ----------------------------------------------------------------

func (s *State) addFact(op string, a, b *Val, v bool) {
	f := fact{op, a, b, v}
	s.Facts[f.key()] = f
}

func order(a, b *Val) (*Val, *Val) {
	if a.isConst() && !b.isConst() || (a.isConst() == b.isConst() && a.Key > b.Key) {
		return b, a
	}
	return a, b
}

// constOf returns the constant v is known to equal.
func (s *State) constOf(v *Val) *Val {
	if v.isConst() {
		return v
	}
	for _, f := range s.Facts {
		if f.op == "eq" && f.val && f.a == v && f.b.isConst() {
			return f.b
		}
	}
	if n, ok := s.boolFact(v); ok {
		return s.run.boolVal(n)
	}
	return nil
}

func (s *State) boolFact(v *Val) (val, ok bool) {
	if f, k := s.Facts["true|"+v.Key]; k {
		return f.val, true
	}
	return false, false
}

// Eq decides a == b: known is false if it cannot.
func (s *State) Eq(a, b *Val) (eq, known bool) {
	if a == nil || b == nil {
		return false, false
	}
	if a == b {
		return true, true
	}
	a, b = order(a, b)
	if a.isConst() && b.isConst() {
		if a.isNil() || b.isNil() {
			return a.isNil() && b.isNil(), true
		}
		if a.C.Kind() == b.C.Kind() {
			return constant.Compare(a.C, token.EQL, b.C), true
		}
		return false, false
	}
	if b.isNil() {
		if n, k := s.nilness(a); k {
			return n, true
		}
	}
	if a.nonNil() && b.nonNil() && a.Op != "iface" && b.Op != "iface" {
		if (a.Op == "alloc" || a.Op == "make" || a.Op == "gval" || a.Op == "global") && (b.Op == "alloc" || b.Op == "make" || b.Op == "gval" || b.Op == "global") {
			if a.Age == 0 && b.Age == 0 || a.Leaf != b.Leaf {
				return false, true
			}
		}
	}
	if f, ok := s.Facts["eq|"+a.Key+"|"+b.Key]; ok {
		return f.val, true
	}
	// the empty string is the one of length 0
	for i, x := range []*Val{a, b} {
		if y := []*Val{b, a}[i]; x.isConst() && x.C != nil && x.C.Kind() == constant.String && constant.StringVal(x.C) == "" && y.fdepth < s.run.maxF() {
			l, z := order(s.run.lenOf(s, nil, "len", y, types.Typ[types.Int]), s.run.intVal(0))
			if f, ok := s.Facts["eq|"+l.Key+"|"+z.Key]; ok {
				return f.val, true
			}
			if lt, k := s.Lt(s.run.intVal(0), s.run.lenOf(s, nil, "len", y, types.Typ[types.Int])); k && lt {
				return false, true
			}
		}
	}
	ca, cb := s.constOf(a), s.constOf(b)
	if ca != nil && cb != nil && (ca != a || cb != b) {
		return s.Eq(ca, cb)
	}
	// equalities with a third value
	for _, f := range s.Facts {
		if f.op == "eq" && f.val {
			var o *Val
			if f.a == a {
				o = f.b
			} else if f.b == a {
				o = f.a
			} else {
				continue
			}
			if o == b {
				return true, true
			}
			if o.isNil() {
				if n, k := s.nilness(b); k {
					return n, true
				}
			}
			x, y := order(o, b)
			if g, ok := s.Facts["eq|"+x.Key+"|"+y.Key]; ok {
				return g.val, true
			}
			if o.Op == "gval" && b.isNil() {
				return false, true
			}
			if o.Op == "gval" && b.Op == "gval" && o != b {
				return false, true
			}
		}
	}
	if a.Op == "gval" || b.Op == "gval" {
		// an error known to be nil is no package-level error
		g, o := a, b
		if b.Op == "gval" {
			g, o = b, a
		}
		if n, k := s.nilness(o); k && n && g.nonNil() {
			return false, true
		}
	}
	if isIntVal(a) && isIntVal(b) {
		alo, ahi := s.interval(a, 0)
		blo, bhi := s.interval(b, 0)
		if ahi < blo || bhi < alo {
			return false, true
		}
	}
	return false, false
}

func isIntVal(v *Val) bool {
	if v.Typ == nil {
		return false
	}
	b, ok := v.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (s *State) nilness(a *Val) (isNil, known bool) {
	if a.isNil() {
		return true, true
	}
	if a.nonNil() {
		return false, true
	}
	if a.Op == "conv" {
		return s.nilness(a.Args[0])
	}
	if a.Op == "slice" && a.Args[0].Op == "alloc" {
		return false, true // of an array
	}
	if f, ok := s.Facts["eq|"+a.Key+"|"+s.run.nilVal.Key]; ok {
		return f.val, true
	}
	for _, f := range s.Facts {
		if f.op == "eq" && f.val && (f.a == a && f.b.nonNil() || f.b == a && f.a.nonNil()) {
			return false, true
		}
	}
	if a.Op == "ext" && len(a.Args) == 1 {
		c := a.Args[0]
		if t, ok := c.Typ.(*types.Tuple); ok && t.Len() > 1 && a.Idx == 0 {
			last := t.At(t.Len() - 1).Type()
			r := s.run.in.mk(Val{Op: "ext", Args: []*Val{c}, Idx: t.Len() - 1, Typ: last})
			switch {
			case c.Op == "call" && isErrorType(last) && !isSliceOrMap(a.Typ):
				// a call that succeeds returns a value
				if f, ok := s.Facts["eq|"+r.Key+"|"+s.run.nilVal.Key]; ok && f.val {
					return false, true
				}
			case c.Op == "lookup":
				if b, k := s.boolFact(r); k && !b {
					return true, true
				}
			}
		}
	}
	return false, false
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// IsNil / NonNil: known facts only.
func (s *State) IsNil(v *Val) bool {
	if v == nil {
		return false
	}
	n, k := s.nilness(v)
	return k && n
}
func (s *State) NonNil(v *Val) bool {
	if v == nil {
		return false
	}
	n, k := s.nilness(v)
	return k && !n
}
func (s *State) IsTrue(v *Val) bool  { b, k := s.truth(v); return k && b }
func (s *State) IsFalse(v *Val) bool { b, k := s.truth(v); return k && !b }

const (
	minInf = int64(-1) << 62
	maxInf = int64(1) << 62
)

func addSat(a, b int64) int64 {
	if a <= minInf || b <= minInf {
		return minInf
	}
	if a >= maxInf || b >= maxInf {
		return maxInf
	}
	c := a + b
	if c > maxInf {
		return maxInf
	}
	if c < minInf {
		return minInf
	}
	return c
}

func mulSat(a, b int64) int64 { // both non-negative
	if a == 0 || b == 0 {
		return 0
	}
	if a >= maxInf/b {
		return maxInf
	}
	return a * b
}

// interval bounds the integer v by the facts known.
func (s *State) interval(v *Val, depth int) (lo, hi int64) {
	lo, hi = minInf, maxInf
	if n, ok := v.int64(); ok {
		return n, n
	}
	if depth > 5 {
		return
	}
	if v.Typ != nil {
		if b, ok := v.Typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				lo, hi = 0, 255
			case types.Uint16:
				lo, hi = 0, 65535
			case types.Uint32:
				lo, hi = 0, 1<<32-1
			case types.Uint, types.Uint64, types.Uintptr:
				lo = 0
			}
		}
	}
	meet := func(l, h int64) {
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
	}
	switch v.Op {
	case "len", "cap":
		meet(0, maxInf)
	case "conv":
		if isIntVal(v.Args[0]) {
			l, h := s.interval(v.Args[0], depth+1)
			tl, th := typeRange(v.Typ, s.run.P)
			if l >= tl && h <= th {
				meet(l, h)
			}
		}
	case "bin":
		l1, h1 := s.interval(v.Args[0], depth+1)
		l2, h2 := s.interval(v.Args[1], depth+1)
		tl, th := typeRange(v.Typ, s.run.P)
		switch token.Token(v.Idx) {
		case token.ADD:
			if l, h := addSat(l1, l2), addSat(h1, h2); l >= tl && (h <= th || v.Typ != nil && isWideInt(v.Typ)) {
				meet(l, h)
			}
		case token.SUB:
			nh, nl := -l2, -h2
			if l, h := addSat(l1, nl), addSat(h1, nh); l >= tl && h <= th {
				meet(l, h)
			}
			// a - b with b <= a
			if lt, k := s.ltRaw(v.Args[0], v.Args[1]); k && !lt {
				meet(0, maxInf)
			}
		case token.MUL:
			if l1 >= 0 && l2 >= 0 {
				if l, h := mulSat(l1, l2), mulSat(h1, h2); h <= th || v.Typ != nil && isWideInt(v.Typ) {
					meet(l, h)
				}
			}
		case token.REM:
			if l1 >= 0 && l2 > 0 {
				meet(0, h2-1)
			}
		case token.QUO:
			if l1 >= 0 && l2 > 0 {
				meet(0, h1)
			}
		case token.AND:
			if l2 >= 0 {
				meet(0, h2)
			} else if l1 >= 0 {
				meet(0, h1)
			}
		}
	case "phi":
		if s.run.nonNegPhi(v) {
			meet(0, maxInf)
		} else if s.run.countsUp(v) {
			meet(-1, maxInf)
		}
	}
	for _, f := range s.Facts {
		switch f.op {
		case "eq":
			if f.a == v && f.b.isConst() {
				if n, ok := f.b.int64(); ok && f.val {
					meet(n, n)
				}
			}
		case "lt":
			if f.a == v && f.b != v {
				if n, ok := f.b.int64(); ok {
					if f.val {
						meet(minInf, n-1)
					} else {
						meet(n, maxInf)
					}
				} else if depth < 3 {
					l, h := s.interval(f.b, depth+3)
					if f.val {
						meet(minInf, addSat(h, -1))
					} else {
						meet(l, maxInf)
					}
				}
			} else if f.b == v && f.a != v {
				if n, ok := f.a.int64(); ok {
					if f.val {
						meet(n+1, maxInf)
					} else {
						meet(minInf, n)
					}
				} else if depth < 3 {
					l, h := s.interval(f.a, depth+3)
					if f.val {
						meet(addSat(l, 1), maxInf)
					} else {
						meet(minInf, h)
					}
				}
			}
		}
	}
	// disequalities at the ends
	for _, f := range s.Facts {
		if f.op == "eq" && !f.val && f.a == v && f.b.isConst() {
			if n, ok := f.b.int64(); ok {
				if n == lo {
					lo++
				}
				if n == hi {
					hi--
				}
			}
		}
	}
	return
}

func isWideInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

func typeRange(t types.Type, p *Prog) (lo, hi int64) {
	if t == nil {
		return minInf, maxInf
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return minInf, maxInf
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		if p != nil && p.wordSize() == 4 && b.Kind() != types.Uint64 {
			return 0, 1<<32 - 1
		}
		return 0, maxInf
	case types.Int:
		if p != nil && p.wordSize() == 4 {
			return -1 << 31, 1<<31 - 1
		}
	}
	return minInf, maxInf
}

func (p *Prog) wordSize() int64 {
	if p.Pkgs[0].TypesSizes != nil {
		return p.Pkgs[0].TypesSizes.Sizeof(types.Typ[types.Int])
	}
	return 8
}

// ltRaw looks a < b up without interval reasoning.
func (s *State) ltRaw(a, b *Val) (lt, known bool) {
	if a == b {
		return false, true
	}
	if f, ok := s.Facts["lt|"+a.Key+"|"+b.Key]; ok {
		return f.val, true
	}
	if f, ok := s.Facts["lt|"+b.Key+"|"+a.Key]; ok && f.val {
		return false, true
	}
	return false, false
}

// Lt decides a < b.
func (s *State) Lt(a, b *Val) (lt, known bool) {
	if a == nil || b == nil {
		return false, false
	}
	if lt, known = s.ltRaw(a, b); known {
		return
	}
	if a.isConst() && b.isConst() && !a.isNil() && !b.isNil() && a.C.Kind() == b.C.Kind() && a.C.Kind() != constant.Bool {
		return constant.Compare(a.C, token.LSS, b.C), true
	}
	if !isIntVal(a) && a.Op != "len" || !isIntVal(b) && b.Op != "len" {
		return false, false
	}
	alo, ahi := s.interval(a, 0)
	blo, bhi := s.interval(b, 0)
	if ahi < blo {
		return true, true
	}
	if alo >= bhi {
		return false, true
	}
	return false, false
}

// split writes v as a term plus a constant.
func split(v *Val) (*Val, int64) {
	if v.Op == "bin" {
		if n, ok := v.Args[1].int64(); ok {
			switch token.Token(v.Idx) {
			case token.ADD:
				return v.Args[0], n
			case token.SUB:
				return v.Args[0], -n
			}
		}
	}
	return v, 0
}

// Le decides a <= b positively (true only if known).
func (s *State) Le(a, b *Val) bool {
	lt, k := s.Lt(b, a)
	if !k && a != nil && b != nil {
		x, m := split(a)
		y, n := split(b)
		switch {
		case x == y && isWideInt(a.Typ) && isWideInt(b.Typ):
			return m <= n
		case s.run.cfg.Bounds:
			for _, f := range s.Facts {
				if f.op == "lt" && !f.val && f.a == b && f.b != nil {
					if z, k := split(f.b); z == x && m <= k {
						return true
					}
				}
			}
		}
		if m > 0 && isWideInt(a.Typ) { // x < b means x+1 <= b
			l, known := s.Lt(s.add(a, -1), b)
			return known && l
		}
	}
	return k && !lt
}

// truth decides a boolean term.
func (s *State) truth(v *Val) (val, known bool) {
	if v == nil {
		return false, false
	}
	if b, ok := v.bool(); ok {
		return b, true
	}
	switch v.Op {
	case "un":
		if token.Token(v.Idx) == token.NOT {
			b, k := s.truth(v.Args[0])
			return !b, k
		}
	case "bin":
		a, b := v.Args[0], v.Args[1]
		switch token.Token(v.Idx) {
		case token.EQL:
			if n, ok := b.bool(); ok {
				if t, k := s.truth(a); k {
					return t == n, true
				}
				return false, false
			}
			return s.Eq(a, b)
		case token.NEQ:
			if n, ok := b.bool(); ok {
				if t, k := s.truth(a); k {
					return t != n, true
				}
				return false, false
			}
			e, k := s.Eq(a, b)
			return !e, k
		case token.LSS:
			return s.Lt(a, b)
		case token.GTR:
			return s.Lt(b, a)
		case token.LEQ:
			l, k := s.Lt(b, a)
			return !l, k
		case token.GEQ:
			l, k := s.Lt(a, b)
			return !l, k
		}
	}
	if n, ok := s.boolFact(v); ok {
		return n, true
	}
	if f, ok := s.Facts["eq|"+v.Key+"|"+s.run.boolVal(true).Key]; ok {
		return f.val, true
	}
	return false, false
}

// assume records that the boolean term v is val; it reports false if that contradicts what is known.
func (s *State) assume(v *Val, val bool) bool {
	if b, k := s.truth(v); k {
		return b == val
	}
	switch v.Op {
	case "un":
		if token.Token(v.Idx) == token.NOT {
			return s.assume(v.Args[0], !val)
		}
	case "bin":
		a, b := v.Args[0], v.Args[1]
		op := token.Token(v.Idx)
		switch op {
		case token.EQL, token.NEQ:
			eq := val == (op == token.EQL)
			if n, ok := b.bool(); ok {
				return s.assume(a, n == eq)
			}
			if n, ok := a.bool(); ok {
				return s.assume(b, n == eq)
			}
			// x == y with a constant known for one side is recorded for the other too
			x, y := order(a, b)
			s.addFact("eq", x, y, eq)
			if eq && x.Op == "conv" && y.isConst() && !y.isNil() {
				s.assumeConvEq(x, y)
			}
			if eq {
				return s.implied(x, y)
			}
			return true
		case token.LSS:
			s.addFact("lt", a, b, val)
			return true
		case token.GTR:
			s.addFact("lt", b, a, val)
			return true
		case token.LEQ:
			s.addFact("lt", b, a, !val)
			return true
		case token.GEQ:
			s.addFact("lt", a, b, !val)
			return true
		}
	}
	s.addFact("true", v, nil, val)
	// comma-ok results: the value is zero when ok is false
	if v.Op == "ext" && v.Idx == 1 && !val {
		c := v.Args[0]
		switch c.Op {
		case "lookup", "assertok2", "recv", "selrecv":
			if tt, ok := c.Typ.(*types.Tuple); ok && tt.Len() == 2 {
				x := s.run.in.mk(Val{Op: "ext", Args: []*Val{c}, Idx: 0, Typ: tt.At(0).Type()})
				if z := s.run.zero(tt.At(0).Type()); z != nil && z.isConst() {
					p, q := order(x, z)
					s.addFact("eq", p, q, true)
				}
			}
		}
	}
	return true
}

// assumeConvEq: T(x) == c for a value preserving conversion gives x == c.
func (s *State) assumeConvEq(x, c *Val) {
	a := x.Args[0]
	if isIntVal(a) && isIntVal(x) {
		if n, ok := c.int64(); ok {
			lo, hi := typeRange(a.Typ, s.run.P)
			if n >= lo && n <= hi {
				p, q := order(a, s.run.constVal(constant.MakeInt64(n), a.Typ))
				s.addFact("eq", p, q, true)
			}
		}
	}
}

// implied propagates an equality with nil or a constant; false means contradiction.
func (s *State) implied(x, y *Val) bool {
	if y.isConst() && !y.isNil() {
		for _, f := range s.Facts {
			if f.op == "lt" && isIntVal(x) {
				if f.a == x && f.b.isConst() {
					if lt, k := s.ltConst(y, f.b); k && lt != f.val {
						return false
					}
				}
				if f.b == x && f.a.isConst() {
					if lt, k := s.ltConst(f.a, y); k && lt != f.val {
						return false
					}
				}
			}
		}
	}
	return true
}

func (s *State) ltConst(a, b *Val) (bool, bool) {
	x, ok1 := a.int64()
	y, ok2 := b.int64()
	return x < y, ok1 && ok2
}

// --- garbage collection, keys and renaming -------------------------------------

func (s *State) liveLeafs() map[string]bool {
	l := map[string]bool{}
	add := func(v *Val) {
		if v != nil {
			for k := range v.leafs {
				l[k] = true
			}
		}
	}
	for _, a := range s.Stack {
		for _, v := range a.Env {
			add(v)
		}
		for _, d := range a.Defers {
			add(d.call.recv)
			add(d.call.fv)
			for _, v := range d.call.args {
				add(v)
			}
			for _, v := range d.call.bindings {
				add(v)
			}
		}
	}
	for _, v := range s.M {
		add(v)
	}
	// memory reachable from live leaves
	for changed := true; changed; {
		changed = false
		for _, e := range s.Mem {
			if !coveredBy(e.addr, l) {
				continue
			}
			for k := range e.val.leafs {
				if !l[k] {
					l[k] = true
					changed = true
				}
			}
		}
	}
	return l
}

func coveredBy(v *Val, l map[string]bool) bool {
	for k := range v.leafs {
		if !l[k] {
			return false
		}
	}
	return true
}

func (s *State) gc() {
	l := s.liveLeafs()
	for k, e := range s.Mem {
		if !coveredBy(e.addr, l) {
			delete(s.Mem, k)
		}
	}
	for k, f := range s.Facts {
		if !coveredBy(f.a, l) || f.b != nil && !coveredBy(f.b, l) {
			delete(s.Facts, k)
		}
	}
}

func (s *State) key() string {
	var sb strings.Builder
	if s.Panic {
		sb.WriteByte('!')
	}
	for _, a := range s.Stack {
		sb.WriteString(strconv.Itoa(a.F.ID))
		sb.WriteByte(':')
		sb.WriteString(strconv.Itoa(a.Block.Index))
		sb.WriteByte(':')
		sb.WriteString(strconv.Itoa(a.Idx))
		if a.unwind {
			sb.WriteByte('!')
		}
		m := make(map[string]string, len(a.Env))
		for k, v := range a.Env {
			m[k.Name()] = v.Key
		}
		for _, k := range sortedKeys(m) {
			sb.WriteByte('\n')
			sb.WriteString(k)
			sb.WriteByte('=')
			sb.WriteString(m[k])
		}
		for _, d := range a.Defers {
			sb.WriteString("\nD")
			sb.WriteString(strconv.Itoa(s.run.P.instrNo[d.instr]))
			for _, v := range d.call.args {
				sb.WriteByte(',')
				sb.WriteString(v.Key)
			}
			if d.call.recv != nil {
				sb.WriteByte(';')
				sb.WriteString(d.call.recv.Key)
			}
			if d.call.fv != nil {
				sb.WriteByte(';')
				sb.WriteString(d.call.fv.Key)
			}
		}
		sb.WriteString("\n--\n")
	}
	for _, k := range sortedKeys(s.Mem) {
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(s.Mem[k].val.Key)
		sb.WriteByte('\n')
	}
	for _, k := range sortedKeys(s.Facts) {
		sb.WriteString(k)
		if s.Facts[k].val {
			sb.WriteString("=1\n")
		} else {
			sb.WriteString("=0\n")
		}
	}
	for _, k := range sortedKeys(s.M) {
		sb.WriteString(k)
		sb.WriteByte('~')
		if v := s.M[k]; v != nil {
			sb.WriteString(v.Key)
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

// age renames the recent incarnation of leaf to the older one, everywhere.
func (s *State) age(leaf string) (rename func(*Val) *Val) {
	found := false
	check := func(v *Val) {
		if v != nil && v.leafs[leaf] {
			found = true
		}
	}
	old := false
	checkOld := func(v *Val) {
		if v != nil && v.leafs[leaf+"'"] {
			old = true
		}
	}
	s.each(func(v *Val) { check(v); checkOld(v) })
	memo := map[*Val]*Val{}
	var ren func(v *Val) *Val
	ren = func(v *Val) *Val {
		if v == nil || !v.leafs[leaf] {
			return v
		}
		if w, ok := memo[v]; ok {
			return w
		}
		n := *v
		self := n.Leaf == leaf && n.Age == 0
		if self {
			n.Age = 1
		}
		if len(v.Args) > 0 {
			n.Args = make([]*Val, len(v.Args))
			for i, a := range v.Args {
				n.Args[i] = ren(a)
				if w := n.Args[i]; self && w != nil && w.leafs[leaf+"'"] {
					// do not remember the whole history
					n.Args[i] = s.run.in.mk(Val{Op: "old", Leaf: leaf, Age: 1, Typ: w.Typ})
				}
			}
		}
		n.depth, n.leafs, n.Key = 0, nil, ""
		w := s.run.in.mk(n)
		memo[v] = w
		return w
	}
	if !found {
		return ren
	}
	if old && !s.holds(leaf+"'") { // only memory remembers the older value: forget it
		for k, f := range s.Facts {
			if f.a.leafs[leaf+"'"] || f.b != nil && f.b.leafs[leaf+"'"] {
				delete(s.Facts, k)
			}
		}
		for k, e := range s.Mem {
			if e.addr.leafs[leaf+"'"] || e.val.leafs[leaf+"'"] {
				delete(s.Mem, k)
			}
		}
		old = false
	}
	if old { // two older values under one name: nothing is known about them any more
		for k, f := range s.Facts {
			if f.a.leafs[leaf+"'"] || f.b != nil && f.b.leafs[leaf+"'"] || f.a.leafs[leaf] || f.b != nil && f.b.leafs[leaf] {
				delete(s.Facts, k)
			}
		}
		for k, e := range s.Mem {
			if e.addr.leafs[leaf+"'"] || e.addr.leafs[leaf] {
				delete(s.Mem, k)
			}
		}
	}
	for _, a := range s.Stack {
		for k, v := range a.Env {
			a.Env[k] = ren(v)
		}
		for i := range a.Defers {
			d := &a.Defers[i]
			d.call.recv, d.call.fv = ren(d.call.recv), ren(d.call.fv)
			d.call.args = renAll(d.call.args, ren)
			d.call.bindings = renAll(d.call.bindings, ren)
		}
	}
	mem := make(map[string]memEnt, len(s.Mem))
	for _, e := range s.Mem {
		a := ren(e.addr)
		mem[a.Key] = memEnt{a, ren(e.val)}
	}
	s.Mem = mem
	facts := make(map[string]fact, len(s.Facts))
	for _, f := range s.Facts {
		f.a, f.b = ren(f.a), ren(f.b)
		if f.op == "eq" {
			f.a, f.b = order(f.a, f.b)
		}
		facts[f.key()] = f
	}
	s.Facts = facts
	for _, k := range sortedKeys(s.M) {
		v := s.M[k]
		if v == nil || !v.leafs[leaf] {
			continue
		}
		w := ren(v)
		if i := strings.IndexByte(k, '#'); i >= 0 { // element of a set, keyed by its value
			delete(s.M, k)
			k = k[:i+1] + w.Key
		}
		s.M[k] = w
	}
	return ren
}

// holds reports whether a variable of a function or monitor holds a value containing leaf.
func (s *State) holds(leaf string) bool {
	for _, a := range s.Stack {
		for _, v := range a.Env {
			if v != nil && v.leafs[leaf] {
				return true
			}
		}
		for i := range a.Defers {
			c := &a.Defers[i].call
			for _, l := range [][]*Val{{c.recv, c.fv}, c.args, c.bindings} {
				for _, v := range l {
					if v != nil && v.leafs[leaf] {
						return true
					}
				}
			}
		}
	}
	for _, v := range s.M {
		if v != nil && v.leafs[leaf] {
			return true
		}
	}
	return false
}

// sets of values among the monitor variables
func (s *State) SetAdd(name string, v *Val)      { s.M[name+"#"+v.Key] = v }
func (s *State) SetHas(name string, v *Val) bool { _, ok := s.M[name+"#"+v.Key]; return ok }
func (s *State) SetDel(name string, v *Val)      { delete(s.M, name+"#"+v.Key) }
func (s *State) SetVals(name string) (vs []*Val) {
	for _, k := range s.Prefix(name + "#") {
		vs = append(vs, s.M[k])
	}
	return
}

func renAll(vs []*Val, f func(*Val) *Val) []*Val {
	out := make([]*Val, len(vs))
	for i, v := range vs {
		out[i] = f(v)
	}
	return out
}

func (s *State) each(f func(*Val)) {
	for _, a := range s.Stack {
		for _, v := range a.Env {
			f(v)
		}
		for _, d := range a.Defers {
			f(d.call.recv)
			f(d.call.fv)
			for _, v := range d.call.args {
				f(v)
			}
			for _, v := range d.call.bindings {
				f(v)
			}
		}
	}
	for _, e := range s.Mem {
		f(e.addr)
		f(e.val)
	}
	for _, x := range s.Facts {
		f(x.a)
		f(x.b)
	}
	for _, v := range s.M {
		f(v)
	}
}
