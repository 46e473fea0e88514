package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- values ---------------------------------------------------------------------

// res returns the i-th result of the opaque call e.
func (s *State) res(e *Event, i int) *Val { return s.resOf(e.Res, i) }

func (s *State) resOf(call *Val, i int) *Val {
	if call == nil {
		return nil
	}
	if call.Op == "tuple" {
		return call.Args[i]
	}
	if t, ok := call.Typ.(*types.Tuple); ok {
		if i >= t.Len() {
			return nil
		}
		return s.run.in.mk(Val{Op: "ext", Args: []*Val{call}, Idx: i, Typ: t.At(i).Type()})
	}
	if i == 0 {
		return call
	}
	return nil
}

// fieldAddrOf returns the address of field f of the struct ptr points to.
func (s *State) fieldAddrOf(ptr *Val, f *types.Var) *Val {
	st, ok := deref(ptr.Typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return s.run.in.mk(Val{Op: "field&", Args: []*Val{ptr}, Idx: i, Field: f, Typ: types.NewPointer(f.Type())})
		}
	}
	return nil
}

// fieldNow returns what field f of the struct ptr points to is known to hold, or nil.
func (s *State) fieldNow(ptr *Val, f *types.Var) *Val {
	if ptr == nil || f == nil || ptr.Typ == nil {
		return nil
	}
	if ptr.Op == "struct" {
		st := ptr.Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == f {
				return ptr.Args[i]
			}
		}
		return nil
	}
	a := s.fieldAddrOf(ptr, f)
	if a == nil {
		return nil
	}
	if e, ok := s.Mem[a.Key]; ok {
		return e.val
	}
	if e, ok := s.Mem[ptr.Key]; ok && e.val.Op == "struct" {
		return s.fieldNow(e.val, f)
	}
	return nil
}

// fieldOfType finds the only field of struct type t with type ft.
func fieldOfType(t, ft types.Type) *types.Var {
	if t == nil || ft == nil {
		return nil
	}
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var f *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), ft) {
			if f != nil {
				return nil
			}
			f = st.Field(i)
		}
	}
	return f
}

var bytesType = types.NewSlice(types.Typ[types.Byte])

// packet fields of engine.Packet, by their types
func (p *Prog) pktType() *types.Var {
	return fieldOfType(p.engineType("Packet"), p.engineType("PacketType"))
}
func (p *Prog) pktKind() *types.Var {
	return fieldOfType(p.engineType("Packet"), p.engineType("MessageType"))
}
func (p *Prog) pktData() *types.Var { return fieldOfType(p.engineType("Packet"), bytesType) }

// constOfPkg returns the value of an exported constant.
func pkgConst(pkg *types.Package, name string) constant.Value {
	c, ok := pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	return c.Val()
}

func (p *Prog) engineConst(name string) int64 {
	v := pkgConst(p.Engine, name)
	if v == nil {
		panic("constant engine." + name + " not found")
	}
	n, _ := constant.Int64Val(constant.ToInt(v))
	return n
}

func (p *Prog) rootConst(name string) int64 {
	v := pkgConst(p.Root, name)
	if v == nil {
		panic("constant " + name + " not found")
	}
	n, _ := constant.Int64Val(constant.ToInt(v))
	return n
}

func (p *Prog) engineStr(name string) string {
	v := pkgConst(p.Engine, name)
	if v == nil || v.Kind() != constant.String {
		panic("constant engine." + name + " not found")
	}
	return constant.StringVal(v)
}

// gval is the value of the package variable name, e.g. an error.
func (s *State) gval(pkg *types.Package, name string) *Val {
	g, ok := s.run.P.ssaOf[pkg].Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return s.run.in.mk(Val{Op: "gval", Glob: g, Typ: deref(g.Type())})
}

// isGval reports whether v is known to be (not to be) the package variable name.
func (s *State) isGval(v *Val, pkg *types.Package, name string) (is, known bool) {
	g := s.gval(pkg, name)
	if g == nil || v == nil {
		return false, false
	}
	return s.Eq(v, g)
}

// num returns the integer v is known to be.
func (s *State) num(v *Val) (int64, bool) {
	if v == nil {
		return 0, false
	}
	if c := s.constOf(v); c != nil {
		return c.int64()
	}
	if lo, hi := s.interval(v, 0); lo == hi {
		return lo, true
	}
	return 0, false
}

// strOf returns the string v is known to be.
func (s *State) strOf(v *Val) (string, bool) {
	if v == nil {
		return "", false
	}
	if c := s.constOf(v); c != nil {
		return c.str()
	}
	if v.Op == "conv" {
		return s.strOf(v.Args[0])
	}
	return "", false
}

// add returns the term v + n.
func (s *State) add(v *Val, n int64) *Val {
	if v.fdepth >= s.run.maxF() {
		return s.run.in.mk(Val{Op: "deep", Typ: v.Typ})
	}
	op := token.ADD
	if n < 0 {
		op, n = token.SUB, -n
	}
	return s.run.binop(s, nil, op, v, s.run.constVal(constant.MakeInt64(n), v.Typ), v.Typ)
}

// isCall reports whether v is the result of a call of path.name (or of method name on a type of package path).
func isCallOf(v *Val, path string, names ...string) bool {
	if v == nil || v.Op != "call" || v.Meth == nil || v.Meth.Pkg() == nil || v.Meth.Pkg().Path() != path {
		return false
	}
	for _, n := range names {
		if v.Meth.Name() == n {
			return true
		}
	}
	return false
}

// appended lists the values e (a call of append) appends; all is false if a whole slice is appended (returned as spread).
func (s *State) appended(e *Event) (base *Val, elems []*Val, spread *Val) {
	base = e.Args[0]
	if len(e.Args) < 2 {
		return
	}
	x := e.Args[1]
	if x.Op == "slice" && x.Args[0].Op == "alloc" && isVarargs(x.Args[0]) {
		at := deref(x.Args[0].Typ).Underlying().(*types.Array)
		for i := int64(0); i < at.Len(); i++ {
			elems = append(elems, s.element(x.Args[0], i, at.Elem()))
		}
		return
	}
	return base, nil, x
}

// element returns what element i of array arr is known to hold, or nil.
func (s *State) element(arr *Val, i int64, t types.Type) *Val {
	a := s.run.in.mk(Val{Op: "index&", Args: []*Val{arr, s.run.intVal(i)}, Typ: types.NewPointer(t)})
	if en, ok := s.Mem[a.Key]; ok {
		return en.val
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	// structs are kept field by field
	v := Val{Op: "struct", Typ: t}
	for j := 0; j < st.NumFields(); j++ {
		f := s.run.in.mk(Val{Op: "field&", Args: []*Val{a}, Idx: j, Field: st.Field(j), Typ: types.NewPointer(st.Field(j).Type())})
		en, ok := s.Mem[f.Key]
		if !ok {
			return nil
		}
		v.Args = append(v.Args, en.val)
	}
	return s.run.in.mk(v)
}

// isAppend reports whether e calls append.
func isAppend(e *Event) bool { return e.Kind == EvBuiltin && e.Builtin == "append" }

// chanRecv reports whether e receives from a channel, and what.
func chanRecv(e *Event) (ch, v *Val, ok bool) {
	if e.Kind == EvRecv {
		return e.Chan, e.Val, true
	}
	if e.Kind == EvSelect && e.Chosen >= 0 && !e.Cases[e.Chosen].Send {
		return e.Cases[e.Chosen].Chan, e.Val, true
	}
	return nil, nil, false
}

// chanSend reports whether e sends on a channel, and what.
func chanSend(e *Event) (ch, v *Val, ok bool) {
	if e.Kind == EvSend {
		return e.Chan, e.Val, true
	}
	if e.Kind == EvSelect && e.Chosen >= 0 && e.Cases[e.Chosen].Send {
		return e.Cases[e.Chosen].Chan, e.Cases[e.Chosen].Val, true
	}
	return nil, nil, false
}

// elemIs reports whether ch is a channel of pointers to (or values of) the named type.
func chanOf(ch *Val, t types.Type) bool {
	if ch == nil || ch.Typ == nil || t == nil {
		return false
	}
	c, ok := ch.Typ.Underlying().(*types.Chan)
	return ok && types.Identical(deref(c.Elem()), t)
}

// chanField names the struct field channel v was loaded from, or "".
func (s *State) chanField(v *Val) *types.Var {
	f, _ := fieldLoad(v)
	if f != nil {
		return f
	}
	for _, en := range s.Mem { // the channel just made and stored
		if en.val == v && en.addr.Op == "field&" {
			return en.addr.Field
		}
	}
	return nil
}

// deferExit reports whether the root function ends normally at e.
func rootExit(e *Event) bool { return e.Kind == EvExit && !e.Panic }

// --- walking a sequence ------------------------------------------------------------

// cursor follows a loop over the elements of a slice: it knows the index that is next, across loop iterations.
// In the state it keeps name.seq, name.last (index visited last) and name.phi (a loop variable and an offset).
type cursor struct{ name string }

func (c cursor) start(s *State, seq *Val) {
	s.Set(c.name+".seq", seq)
	s.Set(c.name+".next", s.run.intVal(0))
	s.Del(c.name + ".phi")
	s.Del(c.name + ".all")
	s.Del(c.name + ".base")
}

func (c cursor) active(s *State) bool { return s.Get(c.name+".seq") != nil }

func (c cursor) stop(s *State) {
	s.Del(c.name + ".seq")
	s.Del(c.name + ".next")
	s.Del(c.name + ".phi")
	s.Del(c.name + ".base")
}

// base returns the slice indices refer to: the sequence, or the loop variable holding what is left of it.
func (c cursor) base(s *State) *Val {
	if b := s.Get(c.name + ".base"); b != nil {
		if b.Op == "const" {
			return c.phiVal(s, b)
		}
		return b
	}
	return s.Get(c.name + ".seq")
}

// next returns the index to be visited next.
func (c cursor) next(s *State) *Val {
	if p := s.Get(c.name + ".phi"); p != nil {
		return c.phiVal(s, p)
	}
	return s.Get(c.name + ".next")
}

// phiVal rebuilds the current value of a loop variable plus an offset from its encoding.
func (c cursor) phiVal(s *State, enc *Val) *Val {
	str, _ := enc.str()
	i := strings.LastIndexByte(str, '+')
	off, _ := strconv.ParseInt(str[i+1:], 10, 64)
	v := s.run.phis[str[:i]]
	if off != 0 {
		return s.add(v, off)
	}
	return v
}

// index returns the index of element v (an element, or its address) in the sequence, or nil.
func (c cursor) index(s *State, v *Val) *Val {
	v = v.strip()
	if v == nil {
		return nil
	}
	if a := loadedFrom(v); a != nil {
		v = a
	}
	if v.Op == "index&" || v.Op == "index" {
		b := v.Args[0]
		if b == c.base(s) || sliceBase(b) == c.base(s) {
			return v.Args[1]
		}
	}
	return nil
}

// loadedFrom returns the address v was loaded from: at once, or field by field.
func loadedFrom(v *Val) *Val {
	if v == nil || len(v.Args) == 0 || v.Args[0] == nil {
		return nil
	}
	switch v.Op {
	case "load":
		return v.Args[0]
	case "struct":
		if a := loadedFrom(v.Args[0]); a != nil && a.Op == "field&" && a.Idx == 0 && types.Identical(deref(a.Args[0].Typ), v.Typ) {
			return a.Args[0]
		}
	}
	return nil
}

func sliceBase(v *Val) *Val {
	if v.Op == "slice" && (v.Args[1] == nil || isZero(v.Args[1])) && v.Args[0] != nil {
		return v.Args[0]
	}
	return v
}

// visit reports whether v is the element that is next, and if so moves on.
func (c cursor) visit(s *State, v *Val) bool {
	i := c.index(s, v)
	if i == nil {
		return false
	}
	n := c.next(s)
	if eq, k := s.Eq(i, n); i != n && !(eq && k) {
		return false
	}
	s.Set(c.name+".next", s.add(i, 1))
	s.Del(c.name + ".phi")
	return true
}

// visitAll visits all elements at once, if none has been visited yet.
func (c cursor) visitAll(s *State) bool {
	if n, ok := s.num(c.next(s)); !ok || n != 0 {
		return false
	}
	s.SetFlag(c.name + ".all")
	return true
}

// edge must see every EvEdge event.
func (c cursor) edge(s *State, e *Event) {
	if !c.active(s) {
		return
	}
	// the loop variables are set by now
	if p := s.Get(c.name + ".phi"); p != nil {
		s.Set(c.name+".next", c.phiVal(s, p))
		s.Del(c.name + ".phi")
	}
	if b := s.Get(c.name + ".base"); b != nil && b.Op == "const" {
		s.Set(c.name+".base", c.phiVal(s, b))
	}
	if e.Kind != EvEdge {
		return
	}
	if c.done(s) { // it stays so, and later loops have nothing to do with it
		s.SetFlag(c.name + ".all")
		return
	}
	if !e.To.Dominates(e.From) {
		return
	}
	next := c.next(s)
	base := c.base(s)
	pi := -1
	for i, b := range e.To.Preds {
		if b == e.From {
			pi = i
		}
	}
	fr := s.top().F
	for _, in := range e.To.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := s.run.val(s, ph.Edges[pi])
		if v == nil {
			continue
		}
		enc := func(off int64) *Val {
			l := fmt.Sprintf("phi%d@%d", s.run.P.instrNo[ph], fr.ID)
			s.run.phis[l] = s.run.in.mk(Val{Op: "phi", Leaf: l, Typ: ph.Type(), Instr: ph})
			return s.run.strVal(fmt.Sprintf("%s+%d", l, off))
		}
		if isIntVal(v) && next != nil && !isZero(next) {
			switch {
			case v == next:
				s.Set(c.name+".phi", enc(0))
				return
			case s.add(v, 1) == next:
				s.Set(c.name+".phi", enc(1))
				return
			}
		}
		// the slice itself, which the loop shortens elsewhere
		if v == base && widened(ph.Type()) && s.top().Env[ph] != v && !isIntVal(v) {
			s.Set(c.name+".base", enc(0))
			return
		}
		// the rest of the slice
		if v.Op == "slice" && v.Args[0] == base && v.Args[1] == next && v.Args[2] == nil {
			s.Set(c.name+".base", enc(0))
			s.Set(c.name+".next", s.run.intVal(0))
			s.Del(c.name + ".phi")
			return
		}
	}
}

// done reports whether all elements have been visited.
func (c cursor) done(s *State) bool {
	b, n := c.base(s), c.next(s)
	if s.Flag(c.name + ".all") {
		return true
	}
	if b == nil || n == nil {
		return false
	}
	if b.isNil() || s.IsNil(b) {
		return true
	}
	if b.fdepth >= s.run.maxF() {
		return false
	}
	l := s.run.lenOf(s, nil, "len", b, types.Typ[types.Int])
	if s.Le(l, n) {
		return true
	}
	return false
}

// acc follows a slice that is built by appending, across loop iterations: in the state it keeps its current value.
type acc struct{ name string }

func (a acc) start(s *State, v *Val) { s.Set(a.name, v) }

// is reports whether v is the slice followed.
func (a acc) is(s *State, v *Val) bool { return v != nil && s.Get(a.name) == v }

// edge must see every EvEdge event, and at least one event more after it.
func (a acc) edge(s *State, e *Event) {
	cur := s.Get(a.name)
	if cur == nil {
		return
	}
	if str, ok := cur.str(); ok {
		cur = s.run.phis[str]
		s.Set(a.name, cur)
	}
	if e.Kind != EvEdge || !e.To.Dominates(e.From) {
		return
	}
	pi := -1
	for i, b := range e.To.Preds {
		if b == e.From {
			pi = i
		}
	}
	for _, in := range e.To.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok && s.run.val(s, ph.Edges[pi]) == cur && !cur.isNil() {
			l := fmt.Sprintf("phi%d@%d", s.run.P.instrNo[ph], s.top().F.ID)
			s.run.phis[l] = s.run.in.mk(Val{Op: "phi", Leaf: l, Typ: ph.Type(), Instr: ph})
			s.Set(a.name, s.run.strVal(l))
			return
		}
	}
}

func typeStr(v *Val) string {
	if v == nil || v.Typ == nil {
		return "?"
	}
	return strings.TrimPrefix(v.Typ.String(), "*")
}

// chanID identifies channel v by the field it is kept in, directly or in an atomic.Value.
func (s *State) chanID(v *Val) *types.Var {
	x := v.strip()
	if x == nil {
		return nil
	}
	if x.Op == "load" && len(x.Args) > 0 && x.Args[0].Op == "field&" {
		return x.Args[0].Field
	}
	if x.Op == "field" {
		return x.Field
	}
	if isCallOf(x, "sync/atomic", "Load", "Swap") && len(x.Args) > 0 && x.Args[0].Op == "field&" {
		return x.Args[0].Field
	}
	if x.Op == "make" {
		for _, k := range sortedKeys(s.Mem) {
			en := s.Mem[k]
			if en.val.strip() == x && en.addr.Op == "field&" {
				return en.addr.Field
			}
		}
		if mc, ok := x.Instr.(*ssa.MakeChan); ok {
			return keptIn(mc, 0)
		}
	}
	return nil
}

// keptIn finds the struct field value v is stored in by the function that makes it.
func keptIn(v ssa.Value, depth int) *types.Var {
	if depth > 4 || v.Referrers() == nil {
		return nil
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Val != v {
				continue
			}
			switch a := in.Addr.(type) {
			case *ssa.FieldAddr:
				return fieldVar(deref(a.X.Type()), a.Field)
			case *ssa.Alloc:
				for _, u := range *a.Referrers() {
					if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
						if f := keptIn(l, depth+1); f != nil {
							return f
						}
					}
				}
			}
		case *ssa.ChangeType:
			if f := keptIn(in, depth+1); f != nil {
				return f
			}
		case *ssa.Phi:
			if f := keptIn(in, depth+1); f != nil {
				return f
			}
		}
	}
	return nil
}

// probe explores functions for facts a rule needs beforehand; nothing is reported.
func (c *Check) probe(cfg *Config, fns ...*ssa.Function) {
	sub := c.quiet()
	var rs []*ssa.Function
	for _, f := range fns {
		if f != nil && f.Blocks != nil {
			rs = append(rs, f)
		}
	}
	sub.explore(cfg, rs, nil)
	c.failed = append(c.failed, sub.failed...)
}

func (c *Check) quiet() *Check {
	return &Check{ID: c.ID, P: c.P, Tier: c.Tier, Vio: newViolations(), Counts: map[string]int{}, Samples: map[string][]string{},
		Fns: map[*ssa.Function]bool{}, MaxState: c.MaxState, cache: map[string]interface{}{}}
}

// closedIn returns the channels (by field) that fn closes on some path.
func (c *Check) closedIn(fn *ssa.Function) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	if fn == nil {
		return out
	}
	cfg := &Config{Name: "closed", OnEvent: func(s *State, e *Event) {
		if e.Kind == EvClose {
			if f := s.chanID(e.Chan); f != nil {
				out[f] = true
			}
		}
	}}
	c.probe(cfg, fn)
	return out
}

// freshness of deadlines: the results of time.Now since the last call of spend are "now".
func trackNow(s *State, e *Event) {
	if e.Kind == EvCall && pkgCall(e, "time", "Now") && e.Res != nil {
		s.SetAdd("now", e.Res)
	}
}

func spendNow(s *State) { s.DelPrefix("now#") }

func freshDeadline(s *State, v *Val) bool {
	return v != nil && v.find(func(x *Val) bool { return s.SetHas("now", x) }) != nil
}

// deadlineDur returns d of a deadline time.Now().Add(d).
func deadlineDur(v *Val) *Val {
	if isCallOf(v, "time", "Add") && len(v.Args) == 2 {
		return v.Args[1]
	}
	return nil
}

// socketType is engine.Socket.
func (p *Prog) socketType() *types.Named {
	n, _ := p.engineType("Socket").(*types.Named)
	return n
}

// isSocketField reports whether addr is a field of an engine.Socket of type t.
func (p *Prog) isSocketField(addr *Val, t types.Type) bool {
	return addr != nil && addr.Op == "field&" && types.Identical(addr.Field.Type(), t) && types.Identical(deref(addr.Args[0].Typ), p.socketType())
}

// connFieldStore recognises the replacement of a session's transport.
func (p *Prog) connFieldAddr(addr *Val) bool {
	return addr != nil && addr.Op == "field&" && p.isConnField(addr.Field)
}

// firedEvent recognises the lookup of an event's handler and returns the event.
func (p *Prog) firedEvent(s *State, e *Event) (string, bool) {
	if e.Kind != EvLookup || e.Args[0].Typ == nil {
		return "", false
	}
	m, ok := e.Args[0].Typ.Underlying().(*types.Map)
	if !ok || !types.Identical(m.Elem(), p.engineType("Callable")) {
		return "", false
	}
	str, ok := s.strOf(e.Args[1])
	if !ok {
		return "?", true
	}
	return str, true
}

// handlerCall recognises the call of an event's handler.
func (p *Prog) handlerCall(e *Event) bool {
	return e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("Callable"), "Call")
}

// notOfType reports whether v is known not to hold the type it was asserted to hold.
func (s *State) notOfType(v *Val) bool {
	for _, f := range s.Facts {
		if f.op == "true" && !f.val && f.a.Op == "field" && f.a.Args[0].Op == "assertok" && f.a.Args[0].Args[0] == v {
			return true
		}
	}
	return false
}

func constInt(n int64) constant.Value { return constant.MakeInt64(n) }

// neverClosed reports whether f is an unexported field holding a channel that nothing closes.
func (p *Prog) neverClosed(f *types.Var) bool {
	if f == nil || f.Exported() {
		return false
	}
	ch, ok := f.Type().Underlying().(*types.Chan)
	if !ok {
		return false
	}
	if r, ok := p.unclosed[f]; ok {
		return r
	}
	fieldOf := func(v ssa.Value) *types.Var {
		switch v := v.(type) {
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
				return deref(a.X.Type()).Underlying().(*types.Struct).Field(a.Field)
			}
		case *ssa.Field:
			return v.X.Type().Underlying().(*types.Struct).Field(v.Field)
		}
		return nil
	}
	r := true
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						v := ci.Common().Args[0]
						if g := fieldOf(v); g == f || g == nil && types.Identical(v.Type().Underlying().(*types.Chan).Elem(), ch.Elem()) {
							r = false
						}
						continue
					}
				}
				for _, o := range in.Operands(nil) { // handed to somebody else, who may close it
					if *o == nil || fieldOf(*o) != f {
						continue
					}
					if ok {
						if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
							continue
						}
					}
					switch in := in.(type) {
					case *ssa.Send, *ssa.Select, *ssa.UnOp, *ssa.BinOp, *ssa.DebugRef:
					case *ssa.ChangeType:
						if in.Type().Underlying().(*types.Chan).Dir() != types.RecvOnly {
							r = false
						}
					default:
						r = false
					}
				}
			}
		}
	}
	if p.unclosed == nil {
		p.unclosed = map[*types.Var]bool{}
	}
	p.unclosed[f] = r
	return r
}
