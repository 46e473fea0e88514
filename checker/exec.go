package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind int

const (
	EvCall EvKind = iota // a call, before it is executed; Res is set if it is not inlined
	EvRet                // return of an inlined call
	EvGo
	EvDefer
	EvStore
	EvLoad
	EvMapUpdate
	EvMapDelete
	EvLookup
	EvSend
	EvRecv
	EvSelect
	EvClose
	EvExit
	EvPanic
	EvAssume
	EvMake
	EvIndex
	EvSlice
	EvAssert
	EvEdge
	EvAlloc
	EvBuiltin
	EvNilDeref
	EvNext
	EvArith
)

// Event is what monitors see of an execution.
type Event struct {
	Kind    EvKind
	Instr   ssa.Instruction
	Frame   *Frame
	Fn      *ssa.Function // callee, if known
	Meth    *types.Func   // declared callee: method or function
	Sum     *Val          // EvStore: the value stored, even where Val stands for any a loop may store
	Builtin string
	Recv    *Val // receiver of a method call
	FnVal   *Val // called function value, if unknown
	Args    []*Val
	Res     *Val
	Inlined bool
	IsDefer bool
	Addr    *Val // store, load
	Val     *Val
	Chan    *Val
	Cond    bool // EvAssume
	Cases   []selCase
	Chosen  int // EvSelect: case taken, -1 for default
	Block   bool
	Results []*Val // EvExit
	Panic   bool
	From    *ssa.BasicBlock
	To      *ssa.BasicBlock
}

type selCase struct {
	Send bool
	Chan *Val
	Val  *Val
}

func (e *Event) Pos() token.Pos {
	if e.Instr != nil {
		return instrPos(e.Instr)
	}
	if e.Frame != nil {
		return e.Frame.Fn.Pos()
	}
	return token.NoPos
}

// instrPos finds a source position for an instruction without one.
func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	if b := i.Block(); b != nil {
		seen := false
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			if b.Instrs[k] == i {
				seen = true
			}
			if seen && b.Instrs[k].Pos().IsValid() {
				return b.Instrs[k].Pos()
			}
		}
		for _, j := range b.Instrs {
			if j.Pos().IsValid() {
				return j.Pos()
			}
		}
	}
	if f := i.Parent(); f != nil {
		return f.Pos()
	}
	return token.NoPos
}

// Name is the name of the function or method called.
func (e *Event) Name() string {
	if e.Meth != nil {
		return e.Meth.Name()
	}
	if e.Fn != nil {
		return e.Fn.Name()
	}
	return e.Builtin
}

// Config parametrises a run.
type Config struct {
	Name      string
	Opaque    func(fn *ssa.Function, meth *types.Func, recv types.Type) bool // calls not to be inlined
	OnEvent   func(s *State, e *Event)
	NoHavoc   bool
	MaxStates int
	MaxDepth  int
	Depth     int                               // provenance kept of values; 0 for the default
	Kinds     bool                              // remember what a reflect.Kind is not when functions return
	Keep      func(addr *Val) bool              // optional: memory no user code and no other goroutine changes
	Bounds    bool                              // loop variables keep the lengths they do not exceed
	Fork      func(s *State, e *Event) []*State // optional: replaces the state after an opaque call by several
}

// Spawn is a goroutine started or a function value that escapes during a run.
type Spawn struct {
	Fn       *ssa.Function
	Bindings []*Val
	Mem      map[string]memEnt
	Instr    ssa.Instruction
	Frame    *Frame
	Kind     string // "go" or "escape"
	Ctx      string // escape: how
	Call     callTarget
	Parent   *Spawn
	Origin   *ssa.Function // entry point it was found from
	owns     map[*Val]bool // objects allocated before it was made
}

// Run explores all abstract paths of one root.
type Run struct {
	P          *Prog
	in         *interner
	cfg        *Config
	frames     map[string]*Frame
	Spawns     map[string]*Spawn
	States     int
	Calls      map[*ssa.Function]bool // functions inlined
	Instrs     map[ssa.Instruction]bool
	nilVal     *Val
	Vio        *Violations
	Root       string
	spawnOrder []string
	CurSpawn   *Spawn // the goroutine or escaping function being explored
	Over       string // budget exceeded
	nonneg     map[*ssa.Phi]int
	phis       map[string]*Val
	renamed    func(*Val) *Val // renaming done by the last call of leaf
}

type Violation struct {
	Rule  string
	Pos   token.Pos
	Msg   string
	Root  string
	Trace []string
}

type Violations struct {
	m     map[string]*Violation
	order []string
}

func (r *Run) mkNil() *Val { return r.nilVal }

func (r *Run) constVal(c constant.Value, t types.Type) *Val {
	return r.in.mk(Val{Op: "const", C: c, Typ: t})
}
func (r *Run) intVal(n int64) *Val { return r.constVal(constant.MakeInt64(n), types.Typ[types.Int]) }
func (r *Run) boolVal(b bool) *Val {
	return r.constVal(constant.MakeBool(b), types.Typ[types.Bool])
}
func (r *Run) strVal(s string) *Val {
	return r.constVal(constant.MakeString(s), types.Typ[types.String])
}

func (r *Run) zero(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return r.constVal(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return r.constVal(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return r.constVal(constant.MakeInt64(0), t)
		case u.Info()&types.IsNumeric != 0:
			return r.constVal(constant.MakeFloat64(0), t)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return r.nilVal
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return r.nilVal
	case *types.Struct:
		if u.NumFields() <= 16 {
			v := Val{Op: "struct", Typ: t}
			for i := 0; i < u.NumFields(); i++ {
				z := r.zero(u.Field(i).Type())
				v.Args = append(v.Args, z)
			}
			return r.in.mk(v)
		}
	}
	return r.in.mk(Val{Op: "zero", Typ: t})
}

func (r *Run) frame(parent *Frame, site ssa.Instruction, fn *ssa.Function) *Frame {
	key := fmt.Sprintf("%p/%p/%p", parent, site, fn)
	if f, ok := r.frames[key]; ok {
		return f
	}
	f := &Frame{ID: len(r.frames), Fn: fn, Site: site, Parent: parent}
	if parent != nil {
		f.Depth = parent.Depth + 1
		f.InLoop = parent.InLoop || site != nil && r.P.inLoop[site.Block()]
	}
	r.frames[key] = f
	r.P.liveness(fn)
	return f
}

func newRun(p *Prog, cfg *Config, vio *Violations) *Run {
	r := &Run{P: p, in: &interner{m: map[string]*Val{}}, cfg: cfg, frames: map[string]*Frame{}, Spawns: map[string]*Spawn{},
		Calls: map[*ssa.Function]bool{}, Instrs: map[ssa.Instruction]bool{}, Vio: vio, nonneg: map[*ssa.Phi]int{}, phis: map[string]*Val{}}
	r.nilVal = r.in.mk(Val{Op: "nil"})
	return r
}

func (r *Run) leaf(s *State, in ssa.Instruction, sub string, op string, t types.Type, args ...*Val) *Val {
	a := s.top()
	l := fmt.Sprintf("%s%d@%d%s", op, r.P.instrNo[in], a.F.ID, sub)
	if r.P.inLoop[in.Block()] || a.F.InLoop {
		// the arguments are renamed too
		r.renamed = s.age(l)
		for i, x := range args {
			args[i] = r.renamed(x)
		}
	} else {
		r.renamed = nil
	}
	cut := make([]*Val, len(args))
	max := r.maxValDepth()
	if op == "load" || op == "lookup" || op == "recv" || op == "selrecv" {
		max += 6
	}
	for i, x := range args {
		if x != nil && x.depth >= max {
			x = r.in.mk(Val{Op: "deep", Typ: x.Typ})
		}
		cut[i] = x
	}
	v := Val{Op: op, Leaf: l, Typ: t, Instr: in, Args: cut}
	return r.in.mk(v)
}

func (r *Run) maxValDepth() int {
	if r.cfg.Depth > 0 {
		return r.cfg.Depth
	}
	return maxDepth
}

func (r *Run) functional(s *State, in ssa.Instruction, v Val) *Val {
	for _, a := range v.Args {
		if a != nil && a.fdepth >= r.maxF() {
			return r.leaf(s, in, "", "sym", v.Typ)
		}
	}
	return r.in.mk(v)
}

var debugRoot = os.Getenv("DEBUGROOT")
var dbg = map[string][]string{}

func debugDump() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, v := range dbg {
		l = append(l, kv{k, len(v)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := 0; i < len(l) && i < 5; i++ {
		fmt.Println("=====", l[i].k, l[i].n)
		vs := dbg[l[i].k]
		for j := 0; j < 30 && j < len(vs); j++ {
			fmt.Println("-----\n" + vs[j])
		}
	}
}

// Explore runs root fn. args and bindings may be nil (unknown parameters); mem is the initial memory.
func (r *Run) Explore(name string, fn *ssa.Function, args, bindings []*Val, mem map[string]memEnt, init func(*State)) {
	r.Root = name
	max := r.cfg.MaxStates
	if max == 0 {
		max = 400000
	}
	s := &State{Mem: map[string]memEnt{}, Facts: map[string]fact{}, M: map[string]*Val{}, run: r}
	f := r.frame(nil, nil, fn)
	act := &Act{F: f, Env: map[ssa.Value]*Val{}, Block: fn.Blocks[0]}
	for i, p := range fn.Params {
		if act.Env[p] = r.in.mk(Val{Op: "param", Leaf: paramLeaf(fn, i), Typ: p.Type(), Idx: i}); len(args) == len(fn.Params) {
			act.Env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if bindings != nil {
			act.Env[fv] = bindings[i]
		} else {
			act.Env[fv] = r.in.mk(Val{Op: "freevar", Fn: fn, Leaf: fmt.Sprintf("free%d@%s", i, fn.String()), Typ: fv.Type(), Idx: i})
		}
	}
	for k, v := range mem {
		s.Mem[k] = v
	}
	s.Stack = []*Act{act}
	r.Calls[fn] = true
	if init != nil {
		init(s)
	}
	seen := map[string]bool{}
	work := []*State{s}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.top().Idx == 0 || true {
			st.gc()
			k := st.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			if debugRoot != "" && strings.Contains(name, debugRoot) {
				a := st.top()
				dbg[fmt.Sprintf("%s:%d:%d", chain(a.F), a.Block.Index, a.Idx)] = append(dbg[fmt.Sprintf("%s:%d:%d", chain(a.F), a.Block.Index, a.Idx)], k)
			}
		}
		r.States++
		if r.States > max {
			r.Over = fmt.Sprintf("more than %d abstract states", max)
			return
		}
		work = append(work, r.step(st)...)
	}
}

func paramLeaf(fn *ssa.Function, i int) string { return fmt.Sprintf("param%d@%s", i, fn.String()) }

// param returns the i-th parameter value of the root.
func (s *State) param(i int) *Val {
	fn := s.Stack[0].F.Fn
	return s.run.in.mk(Val{Op: "param", Leaf: paramLeaf(fn, i), Typ: fn.Params[i].Type(), Idx: i})
}

func (r *Run) emit(s *State, e *Event) {
	if e.Frame == nil && len(s.Stack) > 0 {
		e.Frame = s.top().F
	}
	if r.cfg.OnEvent != nil {
		r.cfg.OnEvent(s, e)
	}
}

func (r *Run) val(s *State, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return r.zero(v.Type())
		}
		return r.constVal(v.Value, v.Type())
	case *ssa.Function:
		return r.in.mk(Val{Op: "fn", Fn: v, Typ: v.Type()})
	case *ssa.Global:
		return r.in.mk(Val{Op: "global", Glob: v, Typ: v.Type()})
	case *ssa.Builtin:
		return nil
	}
	if x, ok := s.top().Env[v]; ok {
		return x
	}
	// should not happen; be safe
	return r.in.mk(Val{Op: "sym", Leaf: "lost:" + v.Name() + "@" + fmt.Sprint(s.top().F.ID), Typ: v.Type()})
}

// step executes s until it forks, ends a block, or enters or leaves a function.
func (r *Run) step(s *State) []*State {
	for {
		if len(s.Stack) == 0 {
			return nil
		}
		a := s.top()
		if a.unwind {
			return r.unwind(s)
		}
		if a.Idx >= len(a.Block.Instrs) {
			return nil
		}
		in := a.Block.Instrs[a.Idx]
		r.Instrs[in] = true
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			a.Idx++
		case *ssa.Jump:
			r.edge(s, a.Block.Succs[0])
			return []*State{s}
		case *ssa.If:
			return r.branch(s, in)
		case *ssa.Return:
			return r.ret(s, in)
		case *ssa.Panic:
			r.emit(s, &Event{Kind: EvPanic, Instr: in})
			s.Panic = true
			a.unwind = true
		case *ssa.Call:
			a.Idx++
			return r.call(s, in, r.target(s, &in.Call), in, false)
		case *ssa.Defer:
			t := r.target(s, &in.Call)
			if len(a.Defers) < 16 {
				a.Defers = append(a.Defers, deferred{in, t})
			} else {
				r.Over = "too many deferred calls"
			}
			r.emit(s, r.callEvent(EvDefer, in, t))
			a.Idx++
		case *ssa.RunDefers:
			if n := len(a.Defers); n > 0 {
				d := a.Defers[n-1]
				a.Defers = a.Defers[:n-1]
				return r.call(s, d.instr, d.call, nil, true)
			}
			a.Idx++
		case *ssa.Go:
			t := r.target(s, &in.Call)
			e := r.callEvent(EvGo, in, t)
			r.emit(s, e)
			r.spawn(s, in, t, "go", "")
			a.Idx++
		case *ssa.Select:
			a.Idx++
			return r.doSelect(s, in)
		default:
			a.Idx++
			if out := r.simple(s, in); out != nil {
				return out
			}
		}
	}
}

func (r *Run) edge(s *State, to *ssa.BasicBlock) {
	a := s.top()
	from := a.Block
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	back := to.Dominates(from)
	r.emit(s, &Event{Kind: EvEdge, From: from, To: to, Instr: from.Instrs[len(from.Instrs)-1]})
	type asg struct {
		p *ssa.Phi
		v *Val
	}
	var as []asg
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{p, r.val(s, p.Edges[pi])})
	}
	a.Block, a.Idx = to, 0
	live := r.P.liveIn[to]
	for k := range a.Env {
		if !live[k] {
			delete(a.Env, k)
		}
	}
	count := back && r.counted(s, to, func(p *ssa.Phi) *Val {
		for i := range as {
			if as[i].p == p {
				return as[i].v
			}
		}
		return nil
	})
	for i := range as {
		p := as[i].p
		if !live[p] {
			continue
		}
		if back && !count && widened(p.Type()) && !as[i].v.isNil() && !fresh(as[i].v) && !(as[i].v.Op == "phi" && as[i].v.Instr == ssa.Instruction(p) && as[i].v.Age == 0) {
			if same(s.top().Env[p], as[i].v) {
				continue
			}
			low := int64(-1)
			if isIntVal(as[i].v) {
				lo, hi := s.interval(as[i].v, 0)
				nn := isWideInt(p.Type()) && r.nonNegValue(p, map[ssa.Value]bool{}, 0)
				switch {
				case lo > 0 && (hi < maxInf || nn || r.cfg.Bounds && growing(p, p.Edges[pi])):
					low = 1
				case lo >= 0 && hi < maxInf && !nn && isWideInt(p.Type()):
					low = 0
				}
			}
			l := fmt.Sprintf("phi%d@%d", r.P.instrNo[p], a.F.ID)
			var within []*Val // lengths the value does not exceed
			if r.cfg.Bounds && isIntVal(as[i].v) {
				seen := map[*Val]bool{}
				for _, f := range s.Facts {
					if f.op != "lt" {
						continue
					}
					for _, n := range []*Val{f.a, f.b} {
						if n != nil && n.Op == "len" && !seen[n] && !n.leafs[l] && s.Le(as[i].v, n) {
							seen[n] = true
							within = append(within, n)
						}
					}
				}
			}
			var above []*Val // what the value starts from and does not get below
			if old := a.Env[p]; r.cfg.Bounds && old != nil && growing(p, p.Edges[pi]) {
				if old.Op != "phi" || old.Leaf != l || old.Age > 0 {
					above = append(above, old)
				} else {
					for _, k := range sortedKeys(s.Facts) {
						if f := s.Facts[k]; f.op == "lt" && !f.val && f.a == old {
							above = append(above, f.b)
						}
					}
				}
			}
			// leaves of pending assignments are renamed with the state
			pend := func(j int) string { return "pending " + strconv.Itoa(j) }
			for j := i + 1; j < len(as); j++ {
				if as[j].v.leafs[l] {
					s.Set(pend(j), as[j].v)
				}
			}
			s.age(l)
			for j := i + 1; j < len(as); j++ {
				if v := s.Get(pend(j)); v != nil {
					as[j].v = v
					s.Del(pend(j))
				}
			}
			a.Env[p] = r.in.mk(Val{Op: "phi", Leaf: l, Typ: p.Type(), Instr: p})
			if low >= 0 { // the bounds of the values that are possible are kept as far as the sign goes
				s.addFact("lt", a.Env[p], r.constVal(constant.MakeInt64(low), p.Type()), false)
			}
			for _, n := range within {
				s.addFact("lt", n, a.Env[p], false)
			}
			for _, n := range above {
				if !n.leafs[l] {
					s.addFact("lt", a.Env[p], n, false)
				}
			}
			continue
		}
		a.Env[p] = as[i].v
	}
}

const maxUnrolled = 8

// counted reports whether the loop with header to counts with constants up to a small constant: it is followed exactly.
func (r *Run) counted(s *State, to *ssa.BasicBlock, next func(*ssa.Phi) *Val) bool {
	cond, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	x := cmp.X
	if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == to {
		if c, ok := b.Y.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 1 {
			return false
		}
		x = b.X
	}
	p, ok := x.(*ssa.Phi)
	if !ok || p.Block() != to {
		return false
	}
	n, ok := next(p).int64()
	if !ok || n < 0 || n > maxUnrolled {
		return false
	}
	if in, ok := cmp.Y.(ssa.Instruction); ok && in.Block() == to {
		return false
	}
	bound, ok := r.val(s, cmp.Y).int64()
	return ok && bound <= maxUnrolled
}

// growing reports whether v is p or more.
func growing(p *ssa.Phi, v ssa.Value) bool {
	if v == ssa.Value(p) {
		return true
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD || b.X != ssa.Value(p) || !isWideInt(p.Type()) {
		return false
	}
	c, ok := b.Y.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() >= 0
}

func same(a, b *Val) bool { return a != nil && a == b }

// fresh reports whether v is what a call of this iteration returned.
func fresh(v *Val) bool {
	if v.Typ == nil || isSliceOrMap(v.Typ) {
		return false
	}
	return v.Op == "ext" && v.Args[0].Op == "call" || v.Op == "call"
}

// widened reports whether loop-carried values of type t are made opaque.
func widened(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsString|types.IsFloat) != 0
	case *types.Slice:
		return true
	}
	return false
}

// nonNegPhi reports whether a loop-carried integer never becomes negative (but by overflow): it starts non-negative
// and grows only.
func (r *Run) nonNegPhi(v *Val) bool {
	p, ok := v.Instr.(*ssa.Phi)
	if !ok {
		return false
	}
	return r.nonNegValue(p, map[ssa.Value]bool{}, 0)
}

// countsUp reports whether a loop-carried integer starts at -1 and grows only, as the index of a range loop does.
func (r *Run) countsUp(v *Val) bool {
	p, ok := v.Instr.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range p.Edges {
		switch x := e.(type) {
		case *ssa.Const:
			if n, ok := constant.Int64Val(constant.ToInt(x.Value)); !ok || n < -1 {
				return false
			}
		case *ssa.BinOp:
			c, ok := x.Y.(*ssa.Const)
			if x.Op != token.ADD || x.X != ssa.Value(p) || !ok {
				return false
			}
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); !ok || n < 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (r *Run) nonNegValue(v ssa.Value, seen map[ssa.Value]bool, depth int) bool {
	if seen[v] {
		return true
	}
	if depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return true
		}
		n, ok := constant.Int64Val(constant.ToInt(x.Value))
		return ok && n >= 0
	case *ssa.Phi:
		seen[v] = true
		for _, e := range x.Edges {
			if !r.nonNegValue(e, seen, depth+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.QUO, token.AND:
			return r.nonNegValue(x.X, seen, depth+1) && r.nonNegValue(x.Y, seen, depth+1)
		case token.REM:
			return r.nonNegValue(x.X, seen, depth+1)
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			if b.Kind() == types.Uint8 || b.Kind() == types.Uint16 {
				return true
			}
		}
		return r.nonNegValue(x.X, seen, depth+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy") {
			return true
		}
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	return false
}

func (r *Run) branch(s *State, in *ssa.If) []*State {
	c := r.val(s, in.Cond)
	b := s.top().Block
	if v, k := s.truth(c); k {
		to := b.Succs[1]
		if v {
			to = b.Succs[0]
		}
		r.edge(s, to)
		return []*State{s}
	}
	var out []*State
	for i, v := range []bool{true, false} {
		t := s
		if i == 0 {
			t = s.clone()
		}
		if !t.assume(c, v) {
			continue
		}
		w := "false"
		if v {
			w = "true"
		}
		t.note(instrPos(in), "condition "+c.String()+" is "+w)
		r.emit(t, &Event{Kind: EvAssume, Instr: in, Val: c, Cond: v})
		r.edge(t, b.Succs[i])
		out = append(out, t)
	}
	return out
}

func (r *Run) tuple(vs []*Val, t types.Type) *Val {
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return r.in.mk(Val{Op: "tuple", Args: vs, Typ: t})
}

func (r *Run) ret(s *State, in *ssa.Return) []*State {
	a := s.top()
	var vs []*Val
	for _, x := range in.Results {
		vs = append(vs, r.val(s, x))
	}
	return r.pop(s, in, vs, a)
}

func (r *Run) pop(s *State, in ssa.Instruction, vs []*Val, a *Act) []*State {
	if len(s.Stack) == 1 {
		r.emit(s, &Event{Kind: EvExit, Instr: in, Results: vs, Panic: s.Panic})
		return nil
	}
	res := r.tuple(vs, a.F.Fn.Signature.Results())
	s.Stack = s.Stack[:len(s.Stack)-1]
	caller := s.top()
	site := a.F.Site
	for k, f := range s.Facts {
		// what a value is not is of use to the function that tested it only
		if f.op == "true" && !f.val && f.a.Op == "field" && f.a.Field == okField && !s.monitored(f.a.Args[0].Args[0]) || f.op == "eq" && !f.val && !r.cfg.Kinds && isReflectKind(f.a) {
			delete(s.Facts, k)
		}
	}
	e := &Event{Kind: EvRet, Instr: site, Frame: caller.F, Fn: a.F.Fn, Res: res, IsDefer: a.deferCall, Results: vs}
	if o, ok := a.F.Fn.Object().(*types.Func); ok {
		e.Meth = o
	}
	r.emit(s, e)
	if !a.deferCall && !a.onceCall {
		if v, ok := site.(ssa.Value); ok && res != nil {
			if r.P.liveAft[site][v] {
				caller.Env[v] = res
			}
		}
	}
	return []*State{s}
}

// monitored reports whether v is a monitor variable.
func (s *State) monitored(v *Val) bool {
	for _, x := range s.M {
		if x == v {
			return true
		}
	}
	return false
}

func isReflectKind(v *Val) bool {
	return v.Op == "call" && v.Meth != nil && v.Meth.Name() == "Kind" && v.Meth.Pkg() != nil && v.Meth.Pkg().Path() == "reflect"
}

func (r *Run) unwind(s *State) []*State {
	a := s.top()
	if n := len(a.Defers); n > 0 {
		d := a.Defers[n-1]
		a.Defers = a.Defers[:n-1]
		return r.call(s, d.instr, d.call, nil, true)
	}
	if len(s.Stack) == 1 {
		r.emit(s, &Event{Kind: EvExit, Instr: a.Block.Instrs[len(a.Block.Instrs)-1], Panic: true})
		return nil
	}
	s.Stack = s.Stack[:len(s.Stack)-1]
	s.top().unwind = true
	return []*State{s}
}

// --- calls ----------------------------------------------------------------

func (r *Run) target(s *State, c *ssa.CallCommon) callTarget {
	t := callTarget{sig: c.Signature()}
	for _, x := range c.Args {
		t.args = append(t.args, r.val(s, x))
	}
	if c.IsInvoke() {
		t.meth, t.recv = c.Method, r.val(s, c.Value)
		return r.resolveInvoke(t)
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		t.builtin = v.Name()
		return t
	case *ssa.Function:
		t.fn = v
		return t
	}
	t.fv = r.val(s, c.Value)
	return r.resolveFv(t)
}

func (r *Run) resolveInvoke(t callTarget) callTarget {
	if t.recv != nil && t.recv.Op == "iface" {
		if fn := r.P.SSA.LookupMethod(t.recv.Typ, t.meth.Pkg(), t.meth.Name()); fn != nil && fn.Blocks != nil {
			t.fn = fn
			t.args = append([]*Val{t.recv.Args[0]}, t.args...)
		}
	}
	return t
}

func (r *Run) resolveFv(t callTarget) callTarget {
	v := t.fv
	for v != nil && v.Op == "conv" {
		v = v.Args[0]
	}
	if v == nil {
		return t
	}
	switch v.Op {
	case "fn":
		t.fn, t.fv = v.Fn, nil
	case "closure":
		t.fn, t.bindings, t.fv = v.Fn, v.Args, nil
	}
	return t
}

func (r *Run) callEvent(k EvKind, in ssa.Instruction, t callTarget) *Event {
	e := &Event{Kind: k, Instr: in, Fn: t.fn, Meth: t.meth, Recv: t.recv, Args: t.args, FnVal: t.fv, Builtin: t.builtin}
	if t.fn != nil {
		if t.meth == nil {
			if o, ok := t.fn.Object().(*types.Func); ok {
				e.Meth = o
			}
		}
		if t.fn.Signature.Recv() != nil && len(t.args) > 0 {
			if t.meth == nil || t.recv != nil && t.recv.Op == "iface" {
				e.Recv, e.Args = t.args[0], t.args[1:]
			}
		}
	}
	return e
}

// call executes a call; res is the value it defines (nil for deferred calls).
func (r *Run) call(s *State, site ssa.Instruction, t callTarget, res ssa.Value, isDefer bool) []*State {
	// bound methods and thunks: unwrap to the method
	if t.fn != nil && t.fn.Synthetic != "" && len(t.bindings) == 1 && len(t.fn.FreeVars) == 1 && t.fn.Object() != nil && t.fn.Parent() == nil {
		if o, ok := t.fn.Object().(*types.Func); ok {
			if types.IsInterface(o.Type().(*types.Signature).Recv().Type()) {
				t2 := callTarget{meth: o, recv: t.bindings[0], args: t.args, sig: t.sig}
				t = r.resolveInvoke(t2)
			} else if m := r.P.SSA.FuncValue(o); m != nil {
				t = callTarget{fn: m, args: append([]*Val{t.bindings[0]}, t.args...), sig: t.sig}
			}
		}
	}
	e := r.callEvent(EvCall, site, t)
	e.IsDefer = isDefer
	if t.builtin != "" {
		return r.builtin(s, site, t, res, e)
	}
	a := s.top()
	if onceDo(t.fn) && len(t.args) == 2 {
		t2 := r.resolveFv(callTarget{fv: t.args[1], sig: t.sig})
		if t2.fn != nil && t2.fn.Blocks != nil && !a.F.has(t2.fn) {
			e.Inlined = true
			r.emit(s, e)
			skip := s.clone()
			skip.note(instrPos(site), "Once already done")
			r.enter(s, site, t2, isDefer, true)
			return []*State{s, skip}
		}
	}
	if t.fn != nil && t.fn.Blocks != nil && r.P.inModule(t.fn) && !a.F.has(t.fn) && a.F.Depth < r.maxDepth() {
		var rt types.Type
		if e.Recv != nil {
			rt = recvType(t, e)
		}
		if r.cfg.Opaque == nil || !r.cfg.Opaque(t.fn, e.Meth, rt) {
			e.Inlined = true
			r.emit(s, e)
			r.enter(s, site, t, isDefer, false)
			return []*State{s}
		}
	}
	// opaque
	rt := t.sig.Results()
	var out *Val
	if rt.Len() > 0 {
		args := append([]*Val{}, e.Args...)
		if e.Recv != nil {
			args = append([]*Val{e.Recv}, args...)
		}
		if e.FnVal != nil {
			args = append([]*Val{e.FnVal}, args...)
		}
		var typ types.Type = rt
		if rt.Len() == 1 {
			typ = rt.At(0).Type()
		}
		switch {
		case errorsIs(e):
			out = r.binop(s, site, token.EQL, e.Args[0], e.Args[1], typ)
		case pureCall(e):
			out = r.functional(s, site, Val{Op: "call", Meth: e.Meth, Fn: t.fn, Typ: typ, Args: args, Instr: site})
		default:
			v := r.leaf(s, site, dtag(isDefer), "call", typ, args...)
			w := *v
			w.Meth, w.Fn = e.Meth, t.fn
			*v = w
			out = v
			if ren := r.renamed; ren != nil {
				e.Recv, e.FnVal, e.Args = ren(e.Recv), ren(e.FnVal), renAll(e.Args, ren)
				t.args, t.recv, t.fv = renAll(t.args, ren), ren(t.recv), ren(t.fv)
			}
		}
	}
	if out != nil && neverNil(e) {
		p, q := order(out, r.nilVal)
		s.addFact("eq", p, q, false)
	}
	if out != nil && infallible(e) {
		if tt, ok := out.Typ.(*types.Tuple); ok {
			vs := make([]*Val, tt.Len())
			for i := range vs {
				vs[i] = r.in.mk(Val{Op: "ext", Args: []*Val{out}, Idx: i, Typ: tt.At(i).Type()})
			}
			vs[len(vs)-1] = r.nilVal
			out = r.in.mk(Val{Op: "tuple", Args: vs, Typ: tt})
		} else {
			out = r.nilVal
		}
	}
	e.Res = out
	if res != nil && out != nil && r.P.liveAft[site][res] {
		a.Env[res] = out
	}
	r.escapes(s, site, t, e)
	r.emit(s, e)
	r.effects(s, e, t)
	if noReturn(e) {
		s.Panic = true
		s.top().unwind = true
		return []*State{s}
	}
	if r.cfg.Fork != nil {
		if out := r.cfg.Fork(s, e); out != nil {
			return out
		}
	}
	return []*State{s}
}

// errorsIs recognises errors.Is with one of the package's errors, none of which is ever wrapped.
func errorsIs(e *Event) bool {
	return e.Meth != nil && e.Meth.FullName() == "errors.Is" && len(e.Args) == 2
}

// pureCall lists functions outside the module whose result depends on their arguments only.
func pureCall(e *Event) bool {
	if e.Meth == nil || e.Meth.Pkg() == nil {
		return false
	}
	switch e.Meth.Pkg().Path() {
	case "strings", "strconv", "unicode/utf8":
		return e.Recv == nil && !strings.HasPrefix(e.Meth.Name(), "New")
	case "net/url":
		return e.Recv != nil && (e.Meth.Name() == "Get" || e.Meth.Name() == "Query")
	case "reflect":
		switch e.Meth.Name() {
		case "TypeOf", "ValueOf":
			return true
		case "Kind", "Type":
			return true
		}
		return e.Recv != nil && e.Recv.Typ != nil && isNamed(e.Recv.Typ, "reflect", "Type")
	case "time":
		return e.Recv != nil && (isNamed(e.Recv.Typ, "time", "Time") || isNamed(e.Recv.Typ, "time", "Duration"))
	}
	return false
}

// neverNil lists functions outside the module whose single result is never nil.
func neverNil(e *Event) bool {
	if e.Meth == nil || e.Meth.Pkg() == nil {
		return false
	}
	switch e.Meth.Pkg().Path() + "." + e.Meth.Name() {
	case "fmt.Errorf", "errors.New", "bufio.NewReader", "time.After", "time.NewTimer", "time.NewTicker", "bytes.NewBuffer",
		"bytes.NewReader", "strings.NewReader", "encoding/json.NewEncoder", "encoding/json.NewDecoder", "regexp.MustCompile",
		"net/url.Query", "context.Background", "net/http.Header":
		return true
	}
	return false
}

// bufferVal returns the bytes.Buffer or strings.Builder (its address) v is, or nil.
func bufferVal(v *Val) *Val {
	if v = v.strip(); v == nil || v.Typ == nil {
		return nil
	}
	if t := deref(v.Typ); isNamed(t, "bytes", "Buffer") || isNamed(t, "strings", "Builder") {
		return v
	}
	return nil
}

func packetType(v *Val) bool {
	if v == nil || v.Typ == nil {
		return false
	}
	n := namedOf(v.Typ)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p, ok := n.Obj().Pkg().Scope().Lookup("Packet").(*types.TypeName)
	return ok && types.Identical(n.Underlying(), p.Type().Underlying())
}

// infallible lists calls whose last result, an error, is always nil: writing to a buffer, and encoding strings as JSON.
func infallible(e *Event) bool {
	if e.Meth == nil || e.Meth.Pkg() == nil {
		return false
	}
	str := func(v *Val) bool {
		if v == nil || v.Op != "iface" {
			return false
		}
		b, ok := v.Args[0].Typ.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	switch p, n := e.Meth.Pkg().Path(), e.Meth.Name(); {
	case e.Recv != nil && bufferVal(e.Recv) != nil:
		switch n {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			return true
		}
	case e.Fn != nil && n == "WriteTo" && len(e.Args) == 1 && packetType(e.Recv):
		return bufferVal(e.Args[0]) != nil // C13 checks that encoding a packet fails only if writing does
	case p == "io" && n == "WriteString", p == "fmt" && strings.HasPrefix(n, "Fprint"):
		return len(e.Args) > 1 && bufferVal(e.Args[0]) != nil
	case p == "encoding/json" && n == "Encode" && e.Recv != nil && len(e.Args) == 1:
		r := e.Recv.strip()
		return isCallOf(r, p, "NewEncoder") && len(r.Args) == 1 && bufferVal(r.Args[0]) != nil && str(e.Args[0])
	case p == "encoding/json" && n == "Marshal" && e.Recv == nil && len(e.Args) == 1:
		return str(e.Args[0])
	}
	return false
}

func dtag(d bool) string {
	if d {
		return "d"
	}
	return ""
}

func recvType(t callTarget, e *Event) types.Type {
	if t.fn != nil && t.fn.Signature.Recv() != nil {
		return t.fn.Signature.Recv().Type()
	}
	return e.Recv.Typ
}

func noReturn(e *Event) bool {
	if e.Meth == nil || e.Meth.Pkg() == nil {
		return false
	}
	switch e.Meth.Pkg().Path() + "." + e.Meth.Name() {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit", "runtime.Goexit":
		return true
	}
	return false
}

func (r *Run) maxDepth() int {
	if r.cfg.MaxDepth > 0 {
		return r.cfg.MaxDepth
	}
	return 14
}

func onceDo(fn *ssa.Function) bool {
	return fn != nil && fn.Name() == "Do" && fn.Signature.Recv() != nil && isNamed(fn.Signature.Recv().Type(), "sync", "Once")
}

func (r *Run) enter(s *State, site ssa.Instruction, t callTarget, isDefer, once bool) {
	a := s.top()
	r.Calls[t.fn] = true
	f := r.frame(a.F, site, t.fn)
	if live, ok := r.P.liveAft[site]; ok && !isDefer {
		for k := range a.Env {
			if !live[k] {
				delete(a.Env, k)
			}
		}
	}
	n := &Act{F: f, Env: map[ssa.Value]*Val{}, Block: t.fn.Blocks[0], deferCall: isDefer, onceCall: once}
	live := r.P.liveIn[n.Block]
	for i, p := range t.fn.Params {
		if i < len(t.args) && live[p] {
			n.Env[p] = t.args[i]
		}
	}
	for i, fv := range t.fn.FreeVars {
		if i < len(t.bindings) && live[fv] {
			n.Env[fv] = t.bindings[i]
		}
	}
	s.Stack = append(s.Stack, n)
}

// escapes records function values handed to code that is not analysed here.
func (r *Run) escapes(s *State, site ssa.Instruction, t callTarget, e *Event) {
	for i, x := range t.args {
		r.escapeVal(s, site, x, fmt.Sprintf("argument %d of %s", i, e.Name()))
	}
}

func (r *Run) escapeVal(s *State, site ssa.Instruction, x *Val, ctx string) {
	for x != nil && (x.Op == "conv" || x.Op == "iface") {
		x = x.Args[0]
	}
	if x == nil {
		return
	}
	if x.Op == "closure" || x.Op == "fn" && r.P.inModule(x.Fn) {
		t := r.resolveFv(callTarget{fv: x, sig: x.Fn.Signature})
		r.spawn(s, site, t, "escape", ctx)
	}
	if x.Op == "slice" || x.Op == "alloc" { // variadic argument arrays
		base := x
		if x.Op == "slice" {
			base = x.Args[0]
		}
		if base != nil && base.Op == "alloc" {
			for _, k := range sortedKeys(s.Mem) {
				en := s.Mem[k]
				if en.addr.Op == "index&" && en.addr.Args[0] == base && en.val != x {
					r.escapeVal(s, site, en.val, ctx)
				}
			}
		}
	}
}

func (r *Run) spawn(s *State, in ssa.Instruction, t callTarget, kind, ctx string) {
	if t.fn == nil && t.meth == nil {
		return
	}
	fn := t.fn
	if fn == nil || fn.Blocks == nil || !r.P.inModule(fn) {
		return
	}
	key := fmt.Sprintf("%s/%p/%d/%p/%p", kind, in, s.top().F.ID, fn, r.CurSpawn)
	for _, b := range t.bindings {
		key += "," + b.Key
	}
	if kind != "go" || t.meth != nil {
		t.args = nil
	}
	for _, b := range t.args {
		if b == nil {
			t.args = nil
			break
		}
		key += ";" + b.Key
	}
	if _, ok := r.Spawns[key]; ok {
		return
	}
	mem := map[string]memEnt{}
	for k, e := range s.Mem {
		switch e.addr.Op {
		case "alloc":
			if al, ok := e.addr.Instr.(*ssa.Alloc); ok && singleStore(al) && e.addr.Age == 0 {
				if storeCount(al) > 0 && e.val == r.zero(deref(al.Type())) {
					continue // may be set later
				}
				mem[k] = e
			}
		case "field&":
			if r.P.initOnly[e.addr.Field] {
				mem[k] = e
			}
		}
	}
	r.spawnOrder = append(r.spawnOrder, key)
	origin := s.Stack[0].F.Fn
	if r.CurSpawn != nil {
		origin = r.CurSpawn.Origin
	}
	r.Spawns[key] = &Spawn{Fn: fn, Bindings: t.bindings, Mem: mem, Instr: in, Frame: s.top().F, Kind: kind, Ctx: ctx, Call: t,
		Parent: r.CurSpawn, Origin: origin}
}

// effects forgets what an opaque call may have changed.
func (r *Run) effects(s *State, e *Event, t callTarget) {
	if r.cfg.NoHavoc {
		return
	}
	switch {
	case e.FnVal != nil, isUserCall(r.P, e):
		r.havoc(s, false)
	case isLockMethod(e, "Lock") || isLockMethod(e, "RLock"):
		r.havoc(s, true)
	case e.Meth != nil && e.Meth.Pkg() != nil && e.Meth.Pkg().Path() == "sync" && e.Meth.Name() == "Wait":
		r.havoc(s, true)
	case e.Fn != nil && r.P.inModule(e.Fn):
		// a module function kept opaque
		r.havoc(s, true)
	case e.Meth != nil && e.Recv != nil && e.Meth.Pkg() != nil && e.Meth.Pkg() == r.P.Engine && e.Meth.Name() == "Wait":
		r.havoc(s, true)
	default:
		// memory directly passed by address may be written
		for _, x := range e.Args {
			y := x.strip()
			if y == nil {
				continue
			}
			if y.Op == "alloc" || y.Op == "field&" || y.Op == "index&" {
				if readsOnly(e) || r.cfg.Keep != nil && r.cfg.Keep(y) && e.Name() == "Encode" {
					continue
				}
				r.clobber(s, y)
			}
			if y.Op == "slice" && isBytesVal(y) && y.Args[0] != nil && y.Args[0].Op == "alloc" && e.Meth != nil && !readsBytes(e.Name()) {
				r.clobber(s, y.Args[0])
			}
		}
	}
}

// readsBytes lists functions of other packages that do not write to the byte slices they are passed.
func readsBytes(name string) bool {
	for _, p := range []string{"Write", "Equal", "Compare", "Index", "LastIndex", "Has", "Contains", "Split", "Trim", "Unmarshal", "Match", "Find", "Replace", "EncodeToString", "Valid", "New", "Sprint", "Quote", "Count"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// readsOnly lists interface methods and functions known not to write through their pointer arguments.
func readsOnly(e *Event) bool {
	switch e.Name() {
	case "WritePacket", "Marshal", "Println", "Printf", "Sprintf", "Errorf", "Fprintf", "Accept", "ServeHTTP", "Error", "Upgrade", "ReadFull", "Load", "ValueOf", "TypeOf":
		return e.Name() != "ReadFull"
	}
	return false
}

// clobber forgets everything stored at or below addr.
func (r *Run) clobber(s *State, addr *Val) {
	for k, e := range s.Mem {
		for x := e.addr; x != nil; {
			if x == addr {
				delete(s.Mem, k)
				break
			}
			if (x.Op == "field&" || x.Op == "index&") && len(x.Args) > 0 {
				x = x.Args[0]
			} else {
				break
			}
		}
	}
}

// havoc forgets shared memory. With locked only the fields of structs that carry a lock are forgotten.
func (r *Run) havoc(s *State, locked bool) {
	for k, e := range s.Mem {
		if r.cfg.Keep != nil && r.cfg.Keep(e.addr) {
			continue
		}
		switch e.addr.Op {
		case "alloc":
			if al, ok := e.addr.Instr.(*ssa.Alloc); ok {
				if _, own := ownStores(al); own || r.P.isPrivate(al) {
					continue
				}
			}
			if locked {
				continue
			}
		case "field&":
			if r.P.initOnly[e.addr.Field] {
				continue
			}
			if b := rootOf(e.addr); b.Op == "alloc" {
				if al, ok := b.Instr.(*ssa.Alloc); ok && r.P.isPrivate(al) {
					continue
				}
			}
			if locked && !r.lockedStruct(e.addr) {
				continue
			}
		case "index&":
			if b := rootOf(e.addr); b.Op == "alloc" && (locked || isVarargs(b)) {
				continue
			}
		case "freevar":
			if fv := freeVarOf(e.addr); fv != nil && r.P.singleStoreVar(fv) {
				continue
			}
		case "global":
		}
		delete(s.Mem, k)
	}
}

// freeVarOf returns the captured variable v stands for.
func freeVarOf(v *Val) *ssa.FreeVar {
	if v.Op == "freevar" && v.Fn != nil && v.Idx < len(v.Fn.FreeVars) {
		return v.Fn.FreeVars[v.Idx]
	}
	return nil
}

func isVarargs(v *Val) bool {
	al, ok := v.Instr.(*ssa.Alloc)
	return ok && (al.Comment == "varargs" || al.Comment == "slicelit")
}

func rootOf(v *Val) *Val {
	for (v.Op == "field&" || v.Op == "index&") && len(v.Args) > 0 {
		v = v.Args[0]
	}
	return v
}

// lockedStruct reports whether addr is a field (at any level) of a struct type that contains a lock.
func (r *Run) lockedStruct(addr *Val) bool {
	for v := addr; v.Op == "field&"; v = v.Args[0] {
		if hasLock(deref(v.Args[0].Typ)) {
			return true
		}
	}
	return false
}

func hasLock(t types.Type) bool {
	if t == nil {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Type()
		if isLockType(f) {
			return true
		}
	}
	return false
}

func isLockType(t types.Type) bool {
	return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
}

func isLockMethod(e *Event, name string) bool {
	return e.Meth != nil && e.Meth.Name() == name && e.Recv != nil && e.Meth.Pkg() != nil && e.Meth.Pkg().Path() == "sync" && e.Recv.Typ != nil && isLockType(e.Recv.Typ)
}

// isUserCall reports whether the call runs code supplied by the user: an unknown function value, an event handler, an
// origin checker, or a reflective call.
func isUserCall(p *Prog, e *Event) bool {
	if e.Kind != EvCall || e.Inlined {
		return false
	}
	if e.FnVal != nil {
		return true
	}
	if e.Meth == nil {
		return false
	}
	switch e.Name() {
	case "Call", "CallSlice":
		if e.Recv != nil && (isNamed(e.Recv.Typ, "reflect", "Value") || types.IsInterface(e.Recv.Typ) && isNamed(e.Recv.Typ, p.Engine.Path(), "Callable")) {
			return true
		}
	case "CheckOrigin":
		return e.Recv != nil && types.IsInterface(e.Recv.Typ)
	}
	return false
}

// --- builtins ----------------------------------------------------------------

func (r *Run) builtin(s *State, site ssa.Instruction, t callTarget, res ssa.Value, e *Event) []*State {
	a := s.top()
	set := func(v *Val) {
		e.Res = v
		if res != nil && v != nil && r.P.liveAft[site][res] {
			a.Env[res] = v
		}
	}
	var typ types.Type
	if res != nil {
		typ = res.Type()
	}
	switch t.builtin {
	case "len", "cap":
		set(r.lenOf(s, site, t.builtin, t.args[0], typ))
	case "close":
		r.emit(s, &Event{Kind: EvClose, Instr: site, Chan: t.args[0], IsDefer: e.IsDefer})
		return []*State{s}
	case "delete":
		r.emit(s, &Event{Kind: EvMapDelete, Instr: site, Args: t.args, IsDefer: e.IsDefer})
		return []*State{s}
	case "append":
		v := r.leaf(s, site, "", "append", typ, t.args...)
		e.Args = t.args
		set(v)
	case "panic":
		r.emit(s, &Event{Kind: EvPanic, Instr: site, Args: t.args})
		s.Panic = true
		a.unwind = true
		return []*State{s}
	case "copy":
		v := r.leaf(s, site, "", "copy", typ, t.args...)
		set(v)
		if len(t.args) > 0 {
			for k, en := range s.Mem {
				if en.addr.Op == "index&" {
					delete(s.Mem, k)
				}
			}
		}
	case "clear":
		set(nil)
	default:
		if res != nil && typ != nil {
			set(r.leaf(s, site, "", "call", typ, t.args...))
		}
	}
	e.Kind = EvBuiltin
	r.emit(s, e)
	return []*State{s}
}

func (r *Run) lenOf(s *State, site ssa.Instruction, what string, x *Val, typ types.Type) *Val {
	switch x.Op {
	case "const":
		if str, ok := x.str(); ok {
			return r.constVal(constant.MakeInt64(int64(len(str))), typ)
		}
	case "nil":
		return r.constVal(constant.MakeInt64(0), typ)
	case "makeslice", "make":
		if what == "len" && len(x.Args) > 0 && x.Args[0] != nil && isIntVal(x.Args[0]) {
			return x.Args[0]
		}
	case "slice":
		// [lo:hi] of something
		lo, hi := x.Args[1], x.Args[2]
		if what == "len" && hi != nil && (lo == nil || isZero(lo)) {
			return hi
		}
		if what == "len" && hi == nil && x.Args[0].Op == "alloc" && (lo == nil || isZero(lo)) {
			if at, ok := deref(x.Args[0].Typ).Underlying().(*types.Array); ok {
				return r.constVal(constant.MakeInt64(at.Len()), typ)
			}
		}
	case "conv":
		if what == "len" && isStringOrBytes(x.Typ) && isStringOrBytes(x.Args[0].Typ) {
			return r.lenOf(s, site, what, x.Args[0], typ)
		}
	}
	if at, ok := deref(x.Typ).Underlying().(*types.Array); ok {
		return r.constVal(constant.MakeInt64(at.Len()), typ)
	}
	return r.functional(s, site, Val{Op: what, Args: []*Val{x}, Typ: typ, Instr: site})
}

func isZero(v *Val) bool { n, ok := v.int64(); return ok && n == 0 }

func isStringOrBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// --- memory ---------------------------------------------------------------

func (r *Run) load(s *State, in ssa.Instruction, addr *Val, t types.Type, sub string, depth int) *Val {
	if e, ok := s.Mem[addr.Key]; ok {
		return e.val
	}
	if addr.Op == "global" {
		if addr.Glob.Pkg != nil && isErrorType(t) && addr.Glob.Object() != nil && addr.Glob.Object().Exported() && !r.P.isModPkg(addr.Glob.Pkg.Pkg) {
			// the errors other packages export are constants for all practical purposes
			return r.in.mk(Val{Op: "gval", Glob: addr.Glob, Typ: t})
		}
		if init, ok := r.P.cglobals[addr.Glob]; ok {
			if c, ok := init.(*ssa.Const); ok {
				return r.val(s, c)
			}
			if !isSliceOrMap(t) || true {
				return r.in.mk(Val{Op: "gval", Glob: addr.Glob, Typ: t})
			}
		}
	}
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() <= 16 && depth < 3 && !isLockType(t) {
		v := Val{Op: "struct", Typ: t}
		for i := 0; i < st.NumFields(); i++ {
			fa := r.fieldAddr(s, in, addr, i)
			v.Args = append(v.Args, r.load(s, in, fa, st.Field(i).Type(), fmt.Sprintf("%s.%d", sub, i), depth+1))
		}
		return r.in.mk(v)
	}
	if addr.Op == "field&" {
		// field of a struct stored as a whole
		if e, ok := s.Mem[addr.Args[0].Key]; ok {
			return r.fieldOf(s, in, e.val, addr.Idx, t)
		}
	}
	v := r.leaf(s, in, sub, "load", t, addr)
	// renaming may have changed the address
	if !addr.leafs[v.Leaf] {
		s.Mem[addr.Key] = memEnt{addr, v}
	}
	return v
}

func isSliceOrMap(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func (r *Run) fieldAddr(s *State, in ssa.Instruction, base *Val, i int) *Val {
	fv := fieldVar(base.Typ, i)
	if fv == nil {
		return r.leaf(s, in, "f", "sym", nil)
	}
	return r.functional(s, in, Val{Op: "field&", Args: []*Val{base}, Idx: i, Field: fv, Typ: types.NewPointer(fv.Type())})
}

func (r *Run) fieldOf(s *State, in ssa.Instruction, v *Val, i int, t types.Type) *Val {
	if v.Op == "struct" {
		return v.Args[i]
	}
	fv := fieldVar(v.Typ, i)
	if fv == nil {
		return r.leaf(s, in, "f", "sym", t)
	}
	return r.functional(s, in, Val{Op: "field", Args: []*Val{v}, Idx: i, Field: fv, Typ: t})
}

func (r *Run) store(s *State, in ssa.Instruction, addr, val *Val) {
	// a struct stored as a whole updates its fields
	if st, ok := deref(addr.Typ).Underlying().(*types.Struct); ok && addr.Typ != nil && !isLockType(deref(addr.Typ)) {
		r.clobber(s, addr)
		if st.NumFields() <= 16 {
			for i := 0; i < st.NumFields(); i++ {
				r.store(s, in, r.fieldAddr(s, in, addr, i), r.fieldOf(s, in, val, i, st.Field(i).Type()))
			}
			return
		}
	}
	// aliases
	fresh := r.cfg.Keep != nil && freshStore(in, addr)
	for k, e := range s.Mem {
		if e.addr == addr || fresh && rootOf(e.addr) != rootOf(addr) {
			continue
		}
		switch addr.Op {
		case "field&":
			if e.addr.Op == "field&" && e.addr.Field == addr.Field && e.addr.Args[0] != addr.Args[0] && !distinct(e.addr.Args[0], addr.Args[0]) {
				delete(s.Mem, k)
			}
			if e.addr.Op != "field&" && e.addr.Op != "alloc" && e.addr.Op != "index&" && e.addr.Op != "global" && e.addr.Typ != nil && addr.Typ != nil && types.Identical(e.addr.Typ, addr.Typ) {
				delete(s.Mem, k)
			}
		case "index&":
			if e.addr.Op == "index&" && e.addr.Args[0] == addr.Args[0] {
				x, okx := e.addr.Args[1].int64()
				y, oky := addr.Args[1].int64()
				if !(okx && oky && x != y) {
					delete(s.Mem, k)
				}
			} else if e.addr.Op == "index&" && !distinct(rootOf(e.addr), rootOf(addr)) && types.Identical(e.addr.Typ, addr.Typ) {
				delete(s.Mem, k)
			}
		case "alloc", "global":
		default:
			if e.addr.Op != "alloc" && e.addr.Typ != nil && addr.Typ != nil && types.Identical(e.addr.Typ, addr.Typ) {
				delete(s.Mem, k)
			}
		}
	}
	if len(addr.leafs) > 0 || addr.Op == "global" {
		s.Mem[addr.Key] = memEnt{addr, val}
	}
}

// freshStore reports whether in initialises an object of which no pointer has been made yet but to its fields: nothing else
// can refer to it.
func freshStore(in ssa.Instruction, addr *Val) bool {
	b := rootOf(addr)
	if b.Op != "alloc" || b.Age != 0 {
		return false
	}
	al, ok := b.Instr.(*ssa.Alloc)
	if !ok || al.Block() != in.Block() {
		return false
	}
	before := true
	for _, i := range al.Block().Instrs {
		if i == in {
			before = false
		}
		if !before {
			break
		}
		for _, op := range i.Operands(nil) {
			if *op == al {
				if _, ok := i.(*ssa.FieldAddr); !ok {
					return false
				}
			} else if fa, ok := (*op).(*ssa.FieldAddr); ok && fa.X == al {
				if st, ok := i.(*ssa.Store); !ok || st.Addr != fa {
					return false
				}
			}
		}
	}
	return true
}

// distinct reports whether two base addresses cannot be the same object.
func distinct(a, b *Val) bool {
	if a == b {
		return false
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return a.Leaf != b.Leaf
	}
	if a.Op == "alloc" && (b.Op == "param" || b.Op == "freevar" || b.Op == "global") || b.Op == "alloc" && (a.Op == "param" || a.Op == "freevar" || a.Op == "global") {
		return true
	}
	return false
}

// --- other instructions -----------------------------------------------------

func (r *Run) simple(s *State, in ssa.Instruction) []*State {
	a := s.top()
	set := func(v ssa.Value, x *Val) { a.Env[v] = x }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := deref(in.Type())
		v := r.leaf(s, in, "", "alloc", in.Type())
		r.clobber(s, v)
		r.zeroMem(s, in, v, t, 0)
		set(in, v)
		r.emit(s, &Event{Kind: EvAlloc, Instr: in, Val: v})
	case *ssa.UnOp:
		x := r.val(s, in.X)
		switch in.Op {
		case token.MUL:
			if s.IsNil(x) {
				return r.nilDeref(s, in, x)
			}
			v := r.load(s, in, x, in.Type(), "", 0)
			x = r.val(s, in.X) // may have been renamed
			set(in, v)
			r.emit(s, &Event{Kind: EvLoad, Instr: in, Addr: x, Val: v})
		case token.ARROW:
			var typ types.Type = in.Type()
			v := r.leaf(s, in, "", "recv", typ, x)
			if tt, ok := typ.(*types.Tuple); ok && in.CommaOk {
				okv := r.in.mk(Val{Op: "ext", Args: []*Val{v}, Idx: 1, Typ: tt.At(1).Type()})
				if r.P.neverClosed(s.chanID(x)) {
					okv = r.boolVal(true)
				}
				v = r.in.mk(Val{Op: "ext", Args: []*Val{v}, Typ: tt.At(0).Type()})
				set(in, r.in.mk(Val{Op: "tuple", Args: []*Val{v, okv}, Typ: typ}))
			} else {
				set(in, v)
			}
			x = r.val(s, in.X)
			r.emit(s, &Event{Kind: EvRecv, Instr: in, Chan: x, Val: v})
			r.havoc(s, true)
		default:
			if in.Op == token.NOT {
				if b, ok := x.bool(); ok {
					set(in, r.boolVal(!b))
					return nil
				}
				if x.Op == "un" && token.Token(x.Idx) == token.NOT {
					set(in, x.Args[0])
					return nil
				}
			}
			if x.Op == "const" {
				if c := constant.UnaryOp(in.Op, x.C, 0); c.Kind() != constant.Unknown && in.Op == token.SUB {
					set(in, r.constVal(c, in.Type()))
					return nil
				}
			}
			set(in, r.functional(s, in, Val{Op: "un", Idx: int(in.Op), Args: []*Val{x}, Typ: in.Type()}))
		}
	case *ssa.BinOp:
		x, y := r.val(s, in.X), r.val(s, in.Y)
		v := r.binop(s, in, in.Op, x, y, in.Type())
		set(in, v)
		switch in.Op {
		case token.MUL, token.SHL, token.ADD, token.SUB, token.QUO, token.REM:
			r.emit(s, &Event{Kind: EvArith, Instr: in, Args: []*Val{x, y}, Val: v})
		}
	case *ssa.ChangeType:
		x := r.val(s, in.X)
		_, isFn := in.Type().Underlying().(*types.Signature)
		if _, isSlice := in.Type().Underlying().(*types.Slice); isFn || isSlice {
			set(in, x)
		} else {
			set(in, r.conv(s, in, x, in.Type()))
		}
	case *ssa.ChangeInterface:
		set(in, r.val(s, in.X))
	case *ssa.Convert:
		set(in, r.conv(s, in, r.val(s, in.X), in.Type()))
	case *ssa.MultiConvert:
		set(in, r.conv(s, in, r.val(s, in.X), in.Type()))
	case *ssa.SliceToArrayPointer:
		set(in, r.conv(s, in, r.val(s, in.X), in.Type()))
	case *ssa.MakeInterface:
		x := r.val(s, in.X)
		if x.fdepth >= r.maxF()+2 {
			set(in, r.leaf(s, in, "", "sym", in.Type()))
			return nil
		}
		set(in, r.in.mk(Val{Op: "iface", Args: []*Val{x}, Typ: in.X.Type()}))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		v := Val{Op: "closure", Fn: fn, Typ: in.Type(), Instr: in}
		for _, b := range in.Bindings {
			v.Args = append(v.Args, r.val(s, b))
		}
		set(in, r.in.mk(v))
	case *ssa.MakeMap:
		set(in, r.leaf(s, in, "", "make", in.Type()))
		r.emit(s, &Event{Kind: EvMake, Instr: in, Val: a.Env[in]})
	case *ssa.MakeChan:
		sz := r.val(s, in.Size)
		set(in, r.leaf(s, in, "", "make", in.Type(), sz))
		r.emit(s, &Event{Kind: EvMake, Instr: in, Val: a.Env[in], Args: []*Val{sz}})
	case *ssa.MakeSlice:
		l, c := r.val(s, in.Len), r.val(s, in.Cap)
		set(in, r.leaf(s, in, "", "make", in.Type(), l, c))
		r.emit(s, &Event{Kind: EvMake, Instr: in, Val: a.Env[in], Args: []*Val{r.val(s, in.Len), r.val(s, in.Cap)}})
	case *ssa.Slice:
		v := Val{Op: "slice", Typ: in.Type(), Args: []*Val{r.val(s, in.X), nil, nil, nil}}
		for i, o := range []ssa.Value{in.Low, in.High, in.Max} {
			if o != nil {
				v.Args[i+1] = r.val(s, o)
			}
		}
		// a nil bound is "absent"
		for i := 1; i < 4; i++ {
			if v.Args[i] == nil {
				v.Args[i] = nil
			}
		}
		r.emit(s, &Event{Kind: EvSlice, Instr: in, Args: v.Args})
		set(in, r.functional(s, in, v))
	case *ssa.FieldAddr:
		if x := r.val(s, in.X); s.IsNil(x) {
			return r.nilDeref(s, in, x)
		}
		set(in, r.fieldAddr(s, in, r.val(s, in.X), in.Field))
	case *ssa.Field:
		set(in, r.fieldOf(s, in, r.val(s, in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		x, i := r.val(s, in.X), r.val(s, in.Index)
		r.emit(s, &Event{Kind: EvIndex, Instr: in, Args: []*Val{x, i}})
		// element addresses of slices are those of the array below when the slice starts at 0
		base := x
		if x.Op == "slice" && x.Args[1] == nil && x.Args[0].Op == "alloc" {
			base = x.Args[0]
		}
		set(in, r.functional(s, in, Val{Op: "index&", Args: []*Val{base, i}, Typ: in.Type()}))
	case *ssa.Index:
		x, i := r.val(s, in.X), r.val(s, in.Index)
		r.emit(s, &Event{Kind: EvIndex, Instr: in, Args: []*Val{x, i}})
		set(in, r.functional(s, in, Val{Op: "index", Args: []*Val{x, i}, Typ: in.Type()}))
	case *ssa.Lookup:
		x, i := r.val(s, in.X), r.val(s, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			r.emit(s, &Event{Kind: EvIndex, Instr: in, Args: []*Val{x, i}})
			set(in, r.functional(s, in, Val{Op: "index", Args: []*Val{x, i}, Typ: in.Type()}))
			return nil
		}
		v := r.leaf(s, in, "", "lookup", in.Type(), x, i)
		set(in, v)
		x, i = r.val(s, in.X), r.val(s, in.Index)
		r.emit(s, &Event{Kind: EvLookup, Instr: in, Args: []*Val{x, i}, Res: v})
	case *ssa.Extract:
		t := r.val(s, in.Tuple)
		if t != nil && t.Op == "tuple" {
			set(in, t.Args[in.Index])
			return nil
		}
		set(in, r.in.mk(Val{Op: "ext", Args: []*Val{t}, Idx: in.Index, Typ: in.Type()}))
	case *ssa.TypeAssert:
		return r.typeAssert(s, in)
	case *ssa.Range:
		set(in, r.leaf(s, in, "", "range", in.Type(), r.val(s, in.X)))
	case *ssa.Next:
		it := r.val(s, in.Iter)
		if it.Op == "range" && !in.IsString {
			r.emit(s, &Event{Kind: EvNext, Instr: in, Args: []*Val{it.Args[0]}})
		}
		set(in, r.leaf(s, in, "", "next", in.Type(), r.val(s, in.Iter)))
	case *ssa.Store:
		addr, v := r.val(s, in.Addr), r.val(s, in.Val)
		if s.IsNil(addr) {
			return r.nilDeref(s, in, addr)
		}
		sum := v
		if _, arith := in.Val.(*ssa.BinOp); arith && isIntVal(v) && (r.P.inLoop[in.Block()] || a.F.InLoop) {
			// an accumulator in memory: keep its sign only
			lo, _ := s.interval(v, 0)
			v = r.leaf(s, in, "acc", "acc", v.Typ)
			addr, sum = r.val(s, in.Addr), r.val(s, in.Val) // renamed
			if lo >= 0 {
				if lo > 1 {
					lo = 1
				}
				s.addFact("lt", v, r.constVal(constant.MakeInt64(lo), v.Typ), false)
			}
		}
		r.emit(s, &Event{Kind: EvStore, Instr: in, Addr: addr, Val: v, Sum: sum})
		if addr.Op == "field&" || addr.Op == "global" || addr.Op == "param" {
			r.escapeVal(s, in, v, "stored in "+addr.String())
		}
		r.store(s, in, addr, v)
	case *ssa.MapUpdate:
		m, k, v := r.val(s, in.Map), r.val(s, in.Key), r.val(s, in.Value)
		ctx := "map element"
		if str, ok := k.str(); ok {
			ctx = "map element " + str
		}
		r.escapeVal(s, in, v, ctx)
		r.emit(s, &Event{Kind: EvMapUpdate, Instr: in, Args: []*Val{m, k, v}})
	case *ssa.Send:
		c, v := r.val(s, in.Chan), r.val(s, in.X)
		r.emit(s, &Event{Kind: EvSend, Instr: in, Chan: c, Val: v})
		r.havoc(s, true)
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, r.leaf(s, in, "", "sym", v.Type()))
		}
	}
	return nil
}

// nilDeref ends a path on which a nil pointer is dereferenced.
func (r *Run) nilDeref(s *State, in ssa.Instruction, x *Val) []*State {
	s.note(instrPos(in), "nil pointer dereferenced")
	r.emit(s, &Event{Kind: EvNilDeref, Instr: in, Val: x})
	s.Panic = true
	s.top().unwind = true
	return []*State{s}
}

func (r *Run) zeroMem(s *State, in ssa.Instruction, addr *Val, t types.Type, depth int) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		if st.NumFields() <= 16 && depth < 3 && !isLockType(t) {
			for i := 0; i < st.NumFields(); i++ {
				fa := r.in.mk(Val{Op: "field&", Args: []*Val{addr}, Idx: i, Field: st.Field(i), Typ: types.NewPointer(st.Field(i).Type())})
				r.zeroMem(s, in, fa, st.Field(i).Type(), depth+1)
			}
		}
		return
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return
	}
	s.Mem[addr.Key] = memEnt{addr, r.zero(t)}
}

func (r *Run) conv(s *State, in ssa.Instruction, x *Val, t types.Type) *Val {
	if x.isNil() {
		return x
	}
	if x.Op == "const" {
		if b, ok := t.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 && x.C.Kind() == constant.Int {
				if n, ok := constant.Int64Val(x.C); ok {
					lo, hi := typeRange(t, r.P)
					if n >= lo && n <= hi {
						return r.constVal(x.C, t)
					}
				}
			} else if b.Info()&types.IsString != 0 && x.C.Kind() == constant.String {
				return r.constVal(x.C, t)
			}
		}
	}
	if x.Typ != nil && types.Identical(x.Typ, t) {
		return x
	}
	if x.Op == "struct" {
		n := *x
		n.Typ = t
		n.depth, n.leafs, n.Key = 0, nil, ""
		return r.in.mk(n)
	}
	return r.functional(s, in, Val{Op: "conv", Args: []*Val{x}, Typ: t})
}

func (r *Run) binop(s *State, in ssa.Instruction, op token.Token, x, y *Val, t types.Type) *Val {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		v := r.in.mk(Val{Op: "bin", Idx: int(op), Args: []*Val{x, y}, Typ: t})
		if b, k := s.truth(v); k {
			return r.constVal(constant.MakeBool(b), t)
		}
		if v.fdepth > r.maxF()+2 {
			return r.leaf(s, in, "", "sym", t)
		}
		return v
	}
	if x.Op == "const" && y.Op == "const" && x.C.Kind() == y.C.Kind() {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			c := constant.BinaryOp(x.C, op, y.C)
			if n, ok := constant.Int64Val(c); x.C.Kind() != constant.Int || ok {
				lo, hi := typeRange(t, r.P)
				if x.C.Kind() != constant.Int || n >= lo && n <= hi {
					return r.constVal(c, t)
				}
			}
		case token.QUO:
			if n, ok := y.int64(); ok && n != 0 && x.C.Kind() == constant.Int {
				return r.constVal(constant.BinaryOp(x.C, token.QUO_ASSIGN, y.C), t)
			}
		}
	}
	// x + 0, x - 0
	if n, ok := y.int64(); ok && n == 0 && (op == token.ADD || op == token.SUB) {
		return x
	}
	// (x + c1) + c2
	if op == token.ADD || op == token.SUB {
		if c2, ok := y.int64(); ok && x.Op == "bin" {
			xop := token.Token(x.Idx)
			if c1, ok := x.Args[1].int64(); ok && (xop == token.ADD || xop == token.SUB) {
				if xop == token.SUB {
					c1 = -c1
				}
				if op == token.SUB {
					c2 = -c2
				}
				return r.binop(s, in, token.ADD, x.Args[0], r.constVal(constant.MakeInt64(c1+c2), t), t)
			}
		}
		// constants to the right
		if op == token.ADD && x.isConst() && !y.isConst() && isIntVal(y) {
			x, y = y, x
			if isZero(y) {
				return x
			}
		}
		if n, ok := y.int64(); ok && n < 0 && op == token.ADD && t != nil && isWideInt(t) {
			return r.functional(s, in, Val{Op: "bin", Idx: int(token.SUB), Args: []*Val{x, r.constVal(constant.MakeInt64(-n), t)}, Typ: t})
		}
	}
	return r.functional(s, in, Val{Op: "bin", Idx: int(op), Args: []*Val{x, y}, Typ: t})
}

func (r *Run) typeAssert(s *State, in *ssa.TypeAssert) []*State {
	a := s.top()
	x := r.val(s, in.X)
	toIface := types.IsInterface(in.AssertedType)
	decided, ok := false, false
	var v *Val
	if x.Op == "iface" {
		decided = true
		if toIface {
			ok = types.Implements(x.Typ, in.AssertedType.Underlying().(*types.Interface))
			v = x
		} else {
			ok = types.Identical(x.Typ, in.AssertedType)
			v = x.Args[0]
		}
	} else if x.isNil() {
		decided, ok = true, false
	}
	if !in.CommaOk {
		r.emit(s, &Event{Kind: EvAssert, Instr: in, Args: []*Val{x}, Cond: decided && ok})
		if decided && ok {
			a.Env[in] = v
		} else if toIface {
			a.Env[in] = x
		} else {
			a.Env[in] = r.functional(s, in, Val{Op: "assert", Args: []*Val{x}, Typ: in.AssertedType})
		}
		return nil
	}
	tup := func(v, ok *Val) { a.Env[in] = r.in.mk(Val{Op: "tuple", Args: []*Val{v, ok}, Typ: in.Type()}) }
	if decided {
		if !ok {
			v = r.zero(in.AssertedType)
		}
		tup(v, r.boolVal(ok))
		return nil
	}
	okv := r.functional(s, in, Val{Op: "assertok", Args: []*Val{x}, Typ: in.AssertedType})
	okb := r.in.mk(Val{Op: "field", Args: []*Val{okv}, Idx: 0, Field: okField, Typ: types.Typ[types.Bool]})
	if b, k := s.truth(okb); k {
		if b {
			if toIface {
				v = x
			} else {
				v = r.functional(s, in, Val{Op: "assert", Args: []*Val{x}, Typ: in.AssertedType})
			}
		} else {
			v = r.zero(in.AssertedType)
		}
		tup(v, r.boolVal(b))
		return nil
	}
	// fork now, so that the value is exact in either case
	t := s.clone()
	if toIface {
		v = x
	} else {
		v = r.functional(s, in, Val{Op: "assert", Args: []*Val{x}, Typ: in.AssertedType})
	}
	s.addFact("true", okb, nil, true)
	tup(v, r.boolVal(true))
	s.note(instrPos(in), x.String()+" is a "+typeName(in.AssertedType))
	if !s.NonNil(x) {
		p, q := order(x, r.nilVal)
		s.addFact("eq", p, q, false)
	}
	a = t.top()
	t.addFact("true", okb, nil, false)
	a.Env[in] = r.in.mk(Val{Op: "tuple", Args: []*Val{r.zero(in.AssertedType), r.boolVal(false)}, Typ: in.Type()})
	t.note(instrPos(in), x.String()+" is not a "+typeName(in.AssertedType))
	return []*State{s, t}
}

var okField = types.NewField(token.NoPos, nil, "ok", types.Typ[types.Bool], false)

func (r *Run) doSelect(s *State, in *ssa.Select) []*State {
	var cases []selCase
	for _, st := range in.States {
		c := selCase{Send: st.Dir == types.SendOnly, Chan: r.val(s, st.Chan)}
		if c.Send {
			c.Val = r.val(s, st.Send)
		}
		cases = append(cases, c)
	}
	n := len(cases)
	var choices []int
	for i := range cases {
		// a nil channel is never ready
		if s.IsNil(cases[i].Chan) {
			continue
		}
		choices = append(choices, i)
	}
	if !in.Blocking {
		choices = append(choices, -1)
	}
	var out []*State
	_ = n
	for _, c := range choices {
		t := s.clone()
		a := t.top()
		tt := in.Type().(*types.Tuple)
		vs := make([]*Val, tt.Len())
		vs[0] = r.constVal(constant.MakeInt64(int64(c)), types.Typ[types.Int])
		vs[1] = r.boolVal(false)
		k := 2
		ev := &Event{Kind: EvSelect, Instr: in, Cases: cases, Chosen: c, Block: in.Blocking}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if i == c {
					l := r.leaf(t, in, fmt.Sprintf("c%d", i), "selrecv", types.NewTuple(types.NewVar(0, nil, "", tt.At(k).Type()), types.NewVar(0, nil, "", types.Typ[types.Bool])), r.val(t, st.Chan))
					vs[k] = r.in.mk(Val{Op: "ext", Args: []*Val{l}, Idx: 0, Typ: tt.At(k).Type()})
					vs[1] = r.in.mk(Val{Op: "ext", Args: []*Val{l}, Idx: 1, Typ: types.Typ[types.Bool]})
					if r.P.neverClosed(t.chanID(r.val(t, st.Chan))) {
						vs[1] = r.boolVal(true)
					}
					ev.Val = vs[k]
				} else {
					vs[k] = r.zero(tt.At(k).Type())
				}
				k++
			}
		}
		for i, st := range in.States { // renaming may have touched the operands
			ev.Cases = append([]selCase{}, ev.Cases...)
			ev.Cases[i].Chan = r.val(t, st.Chan)
			if st.Dir == types.SendOnly {
				ev.Cases[i].Val = r.val(t, st.Send)
			}
		}
		a.Env[in] = r.in.mk(Val{Op: "tuple", Args: vs, Typ: in.Type()})
		if c >= 0 {
			t.note(instrPos(in), "select takes "+cases[c].Chan.String())
			ev.Chan = ev.Cases[c].Chan
		} else {
			t.note(instrPos(in), "select takes default")
		}
		r.emit(t, ev)
		if in.Blocking {
			r.havoc(t, true)
		}
		out = append(out, t)
	}
	return out
}

// --- reports -----------------------------------------------------------------

func newViolations() *Violations { return &Violations{m: map[string]*Violation{}} }

func (v *Violations) add(x *Violation, key string) {
	if old, ok := v.m[key]; ok {
		if len(x.Trace) < len(old.Trace) {
			*old = *x
		}
		return
	}
	v.m[key] = x
	v.order = append(v.order, key)
}

// Report records a violation found in state s at e.
func (s *State) Report(rule string, e *Event, format string, args ...interface{}) {
	s.ReportAt(rule, e.Pos(), e.Frame, format, args...)
}

func (s *State) ReportAt(rule string, pos token.Pos, f *Frame, format string, args ...interface{}) {
	r := s.run
	var tr []string
	if f != nil {
		var chain []string
		for x := f; x != nil; x = x.Parent {
			at := ""
			if x.Site != nil {
				at = " called at " + r.P.pos(instrPos(x.Site))
			}
			chain = append(chain, x.Fn.String()+at)
		}
		tr = append(tr, "call chain:")
		tr = append(tr, chain...)
	}
	var path []string
	for t := s.tr; t != nil && len(path) < 40; t = t.prev {
		path = append(path, "  "+r.P.pos(t.pos)+": "+t.note)
	}
	tr = append(tr, "path (latest first):")
	tr = append(tr, path...)
	r.Vio.add(&Violation{Rule: rule, Pos: pos, Msg: fmt.Sprintf(format, args...), Root: r.Root, Trace: tr}, rule+"@"+r.P.pos(pos))
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if len(f) > len(p.Dir) && f[:len(p.Dir)] == p.Dir {
		f = f[len(p.Dir)+1:]
	}
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

func sortVals(vs []*Val) { sort.Slice(vs, func(i, j int) bool { return vs[i].Key < vs[j].Key }) }

// sig identifies what a spawned function runs with, independently of where it was found.
func (sp *Spawn) sig() string {
	id := fmt.Sprintf("%p/%s/%s", sp.Fn, sp.Kind, sp.Ctx)
	for _, b := range sp.Bindings {
		id += "," + b.Key
	}
	for _, a := range sp.Call.args {
		id += "/" + a.Key
	}
	for _, k := range sortedKeys(sp.Mem) {
		id += ";" + k + "=" + sp.Mem[k].val.Key
	}
	return id
}

// maxF is how deep pure functions are nested in values.
func (r *Run) maxF() int {
	if r.cfg.Depth > maxDepth {
		return maxFDepth * 2
	}
	return maxFDepth
}
