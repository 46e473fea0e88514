package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Lockset analysis per field of every shared struct (and of the contents of its maps and request headers): all accesses "+
		"after construction, on all paths of all entry points, goroutines and escaping function values, must have one lock of the same "+
		"object in common, held for writing by writes; fields of shared structs without a lock are never stored after construction; "+
		"fields accessed atomically are never accessed plainly; variables captured by a goroutine are not written concurrently.", runC01)
}

// access is one read or write of a field (or of the contents of the map it holds).
type access struct {
	write bool
	locks map[string]string // lock (relative to the object) -> mode
	v     *Violation
	pos   string
	gopub string // the object is otherwise only reachable from this goroutine
	root  string
	elem  bool
}

// sharedStruct reports whether objects of type t are shared between goroutines: t carries a lock, a channel or another
// synchronisation object, implements Conn or a transport, or embeds a pointer to such a struct.
func (c *Check) sharedStruct(t types.Type, depth int) bool {
	p := c.P
	n := namedOf(t)
	if n == nil || depth > 3 {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if _, mine := p.ssaOf[n.Obj().Pkg()]; !mine {
		return false
	}
	// decoders belong to the one reader of their session, encoders to all that emit
	if it := p.rootType("Decoder"); it != nil && implements(n, it) {
		return false
	}
	if c.encoder(n) {
		return true
	}
	for _, i := range []string{"Conn", "Acceptor", "Dialer"} {
		if it := p.engineType(i); it != nil && implements(n, it) {
			return true
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ft := f.Type()
		if _, ok := ft.Underlying().(*types.Chan); ok {
			return true
		}
		if m := namedOf(ft); m != nil && m.Obj().Pkg() != nil {
			if pp := m.Obj().Pkg().Path(); (pp == "sync" || pp == "sync/atomic") && !isPtr(ft) {
				return true
			}
		}
		if f.Embedded() && c.sharedStruct(ft, depth+1) {
			return true
		}
	}
	return false
}

// encoder reports whether t implements Encoder.
func (c *Check) encoder(t types.Type) bool {
	it := c.P.rootType("Encoder")
	return it != nil && implements(t, it)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func runC01(c *Check) {
	p := c.P
	acc := map[string][]access{} // by field
	atomics := map[string]bool{}
	ctor := c.initPhase()
	encFields := map[string]bool{}
	encoding := true // encoders are only used with a lock of their connection held
	var cur string
	record := func(s *State, e *Event, addr *Val, write, elem bool, what string) {
		base := addr.Args[0]
		owner := ownerOf(addr)
		if owner == nil || !c.sharedStruct(owner, 0) {
			return
		}
		f := addr.Field
		if _, ok := f.Type().Underlying().(*types.Signature); ok {
			return // hooks are set up before serving
		}
		if isSyncType(f.Type()) {
			return
		}
		if b := rootOf(addr); b.Op == "alloc" && b.Age == 0 && !s.SetHas("pub", b) && !inherited(s, b) {
			if !s.SetHas("gopub", b) {
				c.count("accesses during construction")
				return
			}
		}
		if write && !elem && ctor(s, e) {
			c.count("accesses during construction")
			return
		}
		a := access{write: write, elem: elem, locks: map[string]string{}, pos: p.pos(e.Pos()), root: cur}
		if b := rootOf(addr); b.Op == "alloc" {
			if g := s.Get("gopub#" + b.Key); g != nil && !s.SetHas("pub", b) {
				a.gopub = goPubName[b.Key]
			}
		}
		for _, m := range []string{"R", "W"} {
			for _, l := range s.SetVals(m) {
				if l.Op == "field&" && l.Args[0] == base {
					a.locks[l.Field.Name()] = m
				} else {
					a.locks["other "+lockClass(l)+" of "+relTo(l, base)] = m
				}
			}
		}
		acc[fieldName(owner, f, elem)] = append(acc[fieldName(owner, f, elem)], a)
		if c.encoder(owner) {
			encFields[fieldName(owner, f, elem)] = true
		}
		k := &acc[fieldName(owner, f, elem)][len(acc[fieldName(owner, f, elem)])-1]
		w := "read"
		if write {
			w = "written"
		}
		vio := s.run.Vio
		s.run.Vio = newViolations()
		s.Report("unguarded-access", e, "%s is %s %s", strings.TrimSuffix(fieldName(owner, f, elem), "[]"), w, what)
		k.v = s.run.Vio.m[s.run.Vio.order[0]]
		s.run.Vio = vio
		c.site("accesses to shared fields", e)
	}
	// mapField finds the field a map value was loaded from
	mapField := func(s *State, m *Val) *Val {
		m = m.strip()
		if m == nil || s.SetHas("detached", m) || isNamed(m.Typ, "net/http", "Header") {
			return nil // request headers are governed by headerAccess
		}
		if m.Op == "load" && len(m.Args) > 0 && m.Args[0].Op == "field&" {
			return m.Args[0]
		}
		for _, k := range sortedKeys(s.Mem) { // made here and stored since
			if en := s.Mem[k]; en.val == m && en.addr.Op == "field&" {
				return en.addr
			}
		}
		return nil
	}
	isMap := func(t types.Type) bool {
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Map)
		return ok
	}
	mine := func(t types.Type) bool { // the fields of its own structs are followed
		n := namedOf(t)
		if n == nil {
			return false
		}
		_, is := p.ssaOf[n.Obj().Pkg()]
		return is
	}
	cfg := &Config{Name: "lockset", Opaque: p.engineOpaque}
	cfg.OnEvent = func(s *State, e *Event) {
		cur = s.rootFn().String()
		p.trackLocks(s, e)
		switch e.Kind {
		case EvLoad, EvStore:
			if e.Kind == EvLoad && len(p.loadUses(e.Instr)) == 0 {
				return
			}
			if e.Addr.Op == "field&" {
				if e.Kind == EvStore && isMap(deref(e.Addr.Typ)) {
					// the map replaced is no longer shared if it is replaced under the lock
					if heldOn(s, e.Addr.Args[0]) == "W" {
						for _, en := range s.Mem {
							if en.addr == e.Addr {
								s.SetAdd("detached", en.val)
							}
						}
					}
				}
				if n := ownerOf(e.Addr); n != nil && atomics[fieldName(n, e.Addr.Field, false)] {
					c.count("plain accesses of atomic fields")
				}
				record(s, e, e.Addr, e.Kind == EvStore, false, "")
			} else if e.Addr.Op == "param" || e.Addr.Op == "global" {
				if e.Kind == EvStore && e.Addr.Op == "global" && s.rootFn().Synthetic == "" {
					s.Report("global-written", e, "package variable %s is written after initialisation", e.Addr.Glob.Name())
				}
			}
		case EvLookup:
			if a := mapField(s, e.Args[0]); a != nil {
				record(s, e, a, false, true, "(lookup in its contents)")
			}
		case EvMapUpdate, EvMapDelete:
			if a := mapField(s, e.Args[0]); a != nil {
				record(s, e, a, true, true, "(its contents are updated)")
			}
			if e.Kind == EvMapUpdate {
				publishInto(s, e.Args[2])
			}
		case EvBuiltin:
			if e.Builtin == "len" && len(e.Args) > 0 && isMap(e.Args[0].Typ) {
				if a := mapField(s, e.Args[0]); a != nil {
					record(s, e, a, false, true, "(its size)")
				}
			}
		case EvSend:
			publish(s, e.Val, "pub")
		case EvSelect:
			if e.Chosen >= 0 && e.Cases[e.Chosen].Send {
				publish(s, e.Cases[e.Chosen].Val, "pub")
			}
		case EvGo:
			for _, x := range e.Args {
				goPublish(s, x, e)
			}
			if e.Recv != nil {
				goPublish(s, e.Recv, e)
			}
			if mc, ok := goClosure(e.Instr); ok {
				for _, b := range mc.Bindings {
					if v, ok := s.top().Env[b]; ok {
						goPublish(s, v, e)
						// what the captured variable holds
						if en, ok := s.Mem[v.Key]; ok {
							goPublish(s, en.val, e)
						}
					}
				}
			}
		case EvCall:
			if e.Inlined {
				return
			}
			if e.Name() == "Encode" && e.Recv != nil && e.Recv.Typ != nil && c.encoder(e.Recv.Typ) {
				c.site("uses of encoders", e)
				held := false
				for _, l := range s.SetVals("W") {
					if l.Op != "field&" {
						continue
					}
					if _, b := fieldLoad(e.Recv.strip()); b == l.Args[0] {
						held = true
					} else if st, ok := deref(l.Args[0].Typ).Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							v := s.fieldNow(l.Args[0], st.Field(i))
							held = held || v != nil && v.strip() == e.Recv.strip()
						}
					}
				}
				encoding = encoding && held
			}
			// fields whose address is passed along
			for _, a := range append([]*Val{e.Recv}, e.Args...) {
				if a = a.strip(); a != nil && a.Op == "field&" && !isSyncType(deref(a.Typ)) && !pkgCall(e, "sync/atomic") && !mine(deref(a.Typ)) {
					record(s, e, a, true, false, "(its address is passed to "+e.Name()+")")
				}
			}
			// atomics
			if pkgCall(e, "sync/atomic") && e.Recv == nil && len(e.Args) > 0 && e.Args[0].Op == "field&" {
				if n := ownerOf(e.Args[0]); n != nil {
					atomics[fieldName(n, e.Args[0].Field, false)] = true
					c.site("atomic accesses", e)
				}
			}
			c.headerAccess(s, e)
		}
	}
	// ranging over a map reads its contents at every step
	cfg.OnEvent = withRange(cfg.OnEvent, func(s *State, e *Event, m *Val) {
		if a := mapField(s, m); a != nil {
			record(s, e, a, false, true, "(ranging over its contents)")
		}
	})
	// each package on its own: the other's functions are roots of their own
	for _, pkg := range []*types.Package{p.Engine, p.Root} {
		pkg := pkg
		one := *cfg
		one.Opaque = func(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
			return p.engineOpaque(fn, meth, recv) || fn != nil && pkgOf(fn) != nil && pkgOf(fn) != pkg && (pkgOf(fn) == p.Engine || pkgOf(fn) == p.Root)
		}
		c.explore(&one, p.entryPoints(pkg), []*types.Package{pkg})
	}
	// plain accesses of atomic fields
	for _, f := range sortedKeys(atomics) {
		for _, a := range acc[f] {
			a.v.Msg = f + " is accessed atomically elsewhere; " + a.v.Msg
			a.v.Rule = "plain-atomic"
			c.Vio.add(a.v, "plain-atomic@"+a.pos)
		}
	}
	goRoots := map[string]map[string]bool{} // fields accessed by each goroutine root
	for f, as := range acc {
		for _, a := range as {
			if goRoots[a.root] == nil {
				goRoots[a.root] = map[string]bool{}
			}
			goRoots[a.root][f] = true
		}
	}
	for _, f := range sortedKeys(acc) {
		if encFields[f] && encoding {
			continue
		}
		var as []access
		for _, a := range acc[f] {
			if a.gopub != "" && !goRoots[a.gopub][f] {
				continue // construction: the only other goroutine with the object does not use the field
			}
			as = append(as, a)
		}
		written := false
		for _, a := range as {
			written = written || a.write
		}
		if !written {
			c.siteAt("fields constant after construction", f, "")
			continue
		}
		// the lock most accesses hold
		n := map[string]int{}
		for _, a := range as {
			for l, m := range a.locks {
				if m == "W" || !a.write {
					n[l]++
				}
			}
		}
		best := ""
		var ls []string
		for l := range n {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			if best == "" || n[l] > n[best] {
				best = l
			}
		}
		if best != "" && n[best] == len(as) {
			c.siteAt("fields guarded", f+" by "+best, "")
			continue
		}
		for _, a := range as {
			m, ok := a.locks[best]
			if ok && (m == "W" || !a.write) {
				continue
			}
			v := *a.v
			if best == "" {
				v.Msg += " without any lock, and is written after construction"
			} else if ok {
				v.Msg += " with " + best + " held for reading only"
			} else {
				v.Msg += " without " + best + ", which guards it elsewhere"
			}
			c.Vio.add(&v, "unguarded@"+a.pos+f)
		}
	}
	c.capturedVars()
	c.need("accesses to shared fields", 40)
	c.need("fields guarded", 8)
	c.need("header accesses", 3)
}

func fieldName(n *types.Named, f *types.Var, elem bool) string {
	s := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name()
	if elem {
		s += "[]"
	}
	return s
}

// relTo describes lock l relative to the object at base.
func relTo(l, base *Val) string {
	o := l
	if l.Op == "field&" {
		o = l.Args[0]
	}
	if base.has(o) {
		return "its owner"
	}
	return o.Key
}

func isSyncType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic") && !isPtr(t)
}

// --- publication --------------------------------------------------------------

var goPubName = map[string]string{}

// publish marks the objects reachable from v as shared.
func publish(s *State, v *Val, set string) {
	seen := map[*Val]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		for x := v; x != nil; {
			if x.Op == "alloc" {
				s.SetAdd(set, x)
				for _, k := range sortedKeys(s.Mem) {
					if e := s.Mem[k]; rootOf(e.addr) == x {
						walk(e.val)
					}
				}
			}
			if len(x.Args) == 0 || x.Op != "field&" && x.Op != "index&" && x.Op != "conv" && x.Op != "iface" && x.Op != "slice" {
				break
			}
			x = x.Args[0]
		}
	}
	walk(v)
}

// publishInto: values put into maps stay private until the map's lock is released by the construction protocol; the
// session table is keyed by an unguessable id, hence nobody can look a new session up before it is announced.
func publishInto(s *State, v *Val) {}

func goPublish(s *State, v *Val, e *Event) {
	before := map[string]bool{}
	for _, x := range s.SetVals("gopub") {
		before[x.Key] = true
	}
	publish(s, v, "gopub")
	name := ""
	if e.Fn != nil {
		name = e.Fn.String()
	}
	for _, x := range s.SetVals("gopub") {
		if before[x.Key] {
			if goPubName[x.Key] != name {
				s.SetAdd("pub", x)
			}
			continue
		}
		goPubName[x.Key] = name
	}
}

// inherited: b was allocated by the function that started the goroutine or made the function value explored now.
func inherited(s *State, b *Val) bool {
	sp := s.run.CurSpawn
	if sp == nil {
		return false
	}
	if sp.owns == nil {
		sp.owns = map[*Val]bool{}
		var walk func(v *Val, depth int)
		walk = func(v *Val, depth int) {
			if v == nil || depth > 8 || sp.owns[v] {
				return
			}
			if v.Op == "alloc" {
				sp.owns[v] = true
				if en, ok := sp.Mem[v.Key]; ok {
					walk(en.val, depth+1)
				}
			}
			for _, a := range v.Args {
				walk(a, depth+1)
			}
		}
		for _, v := range sp.Bindings {
			walk(v, 0)
		}
		for _, en := range sp.Mem {
			walk(en.val, 0)
		}
	}
	return sp.owns[b]
}

func goClosure(in ssa.Instruction) (*ssa.MakeClosure, bool) {
	g, ok := in.(*ssa.Go)
	if !ok {
		return nil, false
	}
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	return mc, ok
}

// --- request headers -----------------------------------------------------------

// headerAccess checks the request headers of connections: they are read and written under their session's lock.
func (c *Check) headerAccess(s *State, e *Event) {
	p := c.P
	so := p.engineType("Socket")
	if p.methodOn(e, p.engineType("Conn"), "copyHeaderFrom") {
		c.site("header accesses", e)
		if m, _ := heldClass(s, so); m != "W" {
			s.Report("unguarded-header", e, "request headers are copied to a session's transport without its lock held for writing")
		}
		return
	}
	if !pkgCall(e, "net/http") || e.Recv == nil || !isNamed(e.Recv.Typ, "net/http", "Header") {
		return
	}
	h := e.Recv.strip()
	if h.Op != "call" || h.Meth == nil || h.Meth.Name() != "httpHeader" || len(h.Args) == 0 || !p.isSessionConn(h.Args[0]) {
		return
	}
	_, base := fieldLoad(h.Args[0])
	c.site("header accesses", e)
	switch e.Meth.Name() {
	case "Set", "Add", "Del":
		if heldOn(s, base) != "W" {
			s.Report("unguarded-header", e, "a session's request header is written without its lock held for writing")
		}
	default:
		if heldOn(s, base) == "" {
			s.Report("unguarded-header", e, "a session's request header is read without its lock")
		}
	}
}

// --- construction in callbacks ---------------------------------------------------

// initPhase recognises the set-up functions a client hands to Dial, which run before any packet is handled (C11).
func (c *Check) initPhase() func(s *State, e *Event) bool {
	p := c.P
	dial := p.function(p.Engine, "Dial")
	fns := map[*ssa.Function]bool{}
	var mark func(v ssa.Value, depth int)
	mark = func(v ssa.Value, depth int) {
		switch v := v.(type) {
		case *ssa.MakeClosure:
			fns[v.Fn.(*ssa.Function)] = true
		case *ssa.Function:
			fns[v] = true
		case *ssa.ChangeType:
			mark(v.X, depth+1)
		case *ssa.Slice:
			mark(v.X, depth+1)
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok {
							mark(st.Val, depth+1)
						}
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && dial != nil && call.Call.Value == dial {
					for _, a := range call.Call.Args {
						mark(a, 0)
					}
				}
			}
		}
	}
	return func(s *State, e *Event) bool {
		for f := e.Frame; f != nil; f = f.Parent {
			if fns[f.Fn] {
				return true
			}
			// a method of the module only called by set-up functions
			if f.Parent == nil && c.onlyCalledBy(f.Fn, fns) {
				return true
			}
		}
		return false
	}
}

func (c *Check) onlyCalledBy(fn *ssa.Function, fns map[*ssa.Function]bool) bool {
	n := 0
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var buf [16]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					if *op == fn {
						if !fns[g] {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n > 0 && fn.Object() != nil && !fn.Object().Exported()
}

// --- captured variables ------------------------------------------------------------

// capturedVars checks variables captured by goroutines: one that is stored by the goroutine is not otherwise accessed
// once it runs, and one the goroutine reads is not stored once it runs.
func (c *Check) capturedVars() {
	p := c.P
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mc, ok := goClosure(in)
				if !ok {
					continue
				}
				for i, bind := range mc.Bindings {
					al, ok := bind.(*ssa.Alloc)
					if !ok {
						continue
					}
					c.siteAt("variables captured by goroutines", p.pos(in.Pos())+" "+al.Comment, "")
					inW, inR := cellUse(mc.Fn.(*ssa.Function).FreeVars[i], 0)
					after := reachableAfter(in, al)
					for _, r := range *al.Referrers() {
						blk := r.Block()
						if blk == nil || !after(r) {
							continue
						}
						outW, outR := false, false
						switch r := r.(type) {
						case *ssa.Store:
							outW = r.Addr == al
						case *ssa.UnOp:
							outR = true
						case *ssa.MakeClosure:
							if r == mc {
								continue
							}
							for j, bb := range r.Bindings {
								if bb == al {
									outW, outR = cellUse(r.Fn.(*ssa.Function).FreeVars[j], 0)
								}
							}
						}
						if inW && (outR || outW) || inR && outW {
							c.fail("captured-variable", p.pos(instrPos(r)), "variable %s is accessed here and by the goroutine started at %s, one of them writing", al.Comment, p.pos(in.Pos()))
						}
					}
				}
			}
		}
	}
}

func cellUse(v *ssa.FreeVar, depth int) (w, r bool) {
	if depth > 4 {
		return true, true
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			w = true
		case *ssa.UnOp:
			r = r || u.Op == token.MUL
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == v {
					a, bb := cellUse(u.Fn.(*ssa.Function).FreeVars[i], depth+1)
					w, r = w || a, r || bb
				}
			}
		}
	}
	return
}

// reachableAfter reports which instructions can run after in without al being allocated anew.
func reachableAfter(in ssa.Instruction, al *ssa.Alloc) func(ssa.Instruction) bool {
	reach := map[*ssa.BasicBlock]bool{}
	blk := in.Block()
	idx := func(x ssa.Instruction) int {
		for i, y := range x.Block().Instrs {
			if y == x {
				return i
			}
		}
		return -1
	}
	stack := append([]*ssa.BasicBlock{}, blk.Succs...)
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if reach[b] {
			continue
		}
		reach[b] = true
		if b == al.Block() {
			continue // allocated anew below
		}
		stack = append(stack, b.Succs...)
	}
	return func(x ssa.Instruction) bool {
		if x.Block() == blk && idx(x) > idx(in) {
			return true
		}
		if reach[x.Block()] {
			if x.Block() == al.Block() {
				return idx(x) < idx(al)
			}
			return x.Block() != blk || reach[blk]
		}
		return false
	}
}

// loadUses lists what uses a loaded value (a discarded load, as Go makes for struct copies, is no access).
func (p *Prog) loadUses(in ssa.Instruction) []ssa.Instruction {
	if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
		return *v.Referrers()
	}
	return nil
}

// withRange calls f at every step of a range over a map.
func withRange(on func(*State, *Event), f func(s *State, e *Event, m *Val)) func(*State, *Event) {
	return func(s *State, e *Event) {
		on(s, e)
		if e.Kind == EvNext {
			f(s, e, e.Args[0])
		}
	}
}

var _ = fmt.Sprint
