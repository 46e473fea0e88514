package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Every path that makes a callback: it returns only if the value is a function that is not nil, having looked at the kind of each parameter; every path that calls one: "+
		"with the values decoded for exactly its parameters, the socket in each socket parameter, CallSlice for variadic functions; every path that decodes arguments: one value for each, "+
		"of its type; every path on which users emit: nothing is sent to a namespace not found among those joined.",
		func(c *Check) { c.callbackTypeRules() })
}

var badKinds = []reflect.Kind{reflect.Chan, reflect.Func, reflect.UnsafePointer}

// socketVar returns the package variable that holds the reflect.Type of interface Socket.
func (x *sio) isSocketType(v *Val) bool {
	v = v.strip()
	if v == nil {
		return false
	}
	if v.Op == "gval" && v.Glob != nil && v.Glob.Pkg != nil {
		init := v.Glob.Pkg.Func("init")
		if init == nil {
			return false
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == v.Glob {
					return x.socketTypeExpr(st.Val)
				}
			}
		}
		return false
	}
	// reflect.TypeOf((*Socket)(nil)).Elem()
	if isCallOf(v, "reflect", "Elem") && isCallOf(v.Args[0].strip(), "reflect", "TypeOf") {
		a := v.Args[0].strip().Args[0].strip()
		for a.Op == "conv" || a.Op == "iface" {
			if a.Args[0].Typ != nil && types.Identical(deref(a.Args[0].Typ), x.p.rootType("Socket")) {
				return true
			}
			a = a.Args[0].strip()
		}
	}
	return false
}

func (x *sio) socketTypeExpr(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok || !call.Call.IsInvoke() || call.Call.Method.Name() != "Elem" {
		return false
	}
	in, ok := call.Call.Value.(*ssa.Call)
	if !ok || in.Call.StaticCallee() == nil || in.Call.StaticCallee().Name() != "TypeOf" || len(in.Call.Args) != 1 {
		return false
	}
	mi, ok := in.Call.Args[0].(*ssa.MakeInterface)
	return ok && types.Identical(deref(mi.X.Type()), x.p.rootType("Socket"))
}

// socketElem reports whether v is known to be (not to be) the type Socket.
func (x *sio) socketElem(s *State, v *Val) (is, known bool) {
	for _, k := range sortedKeys(s.Facts) {
		f := s.Facts[k]
		if f.op != "eq" {
			continue
		}
		if f.a == v && x.isSocketType(f.b) || f.b == v && x.isSocketType(f.a) {
			return f.val, true
		}
	}
	return false, false
}

// reaches lists the functions of the module fn calls, directly or not.
func (p *Prog) reaches(fn *ssa.Function, what func(name string, recv types.Type) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if o, ok := g.Object().(*types.Func); ok && o.Signature().Recv() != nil && what(o.Name(), o.Signature().Recv().Type()) {
						return true // a bound method
					}
					if p.inModule(g) && visit(g) {
						return true
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					if what(cc.Method.Name(), cc.Value.Type()) {
						return true
					}
				} else if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && what(g.Name(), g.Signature.Recv().Type()) {
					return true
				}
				if g := ci.Common().StaticCallee(); g != nil && p.inModule(g) && visit(g) {
					return true
				}
			}
		}
		return false
	}
	return visit(fn)
}

func (c *Check) callbackTypeRules() {
	x := c.newSio()
	if x == nil {
		return
	}
	typesT := types.NewSlice(c.P.reflectType())
	fArgs := fieldOfType(x.cbT, typesT)
	if fArgs == nil {
		c.undecided("the field of %s for the types of parameters was not found", x.cbT)
		return
	}
	c.madeRules(x, fArgs)
	c.callRules(x, fArgs)
	for _, d := range x.decoders() {
		c.argRules(x, d)
	}
	c.emitRules(x)
}

// reflectType is the type reflect.Type, as package socketio sees it.
func (p *Prog) reflectType() types.Type {
	for _, imp := range p.Root.Imports() {
		if imp.Path() == "reflect" {
			return imp.Scope().Lookup("Type").Type()
		}
	}
	return nil
}

// madeRules checks the functions that make callbacks.
func (c *Check) madeRules(x *sio, fArgs *types.Var) {
	var roots []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg != x.p.Root {
			continue
		}
		makes := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					makes = makes || types.Identical(deref(in.Type()), x.cbT)
				case *ssa.FieldAddr:
					// callbacks are not changed once made
					st := deref(in.X.Type()).Underlying().(*types.Struct)
					if f := st.Field(in.Field); f == fArgs || f == x.fn {
						if _, fresh := in.X.(*ssa.Alloc); !fresh {
							for _, ref := range *in.Referrers() {
								if w, ok := ref.(*ssa.Store); ok && w.Addr == ssa.Value(in) {
									c.fail("changed", c.P.pos(instrPos(w)), "a callback is changed after it was made")
								}
							}
						}
					}
				}
			}
		}
		if makes {
			roots = append(roots, fn)
		}
	}
	cur := cursor{"params"}
	cfg := &Config{Name: "made", Kinds: true, Bounds: true, Depth: 40}
	cfg.OnEvent = func(s *State, e *Event) {
		cur.edge(s, e)
		switch {
		case e.Kind == EvCall && e.Meth != nil && pkgCall(e, "reflect", "IsNil") && e.Recv != nil && e.Res != nil:
			s.SetAdd("nils", s.pair(e.Recv, e.Res))
		case e.Kind == EvCall && e.Meth != nil && pkgCall(e, "reflect", "Kind") && e.Recv != nil && e.Res != nil:
			s.SetAdd("kinds", s.pair(e.Recv, e.Res))
		case e.Kind == EvCall && e.Meth != nil && pkgCall(e, "reflect", "NumIn") && e.Recv != nil && e.Res != nil && !cur.active(s):
			s.Set("type", e.Recv)
			cur.start(s, s.run.in.mk(Val{Op: "make", Leaf: "params", Args: []*Val{e.Res}, Typ: fArgs.Type()}))
		}
		put := func(v, at *Val) {
			v = v.strip()
			if !isCallOf(v, "reflect", "In") || v.Args[0] != s.Get("type") || len(v.Args) != 2 {
				return
			}
			j := v.Args[1]
			if at != nil && at != j {
				if eq, k := s.Eq(at, j); !k || !eq {
					s.Report("parameter", e, "the type of parameter %s is kept as that of parameter %s", j, at)
				}
			}
			if at == nil && !cur.active(s) {
				return
			}
			c.site("parameters kept", e)
			el := s.run.in.mk(Val{Op: "index&", Args: []*Val{cur.base(s), j}, Typ: types.NewPointer(c.P.reflectType())})
			if !cur.visit(s, el) {
				s.Report("parameter", e, "the type of a parameter is kept out of order")
			}
			for _, bad := range badKinds {
				if !s.kindIsNot(v, bad) {
					s.Report("kind", e, "a parameter is accepted whose kind may be %s", bad)
				}
			}
		}
		switch {
		case e.Kind == EvStore && e.Addr.Op == "index&" && e.Val != nil:
			if e.Addr.Args[0].Typ != nil && types.Identical(e.Addr.Args[0].Typ.Underlying(), fArgs.Type()) {
				put(e.Val, e.Addr.Args[1])
			}
		case isAppend(e):
			if _, elems, _ := s.appended(e); len(elems) == 1 {
				put(elems[0], nil)
			}
		}
		if !rootExit(e) {
			return
		}
		for _, r := range e.Results {
			r = r.strip()
			if r == nil || r.Op != "alloc" || !types.Identical(deref(r.Typ), x.cbT) {
				continue
			}
			c.site("callbacks made", e)
			v := whole(s.valueIn(r, x.fn))
			switch {
			case v == nil || !isCallOf(v, "reflect", "ValueOf") || v.Args[0].strip().Op != "param":
				s.Report("value", e, "a callback is made of something else than the value given")
				continue
			case !s.kind(v, reflect.Func):
				s.Report("kind", e, "a callback is made of what may be no function")
			}
			nonNil := false
			for _, pr := range s.SetVals("nils") {
				nonNil = nonNil || whole(pr.Args[0]) == v && s.IsFalse(pr.Args[1])
			}
			if !nonNil {
				s.Report("nil", e, "a callback is made of a function that may be nil")
			}
			t := s.Get("type")
			if t == nil || !isCallOf(t, "reflect", "Type") && !isCallOf(t, "reflect", "TypeOf") || whole(t.Args[0]) != v && t.Args[0] != v.Args[0] {
				s.Report("parameter", e, "the parameters kept are not those of the function")
			} else if !cur.done(s) {
				s.Report("parameter", e, "a callback is made without all its parameters having been looked at")
			}
			if a := s.fieldNow(r, fArgs); a == nil {
				s.Report("parameter", e, "a callback is made without the types of its parameters")
			}
		}
	}
	c.explore(cfg, roots, nil)
	c.need("callbacks made", 1)
	c.need("parameters kept", 1)
}

// kindIsNot reports whether the kind of v is known not to be k.
func (s *State) kindIsNot(v *Val, k reflect.Kind) bool {
	v = whole(v)
	for _, pr := range s.SetVals("kinds") {
		if whole(pr.Args[0]) == v {
			if eq, known := s.Eq(pr.Args[1], s.run.constVal(constInt(int64(k)), pr.Args[1].Typ)); known && !eq {
				return true
			}
		}
	}
	return false
}

// callRules checks the functions that call callbacks.
func (c *Check) callRules(x *sio, fArgs *types.Var) {
	var roots []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg != x.p.Root {
			continue
		}
		takes := false
		for _, pr := range fn.Params {
			takes = takes || types.Identical(deref(pr.Type()), x.cbT)
		}
		calls := func(names ...string) func(n string, r types.Type) bool {
			return func(n string, r types.Type) bool {
				for _, m := range names {
					if n == m && (n == "UnmarshalArgs" || isNamed(r, "reflect", "Value")) {
						return true
					}
				}
				return false
			}
		}
		if takes && c.P.reaches(fn, calls("Call", "CallSlice")) && c.P.reaches(fn, calls("UnmarshalArgs")) {
			roots = append(roots, fn)
		}
	}
	cur := cursor{"types"}
	cfg := &Config{Name: "call", Bounds: true, Depth: 40, Opaque: x.p.rootOpaque}
	cfg.OnEvent = func(s *State, e *Event) {
		if e.Kind == EvEdge && e.To.Dominates(e.From) && s.Get("elem") != nil {
			is, known := x.socketElem(s, s.Get("elem"))
			if !s.Flag("filled") && (!known || is) {
				s.Report("socket", e, "a parameter that may be a socket is left without one")
			}
			s.Del("elem")
		}
		cur.edge(s, e)
		if !s.Flag("start") {
			s.SetFlag("start")
			for pr, v := range s.Stack[0].Env {
				if _, ok := pr.(*ssa.Parameter); !ok {
					continue
				}
				switch {
				case types.Identical(deref(pr.Type()), x.cbT):
					s.Set("cb", v)
				case types.Identical(pr.Type(), x.p.rootType("Socket")):
					s.Set("so", v)
				}
			}
		}
		cb, so := s.Get("cb"), s.Get("so")
		in := (*Val)(nil)
		if a := s.Get("args"); a != nil {
			in = s.resOf(a, 0)
		}
		switch {
		case e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == "UnmarshalArgs" && !e.Inlined && e.Res != nil:
			c.site("arguments decoded", e)
			if s.Get("args") != nil {
				s.Report("twice", e, "arguments are decoded twice")
			}
			s.Set("args", e.Res)
			ok := false
			for _, a := range e.Args {
				if types.Identical(a.Typ, fArgs.Type()) {
					f, b := fieldLoad(a)
					ok = f == fArgs && b == cb
					s.Set("typev", a)
				}
			}
			if !ok {
				s.Report("types", e, "arguments are decoded for other types than those of the parameters")
				return
			}
			cur.start(s, s.Get("typev"))
		case e.Kind == EvCall && e.Meth != nil && pkgCall(e, "reflect", "IsVariadic") && e.Recv != nil && e.Res != nil:
			s.SetAdd("variadic", s.pair(e.Recv, e.Res))
		case e.Kind == EvLoad && e.Addr.Op == "index&" && cur.active(s) && e.Val != nil && types.Identical(e.Val.Typ, c.P.reflectType()):
			if cur.visit(s, e.Addr) {
				s.Set("elem", e.Val)
				s.Set("elem.i", e.Addr.Args[1])
				s.Del("filled")
			}
		case e.Kind == EvStore && in != nil && e.Addr.find(func(v *Val) bool { return v == in }) != nil:
			a := e.Addr
			for a.Op == "field&" {
				a = a.Args[0]
			}
			v := whole(e.Val)
			if v != nil && v.Op == "field" {
				v = v.Args[0]
			}
			is, known := false, false
			if el := s.Get("elem"); el != nil {
				is, known = x.socketElem(s, el)
			}
			i := s.Get("elem.i")
			same := a.Op == "index&" && a.Args[0] == in && i != nil && a.Args[1] == i
			if !same && a.Op == "index&" && i != nil {
				eq, k := s.Eq(a.Args[1], i)
				same = k && eq
			}
			if !known || !is || !same || v == nil || !isCallOf(v, "reflect", "ValueOf") || v.Args[0].strip() != so {
				s.Report("socket", e, "an argument is replaced that is not known to be a socket parameter, or not by the socket")
			}
			c.site("sockets passed", e)
			s.SetFlag("filled")
		case e.Kind == EvCall && !e.Inlined && pkgCall(e, "reflect", "Call", "CallSlice") && e.Recv != nil:
			c.site("functions called", e)
			s.SetFlag("called")
			f, b := (*types.Var)(nil), (*Val)(nil)
			if a := loadedFrom(e.Recv); a != nil && a.Op == "field&" {
				f, b = a.Field, a.Args[0]
			}
			if f != x.fn || b != cb || cb == nil {
				s.Report("function", e, "another function is called than that of the callback")
				return
			}
			if in == nil || e.Args[len(e.Args)-1] != in {
				s.Report("arguments", e, "a function is called with other arguments than those decoded")
				return
			}
			if !s.IsNil(s.resOf(s.Get("args"), 1)) {
				s.Report("arguments", e, "a function is called though its arguments may not have been decoded")
			}
			if !cur.done(s) {
				s.Report("socket", e, "a function is called without all its parameters having been looked at for sockets")
			}
			slice, known := false, false
			for _, pr := range s.SetVals("variadic") {
				t := pr.Args[0]
				if isCallOf(t, "reflect", "Type") && loadedFrom(t.Args[0]) == loadedFrom(e.Recv) {
					slice, known = s.IsTrue(pr.Args[1]), s.IsTrue(pr.Args[1]) || s.IsFalse(pr.Args[1])
				}
			}
			if !known || slice != (e.Name() == "CallSlice") {
				s.Report("variadic", e, "%s calls a function not known to be of the right kind", e.Name())
			}
		}
		if rootExit(e) && !s.Flag("called") {
			n := len(e.Results)
			if n == 0 || !s.NonNil(e.Results[n-1]) {
				s.Report("lost", e, "a callback is not called, and no error returned")
			}
		}
	}
	c.explore(cfg, roots, nil)
	c.need("functions called", 1)
	c.need("arguments decoded", 1)
	c.need("sockets passed", 1)
}

// argRules checks what decoders make of arguments.
func (c *Check) argRules(x *sio, d *decoder) {
	m := c.P.method(d.t, "UnmarshalArgs")
	if m == nil {
		c.undecided("%s has no method UnmarshalArgs", d.t)
		return
	}
	made, set := cursor{"made"}, cursor{"set"}
	valT := func(t types.Type) bool { return isNamed(t, "reflect", "Value") }
	cfg := &Config{Name: "decoded", Kinds: true, Bounds: true, Depth: 40}
	cfg.Keep = func(addr *Val) bool { // nobody changes the types of parameters
		return addr.Op == "index&" && types.Identical(deref(addr.Typ), c.P.reflectType())
	}
	cfg.Opaque = func(fn *ssa.Function, meth *types.Func, recv types.Type) bool { return c.P.decodesInto(fn) }
	cfg.OnEvent = func(s *State, e *Event) {
		if !s.Flag("start") {
			s.SetFlag("start")
			for pr, v := range s.Stack[0].Env {
				if _, ok := pr.(*ssa.Parameter); ok && types.Identical(pr.Type(), types.NewSlice(c.P.reflectType())) {
					s.Set("types", v)
					made.start(s, v)
					set.start(s, v)
				}
			}
		}
		ts := s.Get("types")
		if ts == nil {
			s.Report("shape", e, "the parameters of UnmarshalArgs are not known")
			return
		}
		if e.Kind == EvEdge && e.To.Dominates(e.From) && s.Get("elem") != nil {
			el := s.Get("elem")
			is, known := x.socketElem(s, el)
			done := known && is
			if !done && !s.Flag("made.ok") {
				if s.Flag("i.made") && !s.Flag("i.stored") {
					s.Report("left", e, "an argument that may be no socket is left out")
				}
			}
			if !done && s.Flag("i.new") && !s.Flag("i.decoded") {
				s.Report("left", e, "an argument is made that is not decoded")
			}
			if !done && !s.Flag("i.elem") && !s.kind(el, reflect.Ptr) {
				s.SetFlag("set.fail")
			}
			s.Del("elem")
		}
		made.edge(s, e)
		set.edge(s, e)
		// which argument an address, or a value, is about
		argOf := func(a *Val) *Val {
			for a != nil && a.Op == "field&" {
				a = a.Args[0]
			}
			if a == nil || a.Op != "index&" || a.Args[0].Op != "make" || !valT(deref(a.Typ)) {
				return nil
			}
			return a.Args[1]
		}
		cur := func(i *Val) bool {
			j := s.Get("elem.i")
			if i == nil || j == nil {
				return false
			}
			eq, k := s.Eq(i, j)
			return i == j || k && eq
		}
		ptrTo := func(v, el *Val) bool { // a pointer to what el, or what el points to
			v = whole(v)
			if !isCallOf(v, "reflect", "New") {
				return false
			}
			t := v.Args[0].strip()
			return t == el.strip() && s.kindIsNot(el, reflect.Ptr) || isCallOf(t, "reflect", "Elem") && t.Args[0].strip() == el.strip() && s.kind(el, reflect.Ptr)
		}
		switch {
		case e.Kind == EvCall && pkgCall(e, "reflect", "Kind") && e.Recv != nil && e.Res != nil:
			s.SetAdd("kinds", s.pair(e.Recv, e.Res))
		case e.Kind == EvLoad && e.Addr.Op == "index&" && e.Addr.Args[0] == ts && e.Val != nil:
			i := e.Addr.Args[1]
			if cur(i) && s.Get("elem") != nil {
				break
			}
			s.Del("i.made")
			s.Del("i.new")
			s.Del("i.stored")
			s.Del("i.elem")
			s.Del("i.decoded")
			s.Del("new")
			s.Set("elem", e.Val)
			s.Set("elem.i", i)
			if made.visit(s, e.Addr) {
				s.SetFlag("i.made")
			}
			if n, ok := s.num(i); ok && n == 0 {
				set.stop(s)
				set.start(s, ts)
				s.Del("set.fail")
			}
			if !set.visit(s, e.Addr) {
				s.SetFlag("set.fail")
			}
		case e.Kind == EvStore && argOf(e.Addr) != nil && e.Val != nil:
			el := s.Get("elem")
			v := whole(e.Val)
			if v.Op == "field" {
				v = whole(v.Args[0])
			}
			if el == nil || !cur(argOf(e.Addr)) {
				s.Report("place", e, "an argument is stored in another place than its own")
				return
			}
			if is, known := x.socketElem(s, el); !known || is {
				s.Report("socket", e, "a socket parameter is decoded")
			}
			c.site("arguments stored", e)
			switch {
			case ptrTo(v, el):
				if n := s.Get("new"); n != nil && n != v {
					s.Report("place", e, "another value is stored than the one decoded")
				}
				s.SetFlag("i.new")
				s.SetFlag("i.stored")
				s.Set("new", v)
			case isCallOf(v, "reflect", "Elem") && s.kindIsNot(el, reflect.Ptr):
				w := whole(v.Args[0])
				// what an earlier loop has stored was looked at there
				old := !s.Flag("i.new") && isCallOf(w, "reflect", "New") && (w.Args[0].strip() == el || isCallOf(w.Args[0], "reflect", "Elem") && w.Args[0].strip().Args[0].strip() == el)
				if !(w == s.Get("new") && w != nil) && !old && !(loadedFrom(v.Args[0]) != nil && cur(argOf(loadedFrom(v.Args[0])))) {
					s.Report("type", e, "an argument becomes %s", v)
				}
				s.SetFlag("i.elem")
				s.SetFlag("i.stored")
			default:
				s.Report("type", e, "an argument becomes %s, which may not be of its type", v)
			}
		}
		// what gets the data
		n := s.Get("new")
		mine := func(v *Val) bool {
			if v == nil {
				return false
			}
			el := s.Get("elem")
			if n == nil && el != nil {
				v.find(func(y *Val) bool {
					if n == nil && ptrTo(y, el) {
						n = whole(y)
						s.Set("new", n)
						s.SetFlag("i.new")
					}
					return false
				})
			}
			return n != nil && v.find(func(y *Val) bool { return whole(y) == n }) != nil
		}
		switch {
		case e.Kind == EvCall && e.Name() == "UnmarshalBinary" && mine(e.Recv):
			s.SetFlag("i.decoded")
		case e.Kind == EvCall && e.Fn != nil && c.P.decodesInto(e.Fn):
			for _, a := range e.Args {
				if valT(a.Typ) {
					if !mine(a) {
						s.Report("place", e, "data are decoded to another place than that of the argument")
					}
					s.SetFlag("i.decoded")
				}
			}
		case isAppend(e):
			if _, elems, _ := s.appended(e); len(elems) == 1 && mine(elems[0]) {
				s.SetFlag("i.decoded")
				s.SetFlag("collected")
			}
		case e.Kind == EvCall && pkgCall(e, "encoding/json", "Unmarshal"):
			s.SetFlag("json")
		}
		if n != nil && !s.Flag("i.decoded") {
			// no attachment is left
			for _, k := range sortedKeys(s.Facts) {
				if f := s.Facts[k]; f.op == "lt" && !f.val && f.b != nil && f.b.Op == "len" && isZero(f.a) && types.Identical(f.b.Args[0].Typ, types.NewSlice(bytesType)) {
					s.SetFlag("i.decoded")
				}
			}
		}
		if !rootExit(e) || len(e.Results) != 2 {
			return
		}
		if s.NonNil(e.Results[1]) {
			return
		}
		c.site("argument lists returned", e)
		r := e.Results[0].strip()
		size := s.run.lenOf(s, nil, "len", r, types.Typ[types.Int])
		want := s.run.lenOf(s, nil, "len", ts, types.Typ[types.Int])
		if eq, k := s.Eq(size, want); size != want && !(k && eq) {
			s.Report("number", e, "%s arguments are returned for %s parameters", size, want)
		}
		if !made.done(s) || s.Flag("set.fail") || !set.done(s) {
			s.Report("left", e, "arguments are returned of which some may not have been decoded for their parameters")
		}
		if s.Flag("collected") && !s.Flag("json") {
			s.Report("left", e, "arguments are returned that were not decoded")
		}
	}
	c.explore(cfg, []*ssa.Function{m}, nil)
	c.need("argument lists returned", 1)
}

// emitRules checks that users emit to namespaces joined only.
func (c *Check) emitRules(x *sio) {
	x.everywhere("emitted", func(s *State, e *Event) {
		fn := s.rootFn()
		if fn.Name() != "Emit" || fn.Signature.Recv() == nil || !implements(fn.Signature.Recv().Type(), x.p.rootType("Socket")) {
			return
		}
		if q, ok := x.sent(e); ok {
			c.site("events emitted", e)
			s.SetFlag("emitted")
			ns := x.field(s, q, x.fNsp)
			found := false
			for _, pr := range s.SetVals("ack") {
				if eq, k := s.Eq(pr.Args[1], ns); ns != nil && (pr.Args[1] == ns || k && eq) {
					_, present := s.found("ack", s.resOf(pr.Args[0], 0))
					found = found || present
				}
			}
			if !found {
				s.Report("joined", e, "an event is sent to a namespace not known to be joined")
			}
		}
		if rootExit(e) && !s.Flag("emitted") && len(e.Results) > 0 && !s.NonNil(e.Results[len(e.Results)-1]) {
			s.Report("refused", e, "an event is not sent, and no error returned")
		}
	})
	c.need("events emitted", 1)
}
