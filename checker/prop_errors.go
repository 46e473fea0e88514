package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Error discipline on every path of the message handlers and of the functions users call: each error result is known nil, returned, or told to an error hook "+
		"that is set; nothing in them dereferences what may be missing, and no hook is called that is not set.",
		func(c *Check) { c.errorRules() })
}

// errResult is the error a call returns.
func (s *State) errResult(e *Event) *Val {
	if e.Meth == nil || e.Res == nil {
		return nil
	}
	sig, ok := e.Meth.Type().(*types.Signature)
	if !ok || sig.Results().Len() == 0 {
		return nil
	}
	n := sig.Results().Len() - 1
	if !isErrorType(sig.Results().At(n).Type()) {
		return nil
	}
	return s.res(e, n)
}

func (c *Check) errorRules() {
	x := c.newSio()
	if x == nil {
		return
	}
	p := c.P
	clean := func(s *State) {
		for _, v := range s.SetVals("errs") {
			if s.IsNil(v) {
				s.SetDel("errs", v)
			}
		}
	}
	roots := append(x.roots(), x.entries()...)
	for _, n := range []string{"Encoder", "Decoder"} {
		t, ok := p.rootType(n).Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < t.NumMethods(); i++ {
			if m := t.Method(i); m.Name() == "Encode" || m.Name() == "Add" || m.Name() == "ParseData" || m.Name() == "UnmarshalArgs" {
				roots = append(roots, p.impls(p.rootType(n), m.Name())...)
			}
		}
	}
	for _, n := range []string{"MarshalMsg", "EncodeMsg"} {
		if m := p.declared(namedOf(x.pkt), n); m != nil {
			roots = append(roots, m)
		}
	}
	cfg := &Config{Name: "errors", Depth: 40, Keep: x.keep}
	cfg.Opaque = func(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
		return p.rootOpaque(fn, meth, recv) || fn != nil && p.decodesInto(fn) // explored on their own, see C25
	}
	cfg.OnEvent = func(s *State, e *Event) {
		x.track(s, e)
		role := x.role(s)
		handler := role.what != ""
		if e.Kind == EvCall && !e.Inlined && !e.IsDefer && e.Meth != nil {
			if v := s.errResult(e); v != nil && !(handler && e.Name() == "Close") && !x.infallible(e) {
				c.site("errors followed", e)
				clean(s)
				s.SetAdd("errs", v)
			}
		}
		if (e.Kind == EvGo || e.Kind == EvDefer) && e.Meth != nil && e.Meth.Name() != "Close" {
			if sig, ok := e.Meth.Type().(*types.Signature); ok && e.Meth.Pkg() != nil && sig.Results().Len() > 0 &&
				isErrorType(sig.Results().At(sig.Results().Len()-1).Type()) {
				s.Report("dropped", e, "the error of a deferred or concurrent call is dropped")
			}
		}
		if e.Kind == EvEdge && e.To.Dominates(e.From) {
			clean(s)
		}
		if e.Kind == EvLoad && e.Addr.Op == "field&" && (e.Addr.Field == x.onError || x.errHooks[e.Addr.Field]) {
			clean(s)
			for _, v := range s.SetVals("errs") {
				s.SetAdd("tell", s.pair(v, e.Val))
			}
		}
		if f, _ := x.hookCall(e); f != nil {
			c.site("hooks called", e)
			if !s.NonNil(e.FnVal) {
				s.Report("unset", e, "hook %s is called that may not be set", f.Name())
			}
			if f == x.onError || x.errHooks[f] {
				args := e.Args
				if f == x.onError {
					args = nil
					if len(e.Args) > 1 {
						args = s.varargs(e.Args[1])
					}
				}
				for _, a := range args {
					v := a.strip()
					for v.Op == "iface" || v.Op == "conv" {
						v = v.Args[0].strip()
					}
					if isErrorType(v.Typ) && s.IsNil(v) {
						s.Report("spurious", e, "an error hook is told of an error that is known not to have happened")
					}
					s.SetDel("errs", v)
				}
			}
		}
		if handler {
			switch e.Kind {
			case EvNilDeref:
				s.Report("crash", e, "a nil pointer is dereferenced")
			case EvPanic:
				s.Report("crash", e, "the handler panics")
			case EvAssert:
				if !e.Cond {
					s.Report("crash", e, "a type is asserted without being known")
				}
			case EvIndex:
				n := s.run.lenOf(s, nil, "len", e.Args[0], types.Typ[types.Int])
				lo, _ := s.interval(e.Args[1], 0)
				if lt, k := s.Lt(e.Args[1], n); !(k && lt && lo >= 0) && !x.parallel(s, e) {
					s.Report("crash", e, "index %s of %s may be out of range", e.Args[1], e.Args[0])
				}
			case EvLoad, EvStore:
				if e.Addr.Op != "field&" && e.Addr.Op != "load" {
					break
				}
				b := e.Addr
				if b.Op == "field&" {
					b = b.Args[0]
				}
				for _, n := range []string{"nsp", "ack", "cb", "sk"} {
					if pr, present := s.found(n, b); pr != nil && !present && pr.Args[0].Op == "lookup" {
						s.Report("crash", e, "what may not have been found is dereferenced")
					}
				}
				if id := x.orig(s, x.fID); id != nil && e.Addr == id && !s.NonNil(id) {
					s.Report("crash", e, "the id of a packet that may have none is used")
				}
				if pk := s.Get("pk"); pk != nil && b == pk && !s.NonNil(pk) {
					s.Report("crash", e, "a packet is used that may not be there")
				}
			}
		}
		if !rootExit(e) {
			return
		}
		c.site("returns checked", e)
		clean(s)
		var ret *Val
		if n := len(e.Results); n > 0 && e.Results[n-1] != nil {
			sig := s.rootFn().Signature
			if isErrorType(sig.Results().At(sig.Results().Len() - 1).Type()) {
				ret = e.Results[n-1]
			}
		}
		for _, v := range s.SetVals("errs") {
			if ret != nil && (ret == v || s.NonNil(ret)) {
				continue
			}
			told := false
			for _, pr := range s.SetVals("tell") {
				told = told || pr.Args[0] == v && s.IsNil(pr.Args[1])
			}
			if !told {
				s.Report("dropped", e, "the error %s is neither returned nor told to an error hook", v)
			}
		}
	}
	c.explore(cfg, roots, nil)
	c.need("errors followed", 5)
	c.need("hooks called", 5)
}

// infallible: writing to a buffer or a builder never fails.
func (x *sio) infallible(e *Event) bool {
	r := e.Recv
	if r == nil || r.Typ == nil {
		return false
	}
	return isNamed(deref(r.Typ), "bytes", "Buffer") || isNamed(deref(r.Typ), "strings", "Builder")
}

// parallel reports whether an index is that of arguments decoded for as many types.
func (x *sio) parallel(s *State, e *Event) bool {
	as := s.Get("args")
	return as != nil && e.Args[0] == s.resOf(as, 0)
}
