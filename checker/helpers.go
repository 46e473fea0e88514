package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- recognising operations ---------------------------------------------------

// pkgCall reports whether e calls function or method name of package path.
func pkgCall(e *Event, path string, names ...string) bool {
	if e.Meth == nil || e.Meth.Pkg() == nil || e.Meth.Pkg().Path() != path {
		return false
	}
	for _, n := range names {
		if e.Meth.Name() == n {
			return true
		}
	}
	return len(names) == 0
}

// methodOn reports whether e is a call of a method of the given name of interface iface (declared in the module), on a
// static receiver type that implements it.
func (p *Prog) methodOn(e *Event, iface types.Type, names ...string) bool {
	if e.Meth == nil || e.Recv == nil || iface == nil {
		return false
	}
	ok := false
	for _, n := range names {
		ok = ok || e.Meth.Name() == n
	}
	if !ok {
		return false
	}
	t := e.Recv.Typ
	if e.Fn != nil && e.Fn.Signature.Recv() != nil {
		t = e.Fn.Signature.Recv().Type()
	}
	if e.Recv.Op == "iface" {
		t = e.Recv.Typ
	}
	return t != nil && (implements(t, iface) && !p.embedsIface(t, iface))
}

func (p *Prog) connCall(e *Event, names ...string) bool {
	return (e.Kind == EvCall || e.Kind == EvGo || e.Kind == EvDefer) && p.methodOn(e, p.engineType("Conn"), names...)
}

func (p *Prog) connOp(e *Event, names ...string) bool {
	return e.Kind == EvCall && p.methodOn(e, p.engineType("Conn"), names...)
}

func (p *Prog) barrierOp(e *Event, names ...string) bool {
	return e.Kind == EvCall && p.methodOn(e, p.engineType("Barrier"), names...)
}

// fieldLoad returns the field and base of v if v was loaded from a struct field.
func fieldLoad(v *Val) (*types.Var, *Val) {
	v = v.strip()
	if v == nil {
		return nil, nil
	}
	if v.Op == "load" && len(v.Args) > 0 && v.Args[0].Op == "field&" {
		return v.Args[0].Field, v.Args[0].Args[0]
	}
	if v.Op == "field" {
		return v.Field, v.Args[0]
	}
	return nil, nil
}

// ownerOf names the struct type a field address belongs to.
func ownerOf(addr *Val) *types.Named {
	if addr.Op != "field&" {
		return nil
	}
	return namedOf(addr.Args[0].Typ)
}

// isSessionConn reports whether v is the current transport of a session: a value loaded from (or stored to) the Conn
// field of a struct embedding it.
func (p *Prog) isSessionConn(v *Val) bool {
	f, _ := fieldLoad(v)
	return f != nil && p.isConnField(f)
}

// isConnField: an (embedded) field of interface type Conn.
func (p *Prog) isConnField(f *types.Var) bool {
	return f.IsField() && types.Identical(f.Type(), p.engineType("Conn"))
}

// --- locks -------------------------------------------------------------------

// lockOp recognises lock operations. what is Lock, RLock, Unlock or RUnlock.
func (p *Prog) lockOp(e *Event) (addr *Val, what string) {
	if e.Kind != EvCall || e.Meth == nil || e.Recv == nil || e.Inlined {
		return nil, ""
	}
	n := e.Meth.Name()
	switch n {
	case "Lock", "RLock", "Unlock", "RUnlock":
	default:
		return nil, ""
	}
	if e.Meth.Pkg() == nil || e.Meth.Pkg().Path() != "sync" {
		return nil, ""
	}
	v := e.Recv
	for v.Op == "conv" || v.Op == "iface" {
		v = v.Args[0]
	}
	if v.Op == "call" && v.Meth != nil && v.Meth.Name() == "RLocker" && len(v.Args) > 0 {
		return v.Args[0], "R" + strings.TrimPrefix(n, "R")
	}
	return v, n
}

// lockClass names the lock at addr by the struct and field it lives in.
func lockClass(addr *Val) string {
	if addr.Op == "field&" {
		t := deref(addr.Args[0].Typ)
		return typeName(t) + "." + addr.Field.Name()
	}
	if addr.Op == "global" {
		return addr.Glob.String()
	}
	if addr.Typ != nil {
		return typeName(deref(addr.Typ))
	}
	return "lock"
}

// trackLocks maintains the sets W (locks held for writing) and R (for reading) among the monitor variables.
func (p *Prog) trackLocks(s *State, e *Event) {
	if e.Kind == EvAssume && e.Val != nil && e.Cond {
		if v := e.Val; v.Op == "call" && v.Meth != nil && len(v.Args) > 0 {
			switch v.Meth.Name() {
			case "TryLock":
				s.SetAdd("W", v.Args[0])
			case "TryRLock":
				s.SetAdd("R", v.Args[0])
			}
		}
		return
	}
	a, what := p.lockOp(e)
	if a == nil {
		return
	}
	switch what {
	case "Lock":
		s.SetAdd("W", a)
	case "RLock":
		s.SetAdd("R", a)
	case "Unlock":
		s.SetDel("W", a)
	case "RUnlock":
		s.SetDel("R", a)
	}
}

// heldOn reports whether the lock of the struct at base is held: "W", "R" or "".
func heldOn(s *State, base *Val) string {
	for _, m := range []string{"W", "R"} {
		for _, a := range s.SetVals(m) {
			if a.Op == "field&" && a.Args[0] == base {
				return m
			}
		}
	}
	return ""
}

// heldClass reports whether a lock of a struct of type t is held.
func heldClass(s *State, t types.Type) (mode string, base *Val) {
	for _, m := range []string{"W", "R"} {
		for _, a := range s.SetVals(m) {
			if a.Op == "field&" && types.Identical(deref(a.Args[0].Typ), t) {
				return m, a.Args[0]
			}
		}
	}
	return "", nil
}

// --- roots ---------------------------------------------------------------------

func (c *Check) bothEntries() []*ssa.Function {
	return append(c.P.entryPoints(c.P.Engine), c.P.entryPoints(c.P.Root)...)
}

func (c *Check) bothPkgs() []*types.Package { return []*types.Package{c.P.Engine, c.P.Root} }

// isImplMethod reports whether fn is a method of a type of the module implementing one of the named engine interfaces.
func (p *Prog) isImplMethod(fn *ssa.Function, ifaces ...string) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	for _, n := range ifaces {
		it := p.engineType(n)
		if it != nil && implements(r.Type(), it) && !p.embedsIface(r.Type(), it) && p.isMethodOf(fn.Name(), it) {
			return true
		}
	}
	return false
}

// rootFn is the function the current exploration started from.
func (s *State) rootFn() *ssa.Function {
	if len(s.Stack) == 0 {
		return nil
	}
	return s.Stack[0].F.Fn
}

// chain describes the calling context.
func chain(f *Frame) string {
	var n []string
	for ; f != nil; f = f.Parent {
		n = append(n, f.Fn.Name())
	}
	return strings.Join(n, "<")
}
