package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// entryPoints lists the functions of pkg that code outside the package, or dynamic dispatch, can call: exported functions
// and methods, and methods implementing a method of an interface declared in the module or of http.Handler and the like.
func (p *Prog) entryPoints(pkg *types.Package) (fns []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] && f.Synthetic == "" {
			seen[f] = true
			fns = append(fns, f)
		}
	}
	sp := p.ssaOf[pkg]
	for _, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() {
			add(f)
		}
	}
	ifaceMethods := map[string]bool{}
	for _, t := range p.namedTypes() {
		if i, ok := t.Underlying().(*types.Interface); ok {
			for k := 0; k < i.NumMethods(); k++ {
				ifaceMethods[i.Method(k).Name()] = true
			}
		}
	}
	for _, t := range p.namedTypes() {
		if t.Obj().Pkg() != pkg || types.IsInterface(t) {
			continue
		}
		for i := 0; i < t.NumMethods(); i++ {
			m := t.Method(i)
			if m.Exported() || ifaceMethods[m.Name()] {
				add(p.SSA.FuncValue(m))
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	return
}

// engineOpaque keeps the operations of the transport abstractions as single events: methods of Conn, Transport, Dialer
// and Acceptor implementations and of barriers.
func (p *Prog) engineOpaque(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
	if recv == nil || meth == nil {
		return false
	}
	for _, n := range []string{"Conn", "Acceptor", "Dialer", "Barrier"} {
		it := p.engineType(n)
		if it == nil {
			continue
		}
		if p.isMethodOf(meth.Name(), it) && implements(recv, it) && !p.embedsIface(recv, it) {
			return true
		}
	}
	return false
}

func (p *Prog) isMethodOf(name string, it types.Type) bool {
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == name {
			return true
		}
	}
	return false
}

// embedsIface reports whether t is a struct that embeds interface it (and hence only forwards to one).
func (p *Prog) embedsIface(t, it types.Type) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() && (types.Identical(f.Type(), it) || p.embedsIface(f.Type(), it)) {
			return true
		}
	}
	return false
}

// explore runs cfg on every root and on all goroutines and escaping function values found on the way; then, with rest,
// on the functions of the packages not reached so far.
func (c *Check) explore(cfg *Config, roots []*ssa.Function, rest []*types.Package) *Run {
	if cfg.MaxStates == 0 {
		cfg.MaxStates = c.MaxState
	}
	user := cfg.OnEvent
	cfg.OnEvent = func(s *State, e *Event) {
		c.Events++
		if user != nil {
			user(s, e)
		}
	}
	r := newRun(c.P, cfg, c.Vio)
	done := map[*Spawn]bool{}
	sig := map[string]bool{}
	one := func(name string, fn *ssa.Function, b []*Val, mem map[string]memEnt, sp *Spawn) {
		r.States, r.Over = 0, ""
		r.CurSpawn = sp
		var args []*Val
		if sp != nil {
			args = sp.Call.args
		}
		r.Explore(name, fn, args, b, mem, nil)
		c.Roots++
		if os.Getenv("ROOTS") != "" {
			fmt.Printf("%7d %s\n", r.States, name)
		}
		c.States += r.States
		if r.Over != "" {
			c.undecided("%s: %s", name, r.Over)
		}
	}
	spawns := func() {
		for {
			n := 0
			for _, k := range r.spawnOrder {
				sp := r.Spawns[k]
				if done[sp] {
					continue
				}
				done[sp] = true
				n++
				id := sp.sig()
				if sig[id] {
					continue
				}
				sig[id] = true
				one(sp.Fn.String()+" ("+sp.Kind+")", sp.Fn, sp.Bindings, sp.Mem, sp)
			}
			if n == 0 {
				return
			}
		}
	}
	for _, fn := range roots {
		one(fn.String(), fn, nil, nil, nil)
		spawns()
	}
	for _, pkg := range rest {
		for _, fn := range c.P.Funcs {
			if r.Calls[fn] || fn.Synthetic != "" || pkgOf(fn) != pkg {
				continue
			}
			one(fn.String(), fn, nil, nil, nil)
			spawns()
		}
	}
	for f := range r.Calls {
		if f.Synthetic == "" {
			c.Fns[f] = true
		}
	}
	return r
}

func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
	}
	return nil
}

// rootOpaque keeps package engine's operations as single events when package socketio is analysed.
func (p *Prog) rootOpaque(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
	if pkgOf(fn) == p.Engine {
		return true
	}
	return false
}
