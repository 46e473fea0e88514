package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program under analysis with the SSA form of the module's packages.
type Prog struct {
	Fset   *token.FileSet
	SSA    *ssa.Program
	Pkgs   []*packages.Package
	Module string
	Dir    string
	Root   *types.Package    // package socketio
	Engine *types.Package    // package engine
	Msgp   *packages.Package // with function bodies, or nil
	ssaOf  map[*types.Package]*ssa.Package
	Funcs  []*ssa.Function // all module functions with a body (closures included)

	instrNo  map[ssa.Instruction]int
	inLoop   map[*ssa.BasicBlock]bool
	liveIn   map[*ssa.BasicBlock]map[ssa.Value]bool
	liveAft  map[ssa.Instruction]map[ssa.Value]bool
	liveDone map[*ssa.Function]bool
	initOnly map[*types.Var]bool
	private  map[*ssa.Alloc]bool
	nstores  map[*ssa.Alloc]int
	cglobals map[*ssa.Global]ssa.Value
	into     map[*ssa.Function]bool
	unclosed map[*types.Var]bool
}

const msgpPath = "github.com/tinylib/msgp/msgp"

func inMsgp(file string) bool {
	d := filepath.ToSlash(filepath.Dir(file))
	return strings.HasSuffix(d, "/msgp") && strings.Contains(d, "tinylib/msgp")
}

// load type-checks the module in dir. Function bodies outside the module are dropped: they are modelled, not analysed.
func load(dir, goos, goarch string) (*Prog, error) {
	abs, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if goos != "" {
		env = append(env, "GOOS="+goos)
	}
	if goarch != "" {
		env = append(env, "GOARCH="+goarch)
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  abs, Fset: fset, Env: env,
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(name, abs+string(filepath.Separator)) && !inMsgp(name) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", abs)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		p.IllTyped = false
		if p.Types == nil {
			return nil, fmt.Errorf("%s: no types", p.PkgPath)
		}
	}
	// dependencies lack function bodies, which is an error to the type checker only
	var msgp *packages.Package
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		q.IllTyped = false
		if q.PkgPath == msgpPath {
			msgp = q
		}
	})
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Fset: fset, SSA: prog, Msgp: msgp, Pkgs: pkgs, Dir: abs, ssaOf: map[*types.Package]*ssa.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("%s: no SSA", pkgs[i].PkgPath)
		}
		p.ssaOf[sp.Pkg] = sp
	}
	prog.Build()
	for _, q := range pkgs {
		if q.Module != nil {
			p.Module = q.Module.Path
		}
	}
	for _, q := range pkgs {
		switch q.PkgPath {
		case p.Module:
			p.Root = q.Types
		case p.Module + "/engine":
			p.Engine = q.Types
		}
	}
	if p.Root == nil || p.Engine == nil {
		return nil, fmt.Errorf("packages %s and %s/engine not found", p.Module, p.Module)
	}
	p.index()
	return p, nil
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			_, ok := p.ssaOf[f.Pkg.Pkg]
			return ok
		}
	}
	// wrappers, thunks and bound methods
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		_, ok := p.ssaOf[o.Pkg()]
		return ok
	}
	return false
}

// isModPkg reports whether pkg is part of the module analysed.
func (p *Prog) isModPkg(pkg *types.Package) bool {
	_, ok := p.ssaOf[pkg]
	return ok
}

func (p *Prog) index() {
	p.instrNo = map[ssa.Instruction]int{}
	p.inLoop = map[*ssa.BasicBlock]bool{}
	p.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	p.liveAft = map[ssa.Instruction]map[ssa.Value]bool{}
	p.liveDone = map[*ssa.Function]bool{}
	p.private = map[*ssa.Alloc]bool{}
	p.nstores = map[*ssa.Alloc]int{}
	all := ssautil.AllFunctions(p.SSA)
	for fn := range all {
		if fn.Blocks != nil && p.inModule(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, fn := range p.Funcs {
		p.number(fn)
	}
	p.findInitOnly()
	p.findConstGlobals()
}

func (p *Prog) number(fn *ssa.Function) {
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			p.instrNo[i] = n
			n++
		}
	}
	// blocks on a cycle
	for _, b := range fn.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		stack := append([]*ssa.BasicBlock{}, b.Succs...)
		for len(stack) > 0 {
			c := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if seen[c] {
				continue
			}
			seen[c] = true
			if c == b {
				p.inLoop[b] = true
				break
			}
			stack = append(stack, c.Succs...)
		}
	}
}

// liveness computes, per block, the SSA values live at its start (after its phis).
func (p *Prog) liveness(fn *ssa.Function) {
	if p.liveDone[fn] {
		return
	}
	p.liveDone[fn] = true
	if _, ok := p.instrNo[fn.Blocks[0].Instrs[0]]; !ok {
		p.number(fn)
	}
	out := func(b *ssa.BasicBlock) map[ssa.Value]bool {
		o := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range p.liveIn[s] {
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
					continue
				}
				o[v] = true
			}
			for pi, pr := range s.Preds {
				if pr != b {
					continue
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					o[ph.Edges[pi]] = true
				}
			}
		}
		return o
	}
	var buf [16]*ssa.Value
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := out(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue // phis stay live at block start if used
				}
				if v, ok := in.(ssa.Value); ok {
					delete(l, v)
				}
				for _, op := range in.Operands(buf[:0]) {
					if *op != nil {
						l[*op] = true
					}
				}
			}
			if len(l) != len(p.liveIn[b]) {
				p.liveIn[b] = l
				changed = true
			}
		}
	}
	for _, b := range fn.Blocks {
		l := out(b)
		for j := len(b.Instrs) - 1; j >= 0; j-- {
			in := b.Instrs[j]
			switch in.(type) {
			case *ssa.Call, *ssa.Defer, *ssa.RunDefers, *ssa.Panic:
				m := make(map[ssa.Value]bool, len(l))
				for v := range l {
					m[v] = true
				}
				p.liveAft[in] = m
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				delete(l, v)
			}
			for _, op := range in.Operands(buf[:0]) {
				if *op != nil {
					l[*op] = true
				}
			}
		}
	}
}

// fieldOf returns the field a FieldAddr or Field instruction selects.
func fieldVar(t types.Type, i int) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st.Field(i)
	}
	return nil
}

// findInitOnly collects the fields that are only ever stored in the function allocating the struct and whose address
// is otherwise only loaded from.
func (p *Prog) findInitOnly() {
	bad := map[*types.Var]bool{}
	all := map[*types.Var]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				all[fv] = true
				_, alloc := fa.X.(*ssa.Alloc)
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if r.Addr != fa || !alloc {
							bad[fv] = true
						}
					default:
						bad[fv] = true
					}
				}
			}
			for _, in := range b.Instrs {
				// whole-struct stores make every field mutable
				if st, ok := in.(*ssa.Store); ok {
					if s, ok := st.Val.Type().Underlying().(*types.Struct); ok {
						if _, alloc := st.Addr.(*ssa.Alloc); !alloc {
							for i := 0; i < s.NumFields(); i++ {
								bad[s.Field(i)] = true
							}
						}
					}
				}
			}
		}
	}
	p.initOnly = map[*types.Var]bool{}
	for f := range all {
		if !bad[f] {
			p.initOnly[f] = true
		}
	}
}

// findConstGlobals collects package-level variables stored exactly once, by the package initialiser.
func (p *Prog) findConstGlobals() {
	p.cglobals = map[*ssa.Global]ssa.Value{}
	n := map[*ssa.Global]int{}
	var fns []*ssa.Function
	fns = append(fns, p.Funcs...)
	for _, sp := range p.ssaOf {
		if f := sp.Func("init"); f != nil {
			found := false
			for _, g := range fns {
				if g == f {
					found = true
				}
			}
			if !found {
				fns = append(fns, f)
			}
		}
	}
	var buf [16]*ssa.Value
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(buf[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if in.Addr == g && fn.Synthetic == "package initializer" {
							n[g]++
							p.cglobals[g] = in.Val
						} else {
							n[g] += 2
						}
					default:
						n[g] += 2
					}
				}
			}
		}
	}
	for g, k := range n {
		if k != 1 {
			delete(p.cglobals, g)
		}
	}
}

// isPrivate reports whether the cell a is only accessed by its function and closures it calls itself.
func (p *Prog) isPrivate(a *ssa.Alloc) bool {
	if v, ok := p.private[a]; ok {
		return v
	}
	stores := 0
	var cell func(v ssa.Value, depth int) bool
	cell = func(v ssa.Value, depth int) bool {
		if depth > 4 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == v {
					return false
				}
				stores++
			case *ssa.FieldAddr:
				if !cell(r, depth+1) {
					return false
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !cell(fn.FreeVars[i], depth+1) {
						return false
					}
				}
				for _, u := range *r.Referrers() {
					switch u.(type) {
					case *ssa.Call, *ssa.Defer, *ssa.DebugRef:
					default:
						if !singleStore(a) {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	ok := cell(a, 0)
	p.private[a] = ok
	p.nstores[a] = stores
	return ok
}

// storeCount counts the stores to the cell a itself.
func storeCount(a *ssa.Alloc) (n int) {
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			n++
		}
	}
	return
}

// singleStore reports whether the cell a is stored at most once, in the function allocating it.
func singleStore(a *ssa.Alloc) bool {
	n, own := ownStores(a)
	return own && n <= 1
}

// ownStores counts the stores to the cell a, and reports whether all are made by the function allocating it.
func ownStores(a *ssa.Alloc) (n int, own bool) {
	var cell func(v ssa.Value, depth int) bool
	cell = func(v ssa.Value, depth int) bool {
		if depth > 4 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == v || depth > 0 {
					return false
				}
				n++
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !cell(fn.FreeVars[i], depth+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	own = cell(a, 0)
	return
}

// singleStoreVar reports whether every variable captured as fv is stored at most once, by the function declaring it.
func (p *Prog) singleStoreVar(fv *ssa.FreeVar) bool {
	fn := fv.Parent()
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return false
	}
	found := false
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			found = true
			switch x := mc.Bindings[idx].(type) {
			case *ssa.Alloc:
				if !singleStore(x) {
					return false
				}
			case *ssa.FreeVar:
				if !p.singleStoreVar(x) {
					return false
				}
			default:
				return false
			}
		}
	}
	return found
}

// --- anchors ------------------------------------------------------------

func lookupType(pkg *types.Package, name string) types.Type {
	if o, ok := pkg.Scope().Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func (p *Prog) engineType(name string) types.Type { return lookupType(p.Engine, name) }
func (p *Prog) rootType(name string) types.Type   { return lookupType(p.Root, name) }

// method returns the SSA function of method name of T or *T (promoted methods give wrappers).
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	for _, u := range []types.Type{types.NewPointer(t), t} {
		ms := p.SSA.MethodSets.MethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Prog) function(pkg *types.Package, name string) *ssa.Function {
	if sp := p.ssaOf[pkg]; sp != nil {
		return sp.Func(name)
	}
	return nil
}

func implements(t types.Type, iface types.Type) bool {
	i, ok := iface.Underlying().(*types.Interface)
	if !ok || t == nil {
		return false
	}
	if types.Implements(t, i) {
		return true
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return false
	}
	if types.IsInterface(t) {
		return false
	}
	return types.Implements(types.NewPointer(t), i)
}

// namedTypes lists the module's defined types.
func (p *Prog) namedTypes() (ts []*types.Named) {
	for _, q := range p.Pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					ts = append(ts, nt)
				}
			}
		}
	}
	return
}

// concrete lists the module's non-interface types implementing iface.
func (p *Prog) concrete(iface types.Type) (ts []*types.Named) {
	for _, t := range p.namedTypes() {
		if !types.IsInterface(t) && implements(t, iface) {
			ts = append(ts, t)
		}
	}
	return
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	n, _ := types.Unalias(deref(t)).(*types.Named)
	return n
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// isNamed reports whether t (or what it points to) is pkgpath.name.
func isNamed(t types.Type, pkgpath, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgpath
}
