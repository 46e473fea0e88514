package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value (a hash-consed term). Leaves stand for values made by one instruction in one calling context;
// a leaf of age 1 stands for those of earlier executions of that instruction.
type Val struct {
	Op     string
	Key    string
	Args   []*Val
	Typ    types.Type
	C      constant.Value
	Fn     *ssa.Function
	Instr  ssa.Instruction
	Leaf   string // identity of a leaf
	Age    int
	Idx    int         // ext, struct field, param
	Field  *types.Var  // field&, field
	Meth   *types.Func // call
	Glob   *ssa.Global
	depth  int // nesting
	fdepth int // nesting above the leaves
	leafs  map[string]bool
}

const maxDepth = 9
const maxFDepth = 7

type interner struct{ m map[string]*Val }

func (in *interner) mk(v Val) *Val {
	var sb strings.Builder
	sb.WriteString(v.Op)
	sb.WriteByte('(')
	if v.Leaf != "" {
		sb.WriteString(v.Leaf)
		for i := 0; i < v.Age; i++ {
			sb.WriteByte('\'')
		}
		sb.WriteByte(';')
	}
	switch v.Op {
	case "const":
		sb.WriteString(v.C.ExactString())
		sb.WriteByte(':')
		sb.WriteString(v.Typ.String())
	case "nil":
	case "call":
		if v.Leaf == "" && v.Meth != nil {
			sb.WriteString(v.Meth.FullName())
			sb.WriteByte(';')
		}
	case "ext", "field", "field&", "struct", "bin", "un", "conv", "assert", "assertok", "closure", "fn", "global", "gval", "iface", "zero", "bound":
		if v.Idx != 0 || v.Op == "ext" || v.Op == "field" || v.Op == "field&" {
			sb.WriteString(strconv.Itoa(v.Idx))
			sb.WriteByte(';')
		}
		if v.Fn != nil {
			fmt.Fprintf(&sb, "%s@%p;", v.Fn.String(), v.Fn)
		}
		if v.Glob != nil {
			sb.WriteString(v.Glob.String())
		}
		switch v.Op {
		case "conv", "assert", "assertok", "iface", "zero":
			sb.WriteString(v.Typ.String())
			sb.WriteByte(';')
		case "field&", "field":
			fmt.Fprintf(&sb, "%s;", v.Field.Name())
		}
	}
	for i, a := range v.Args {
		if i > 0 {
			sb.WriteByte(',')
		}
		if a == nil {
			sb.WriteString("?")
		} else {
			sb.WriteString(a.Key)
		}
	}
	sb.WriteByte(')')
	key := sb.String()
	if len(key) > 400 {
		// keep keys short: intern long ones by number
		if n, ok := in.m["#"+key]; ok {
			return n
		}
	}
	if w, ok := in.m[key]; ok {
		return w
	}
	w := new(Val)
	*w = v
	w.Key = key
	w.leafs, w.depth, w.fdepth = map[string]bool{}, 0, 0
	if v.Leaf != "" {
		w.leafs[leafName(v.Leaf, v.Age)] = true
	}
	for _, a := range v.Args {
		if a == nil {
			continue
		}
		if a.depth+1 > w.depth {
			w.depth = a.depth + 1
		}
		if a.fdepth+1 > w.fdepth && v.Leaf == "" {
			w.fdepth = a.fdepth + 1
		}
		for l := range a.leafs {
			w.leafs[l] = true
		}
	}
	if len(key) > 400 {
		w.Key = fmt.Sprintf("#%d", len(in.m))
		in.m["#"+key] = w
		return w
	}
	in.m[key] = w
	return w
}

func leafName(l string, age int) string { return l + strings.Repeat("'", age) }

func (v *Val) String() string {
	if v == nil {
		return "?"
	}
	switch v.Op {
	case "const":
		return v.C.String()
	case "nil":
		return "nil"
	case "param":
		return v.Instr2Name()
	case "field&", "field":
		return v.Args[0].String() + "." + v.Field.Name()
	case "ext":
		return v.Args[0].String() + "#" + strconv.Itoa(v.Idx)
	case "load":
		return "*" + v.Args[0].String()
	case "fn":
		return v.Fn.String()
	case "closure":
		return v.Fn.Name()
	case "gval", "global":
		return v.Glob.Name()
	}
	n := v.Op
	if v.Meth != nil {
		n = v.Meth.Name()
	} else if v.Fn != nil {
		n = v.Fn.Name()
	}
	var as []string
	for _, a := range v.Args {
		as = append(as, a.String())
	}
	s := n + "(" + strings.Join(as, ",") + ")"
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s
}

func (v *Val) Instr2Name() string { return fmt.Sprintf("param%d", v.Idx) }

func (v *Val) isConst() bool { return v != nil && (v.Op == "const" || v.Op == "nil") }
func (v *Val) isNil() bool   { return v != nil && v.Op == "nil" }

// str returns the string constant v is, if any.
func (v *Val) str() (string, bool) {
	if v != nil && v.Op == "const" && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

func (v *Val) int64() (int64, bool) {
	if v != nil && v.Op == "const" && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}

func (v *Val) bool() (val, ok bool) {
	if v != nil && v.Op == "const" && v.C.Kind() == constant.Bool {
		return constant.BoolVal(v.C), true
	}
	return false, false
}

// has reports whether w occurs in v.
func (v *Val) has(w *Val) bool {
	if v == nil || w == nil {
		return false
	}
	if v == w {
		return true
	}
	for _, a := range v.Args {
		if a.has(w) {
			return true
		}
	}
	return false
}

// find returns the first subterm satisfying f.
func (v *Val) find(f func(*Val) bool) *Val {
	if v == nil {
		return nil
	}
	if f(v) {
		return v
	}
	for _, a := range v.Args {
		if r := a.find(f); r != nil {
			return r
		}
	}
	return nil
}

// strip removes conversions, interface boxing and single type assertions.
func (v *Val) strip() *Val {
	for v != nil {
		switch v.Op {
		case "conv", "iface", "assert":
			v = v.Args[0]
			continue
		}
		return v
	}
	return v
}

// nonNil reports whether v is a non-nil pointer, interface, function, map or channel by construction.
func (v *Val) nonNil() bool {
	switch v.Op {
	case "alloc", "make", "iface", "closure", "fn", "field&", "index&", "global", "gval", "bound", "struct":
		return true
	}
	return false
}

// --- frames ------------------------------------------------------------

// Frame is a calling context: the chain of call sites from a root.
type Frame struct {
	ID     int
	Fn     *ssa.Function
	Site   ssa.Instruction // nil for the root
	Parent *Frame
	Depth  int
	InLoop bool
}

func (f *Frame) has(fn *ssa.Function) bool {
	for ; f != nil; f = f.Parent {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
