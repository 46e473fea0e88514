package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "Ownership (freshness) analysis of byte slices in every function that reads, decodes or encodes: what is handed out must have been "+
		"allocated in the same call for that packet alone, what was received is never written to.",
		func(c *Check) { c.aliasRules() })
}

// owner tracks slices and buffers allocated by the call analysed, across loops.
type owner struct{}

func (o owner) event(s *State, e *Event) {
	// loop variables become known
	for _, v := range s.SetVals("ownphi") {
		if str, ok := v.str(); ok {
			s.SetDel("ownphi", v)
			s.SetAdd("own", s.run.phis[str])
		}
	}
	switch {
	case isAppend(e):
		if e.Res != nil && o.slice(s, e.Args[0]) {
			s.SetAdd("own", e.Res)
		}
	case e.Kind == EvCall && !e.Inlined && e.Res != nil && isAppender(e.Meth) && len(e.Args) > 0 && o.slice(s, e.Args[0]):
		s.SetAdd("own", e.Res)
	case e.Kind == EvEdge && e.To.Dominates(e.From):
		pi := -1
		for i, b := range e.To.Preds {
			if b == e.From {
				pi = i
			}
		}
		for _, in := range e.To.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isSliceOrMap(ph.Type()) {
				continue
			}
			if v := s.run.val(s, ph.Edges[pi]); v != nil && !v.isNil() && o.slice(s, v) {
				l := fmt.Sprintf("phi%d@%d", s.run.P.instrNo[ph], s.top().F.ID)
				s.run.phis[l] = s.run.in.mk(Val{Op: "phi", Leaf: l, Typ: ph.Type(), Instr: ph})
				s.SetAdd("ownphi", s.run.strVal(l))
			}
		}
	}
}

// isAppender recognises functions that extend their first argument.
func isAppender(m *types.Func) bool {
	if m == nil || m.Pkg() == nil || m.Type().(*types.Signature).Recv() != nil {
		return false
	}
	sig := m.Type().(*types.Signature)
	return len(m.Name()) > 6 && m.Name()[:6] == "Append" && sig.Params().Len() > 0 && sig.Results().Len() == 1 && isSliceOrMap(sig.Params().At(0).Type())
}

// buffer reports whether b is a buffer of this call.
func (o owner) buffer(s *State, b *Val) bool {
	b = b.strip()
	switch {
	case b == nil:
		return false
	case b.Op == "alloc":
		return true
	case isCallOf(b, "bytes", "NewBuffer"):
		return o.slice(s, b.Args[0])
	case isCallOf(b, "bytes", "NewBufferString"):
		return true
	}
	return false
}

// slice reports whether slice v was allocated by this call (or is nil).
func (o owner) slice(s *State, v *Val) bool {
	if v == nil {
		return false
	}
	v = v.strip()
	if v == nil || v.isNil() || s.IsNil(v) || s.SetHas("own", v) {
		return v != nil
	}
	c := v
	idx := 0
	if v.Op == "ext" {
		c, idx = v.Args[0], v.Idx
	}
	switch c.Op {
	case "alloc", "make":
		return true
	case "slice", "append":
		return o.slice(s, c.Args[0])
	case "conv":
		x := c.Args[0]
		if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return true
		}
		return o.slice(s, x)
	case "call":
		if c.Meth == nil || c.Meth.Pkg() == nil || idx != 0 {
			return false
		}
		name, path := c.Meth.Name(), c.Meth.Pkg().Path()
		recv := c.Meth.Type().(*types.Signature).Recv() != nil
		switch {
		case path == "bytes" && recv:
			return (name == "Bytes" || name == "Next" || name == "AvailableBuffer") && o.buffer(s, c.Args[0])
		case path == "github.com/tinylib/msgp/msgp":
			return !recv && len(c.Args) > 0 && o.slice(s, c.Args[0])
		case name == "Append" || len(name) > 6 && name[:6] == "Append":
			return len(c.Args) > 0 && (o.slice(s, c.Args[0]) || recv && len(c.Args) > 1 && o.slice(s, c.Args[1]))
		case path == "encoding/json" || path == "io" || path == "io/ioutil" || path == "os":
			return name == "Marshal" || name == "MarshalIndent" || name == "ReadAll" || name == "ReadFile"
		case path == "encoding/base64" || path == "encoding/hex" || path == "encoding/base32":
			return name == "DecodeString"
		case path == "regexp":
			return len(name) > 10 && name[:10] == "ReplaceAll"
		case path == "bytes":
			switch name {
			case "Replace", "ReplaceAll", "Join", "Repeat", "Clone", "ToLower", "ToUpper", "Title", "Map":
				return true
			}
		case name == "MarshalBinary" || name == "MarshalJSON" || name == "MarshalText":
			return true // what user types return is theirs to keep
		}
	}
	return false
}

// allocation returns the allocation slice v lives in.
func (o owner) allocation(v *Val) *Val {
	v = v.strip()
	for v != nil {
		switch {
		case v.Op == "slice" || v.Op == "append" || v.Op == "conv":
			v = v.Args[0].strip()
			continue
		case v.Op == "call" && v.Meth != nil && (v.Meth.Name() == "Bytes" || v.Meth.Name() == "Next") && bufferVal(v.Args[0]) != nil:
			return bufferVal(v.Args[0])
		}
		break
	}
	return v
}

// written lists the byte slices e writes to.
func (s *State) written(e *Event) (vs []*Val) {
	isBytes := func(v *Val) bool {
		if v == nil || v.Typ == nil {
			return false
		}
		sl, ok := v.Typ.Underlying().(*types.Slice)
		return ok && isStringOrBytes(sl)
	}
	switch {
	case e.Kind == EvStore && e.Addr.Op == "index&" && isBytes(e.Addr.Args[0]):
		vs = append(vs, e.Addr.Args[0])
	case e.Kind == EvBuiltin && (e.Builtin == "append" || e.Builtin == "copy" || e.Builtin == "clear") && len(e.Args) > 0 && isBytes(e.Args[0]):
		vs = append(vs, e.Args[0])
	case e.Kind == EvCall && !e.Inlined && e.Meth != nil && e.Meth.Pkg() != nil:
		name, path := e.Name(), e.Meth.Pkg().Path()
		arg := func(i int) {
			if i < len(e.Args) && isBytes(e.Args[i]) {
				vs = append(vs, e.Args[i])
			}
		}
		switch {
		case len(name) > 6 && name[:6] == "Append", path == "github.com/tinylib/msgp/msgp" && (name == "Require" || name == "Ensure"):
			arg(0)
		case path == "io" && (name == "ReadFull" || name == "ReadAtLeast"):
			arg(1)
		case name == "Read" || name == "Decode" || name == "Encode":
			arg(0)
		case path == "sort" || path == "slices" && (name == "Reverse" || name == "Sort"):
			arg(0)
		case bufferVal(e.Recv) != nil && (name == "ReadFrom" || len(name) >= 5 && name[:5] == "Write" && name != "WriteTo"):
			if b := bufferVal(e.Recv); isCallOf(b, "bytes", "NewBuffer") {
				vs = append(vs, b.Args[0])
			}
		}
	}
	return
}

// impls returns the implementations of a method of an interface of package socketio.
func (p *Prog) impls(iface types.Type, name string) (fns []*ssa.Function) {
	if iface == nil {
		return
	}
	seen := map[*ssa.Function]bool{}
	for _, t := range p.concrete(iface) {
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, t.Obj().Pkg(), name)
		m, ok := obj.(*types.Func)
		if !ok {
			continue
		}
		if f := p.SSA.FuncValue(m); f != nil && f.Blocks != nil && !seen[f] {
			seen[f] = true
			fns = append(fns, f)
		}
	}
	return
}

func (c *Check) aliasRules() {
	p := c.P
	var o owner
	dataF, pktT := p.pktData(), p.engineType("Packet")

	// packets read
	handout := func(s *State, e *Event, data *Val) {
		a := o.allocation(data)
		switch {
		case data == nil:
			s.Report("shared", e, "a packet is handed out whose data is not known")
		case data.isNil():
		case !o.slice(s, data):
			s.Report("shared", e, "the data of a packet (%s) is not known to have been allocated for it", data)
		case s.SetHas("given", a):
			s.Report("shared", e, "two packets are handed out whose data share memory")
		default:
			s.SetAdd("given", a)
		}
	}
	reuse := func(s *State, e *Event) {
		if e.Kind != EvCall || e.Inlined {
			return
		}
		_, dst, _ := s.readOp(e)
		if b := bufferVal(e.Recv); b != nil && dst == nil {
			switch e.Name() {
			case "Reset", "Truncate", "Write", "WriteByte", "WriteString", "WriteRune", "Grow":
				dst = b
			}
		}
		if dst == nil {
			return
		}
		if a := o.allocation(dst); a != nil && s.SetHas("given", a) {
			s.Report("shared", e, "memory of a packet handed out is written to again")
		}
	}
	rd := p.method(types.NewPointer(p.engineType("Payload")), "ReadFrom")
	c.explore(&Config{Name: "payload", MaxDepth: 12, OnEvent: func(s *State, e *Event) {
		o.event(s, e)
		reuse(s, e)
		if isAppend(e) {
			if t, ok := e.Args[0].Typ.Underlying().(*types.Slice); ok && types.Identical(t.Elem(), pktT) {
				if _, elems, spread := s.appended(e); spread == nil {
					for _, v := range elems {
						c.site("packets decoded", e)
						handout(s, e, s.fieldNow(v, dataF))
					}
				}
			}
		}
	}}, []*ssa.Function{rd}, nil)
	var roots []*ssa.Function
	for _, t := range p.concrete(p.engineType("Conn")) {
		if m := p.method(types.NewPointer(t), "ReadPacket"); m != nil && m.Synthetic == "" {
			roots = append(roots, m)
		}
	}
	c.explore(&Config{Name: "frames", OnEvent: func(s *State, e *Event) {
		o.event(s, e)
		reuse(s, e)
		if rootExit(e) && len(e.Results) == 2 && !s.NonNil(e.Results[1]) && e.Results[0].Op == "alloc" {
			c.site("packets read", e)
			handout(s, e, s.fieldNow(e.Results[0], dataF))
		} else if rootExit(e) && len(e.Results) == 2 && !s.NonNil(e.Results[1]) {
			// a packet passed on by the goroutine that decoded it
			if v := e.Results[0].find(func(x *Val) bool { return x.Op == "recv" || x.Op == "selrecv" || x.Op == "select" }); v == nil {
				s.Report("shared", e, "a packet is handed out that this call did not allocate (%s)", e.Results[0])
			}
		}
	}}, roots, nil)
	c.need("packets decoded", 1)
	c.need("packets read", 1)

	// decoders
	dec, enc := p.rootType("Decoder"), p.rootType("Encoder")
	roots = nil
	for _, n := range []string{"Add", "ParseData", "UnmarshalArgs"} {
		roots = append(roots, p.impls(dec, n)...)
	}
	rootPkt := types.NewPointer(p.rootType("Packet"))
	c.explore(&Config{Name: "decoders", Opaque: p.rootOpaque, OnEvent: func(s *State, e *Event) {
		o.event(s, e)
		for _, v := range s.written(e) {
			c.site("writes to bytes in decoders", e)
			if !o.slice(s, v) {
				s.Report("overwritten", e, "bytes are written to (%s) that may be part of what was received", v)
			}
		}
		if ch, v, ok := chanSend(e); ok && chanOf(ch, p.rootType("Packet")) {
			c.site("messages decoded", e)
			if v.Op == "alloc" {
				return
			}
			if f, _ := fieldLoad(v); f == nil {
				s.Report("reused", e, "a message is handed out that is not known to be new (%s)", v)
			}
		}
		// fields from which messages are handed out only ever hold new ones
		if e.Kind == EvStore && types.Identical(e.Val.Typ, rootPkt) && e.Addr.Op != "alloc" {
			if v := e.Val.strip(); v.Op != "alloc" && !v.isNil() {
				s.Report("reused", e, "a message is kept that is not known to be new (%s)", v)
			}
		}
	}}, roots, nil)
	c.need("messages decoded", 2)
	c.need("writes to bytes in decoders", 1)

	// encoders
	roots = p.impls(enc, "Encode")
	c.explore(&Config{Name: "encoders", Opaque: p.rootOpaque, OnEvent: func(s *State, e *Event) {
		o.event(s, e)
		for _, v := range s.written(e) {
			if !o.slice(s, v) {
				s.Report("overwritten", e, "bytes are written to (%s) that may be part of something sent before", v)
			}
		}
		// attachments
		if el, list := elementStored(e); el != nil {
			if sl, ok := list.Typ.Underlying().(*types.Slice); ok && isStringOrBytes(sl.Elem()) && !o.slice(s, el) {
				s.Report("shared", e, "an attachment (%s) is not known to have been made by this call", el)
			}
		}
		if isAppend(e) {
			if sl, ok := e.Args[0].Typ.Underlying().(*types.Slice); ok {
				if _, bytes := sl.Elem().Underlying().(*types.Slice); bytes && isStringOrBytes(sl.Elem()) {
					_, elems, spread := s.appended(e)
					for _, v := range elems {
						c.site("attachments encoded", e)
						if !o.slice(s, v) {
							s.Report("shared", e, "an attachment (%s) is not known to have been made by this call", v)
						}
					}
					if spread != nil && !o.slice(s, spread) {
						s.Report("shared", e, "attachments (%s) not known to have been made by this call are sent", spread)
					}
				}
			}
		}
		if rootExit(e) && len(e.Results) == 3 && !s.NonNil(e.Results[2]) {
			c.site("messages encoded", e)
			if !o.slice(s, e.Results[0]) {
				s.Report("shared", e, "the text encoded (%s) is not known to be in memory of its own", e.Results[0])
			}
			if !o.slice(s, e.Results[1]) {
				s.Report("stale", e, "the attachments sent (%s) are not known to have been made by this call", e.Results[1])
			}
			for _, v := range s.elems(e.Results[1]) {
				if v == nil || !o.slice(s, v) {
					s.Report("shared", e, "an attachment (%v) is not known to be in memory of its own", v)
				}
			}
		}
	}}, roots, nil)
	c.need("messages encoded", 2)
	c.need("attachments encoded", 1)
}

// elementStored recognises the assignment of an element of a slice.
func elementStored(e *Event) (el, list *Val) {
	if e.Kind == EvStore && e.Addr.Op == "index&" && e.Addr.Args[0].Typ != nil {
		return e.Val, e.Addr.Args[0]
	}
	return nil, &Val{}
}
