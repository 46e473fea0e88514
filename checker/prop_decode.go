package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "Path-sensitive interval and provenance analysis of payload decoding: bounds, sizes of allocations and overflow of every "+
		"operation; the announced length is followed through its digits to the number of bytes read; acceptance and success only on facts about the reads.",
		func(c *Check) { c.payloadRules() })
}

// --- totality: operations that may panic or allocate ----------------------------------

// total reports operations that are not known to be safe.
func (c *Check) total(s *State, e *Event) {
	r := s.run
	switch e.Kind {
	case EvPanic:
		s.Report("panic", e, "decoding may panic")
	case EvNilDeref:
		s.Report("nil", e, "a nil pointer is dereferenced")
	case EvAssert:
		if !e.Cond {
			c.site("assertions", e)
			s.Report("assertion", e, "a type is asserted without being known")
		}
	case EvIndex:
		x, i := e.Args[0], e.Args[1]
		c.site("indices checked", e)
		n := r.lenOf(s, nil, "len", x, types.Typ[types.Int])
		lo, _ := s.interval(i, 0)
		if k, ok := i.int64(); ok && k >= 0 && int(k) < s.submatches(x) {
			return
		}
		if s.within(i, n) || s.proves(r.intVal(0), i) && s.proves(s.add(i, 1), n) {
			return
		}
		if lt, k := s.Lt(i, n); !k || !lt || lo < 0 {
			s.Report("bounds", e, "index %s of %s may be out of range", i, x)
		}
	case EvSlice:
		x, lo, hi := e.Args[0], e.Args[1], e.Args[2]
		if lo == nil && hi == nil {
			return
		}
		c.site("slices checked", e)
		if lo == nil {
			lo = r.intVal(0)
		}
		n := r.lenOf(s, nil, "len", x, types.Typ[types.Int])
		if hi == nil {
			hi = n
		}
		if writtenTo(hi, x) && isZero(lo) {
			return
		}
		l, _ := s.interval(lo, 0)
		if l < 0 || !s.Le(lo, hi) || hi != n && !s.Le(hi, n) && !s.Le(hi, r.lenOf(s, nil, "cap", x, types.Typ[types.Int])) {
			if s.proves(r.intVal(0), lo) && s.proves(lo, hi) && s.proves(hi, n) {
				return
			}
			s.Report("bounds", e, "slice %s:%s of %s may be out of range", lo, hi, x)
		}
	case EvMake:
		if len(e.Args) == 0 {
			return
		}
		c.site("allocations checked", e)
		for _, n := range e.Args {
			if n != nil && !s.modest(n) {
				s.Report("allocation", e, "memory of size %s is allocated, which the data received does not bound", n)
			}
		}
	case EvCall:
		if e.Name() == "Grow" && e.Recv != nil && len(e.Args) == 1 {
			c.site("allocations checked", e)
			if !s.modest(e.Args[0]) {
				s.Report("allocation", e, "memory of size %s is allocated, which the data received does not bound", e.Args[0])
			}
		}
		if pkgCall(e, "bufio", "NewReaderSize", "NewWriterSize") && len(e.Args) == 2 && !s.modest(e.Args[1]) {
			s.Report("allocation", e, "memory of size %s is allocated, which the data received does not bound", e.Args[1])
		}
	case EvArith:
		b := e.Instr.(*ssa.BinOp)
		t, ok := b.Type().Underlying().(*types.Basic)
		if !ok || t.Info()&types.IsInteger == 0 {
			return
		}
		switch b.Op {
		case token.QUO, token.REM:
			if eq, k := s.Eq(e.Args[1], r.constVal(constInt(0), e.Args[1].Typ)); !k || eq {
				s.Report("division", e, "divisor %s may be zero", e.Args[1])
			}
		case token.MUL, token.SHL, token.ADD:
			product := func(v *Val) bool {
				return v.find(func(x *Val) bool { return x.Op == "bin" && token.Token(x.Idx) == token.MUL }) != nil
			}
			if e.Val.isConst() || t.Info()&types.IsUnsigned != 0 || b.Op == token.ADD && !product(e.Args[0]) && !product(e.Args[1]) {
				return
			}
			c.site("products checked", e)
			l1, h1 := s.interval(e.Args[0], 0)
			l2, h2 := s.interval(e.Args[1], 0)
			_, max := typeRange(b.Type(), c.P)
			h := maxInf
			switch b.Op {
			case token.MUL:
				h = mulSat(h1, h2)
			case token.ADD:
				h = addSat(h1, h2)
			}
			if l1 < 0 || l2 < 0 || h >= maxInf || h > max {
				s.Report("overflow", e, "%s may overflow", e.Val)
			}
		}
	}
}

// within reports whether i is n less what is known to be between 1 and n.
func (s *State) within(i, n *Val) bool {
	if i.Op != "bin" || token.Token(i.Idx) != token.SUB || i.Args[0] != n {
		return false
	}
	lo, _ := s.interval(i.Args[1], 0)
	return lo >= 1 && s.Le(i.Args[1], n)
}

// writtenTo reports whether n is the number of bytes an operation says it put into slice x.
func writtenTo(n, x *Val) bool {
	if n.Op == "ext" && n.Idx == 0 {
		n = n.Args[0]
	}
	if n.Op == "copy" {
		return n.Args[0] == x
	}
	if !isCallOf(n, "io", "ReadFull", "ReadAtLeast", "Read") && !isCallOf(n, "encoding/base64", "Decode") {
		return false
	}
	for _, a := range n.Args {
		if a == x {
			return true
		}
	}
	return false
}

// modest reports whether size v is small, or bounded by the length of data there is already.
func (s *State) modest(v *Val) bool {
	if _, hi := s.interval(v, 0); hi <= 1<<16 {
		return true
	}
	for v.Op == "conv" {
		v = v.Args[0]
	}
	switch {
	case v.Op == "len" || v.Op == "cap":
		return true
	case isCallOf(v, "encoding/base64", "EncodedLen", "DecodedLen"):
		return s.modest(v.Args[len(v.Args)-1])
	case v.Op == "bin":
		if token.Token(v.Idx) == token.ADD {
			return s.modest(v.Args[0]) && s.modest(v.Args[1])
		}
		if _, hi := s.interval(v.Args[1], 0); token.Token(v.Idx) == token.MUL && hi <= 8 {
			return s.modest(v.Args[0])
		}
		return (token.Token(v.Idx) == token.SUB || token.Token(v.Idx) == token.QUO) && s.modest(v.Args[0])
	}
	return false
}

// --- progress of loops -------------------------------------------------------------------

// progress reports loops that may go round without consume having been called and without counting.
func (c *Check) progress(s *State, e *Event) {
	if e.Kind != EvEdge {
		return
	}
	key := func() string { return fmt.Sprintf("nr:%d.%d", s.top().F.ID, e.To.Index) }
	loop := false
	for _, p := range e.To.Preds {
		loop = loop || e.To.Dominates(p)
	}
	if !loop {
		return
	}
	if e.To.Dominates(e.From) {
		c.siteAt("loops", c.P.pos(e.Pos()), e.To.Parent().String())
		if s.Flag(key()) && !counted(e.To, e.From) {
			s.Report("progress", e, "a loop may go on for ever without consuming input")
		}
	}
	s.SetFlag(key())
}

func consumes(s *State) { s.DelPrefix("nr:") }

// counted reports whether the loop with header h advances a counter or an iterator on the edge from b.
func counted(h, b *ssa.BasicBlock) bool {
	pi := -1
	for i, p := range h.Preds {
		if p == b {
			pi = i
		}
	}
	bound := func(v ssa.Value) bool { // compared with something to decide whether to go on
		ok := false
		for _, r := range *v.Referrers() {
			if cmp, is := r.(*ssa.BinOp); is && (cmp.Op == token.LSS || cmp.Op == token.GTR || cmp.Op == token.LEQ || cmp.Op == token.GEQ || cmp.Op == token.NEQ || cmp.Op == token.EQL) {
				ok = true
			}
		}
		return ok
	}
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Next:
			return true
		case *ssa.Phi:
			if x, ok := in.Edges[pi].(*ssa.BinOp); ok && x.X == ssa.Value(in) {
				if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
					switch x.Op {
					case token.ADD, token.SUB, token.QUO:
						if bound(in) || bound(x) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// --- payloads ----------------------------------------------------------------------------

// readOp recognises an operation that reads input; it returns its name, where the data goes and how much is read at most.
func (s *State) readOp(e *Event) (op string, dst, n *Val) {
	if e.Kind != EvCall || e.Inlined || e.Meth == nil || e.Res == nil {
		return
	}
	arg := func(i int) *Val {
		if i < len(e.Args) {
			return e.Args[i]
		}
		return nil
	}
	size := func(b *Val) *Val { return s.run.lenOf(s, nil, "len", b, types.Typ[types.Int]) }
	if e.Recv == nil {
		switch {
		case pkgCall(e, "io", "CopyN"):
			return "CopyN", arg(0), arg(2)
		case pkgCall(e, "io", "ReadFull"):
			return "ReadFull", arg(1), size(arg(1))
		case pkgCall(e, "io", "ReadAtLeast"):
			return "ReadAtLeast", arg(1), arg(2)
		case pkgCall(e, "io", "Copy"):
			return "Copy", arg(0), nil
		case pkgCall(e, "io", "ReadAll") || pkgCall(e, "io/ioutil", "ReadAll"):
			return "ReadAll", nil, nil
		}
		return
	}
	switch e.Name() {
	case "ReadByte":
		return "ReadByte", nil, nil
	case "ReadFrom":
		return "Copy", e.Recv, nil
	case "ReadMessage":
		return "ReadMessage", nil, nil
	case "Read", "ReadString", "ReadBytes", "ReadRune", "ReadSlice", "ReadLine", "Discard":
		return e.Name(), arg(0), nil
	}
	return
}

func (s *State) errOf(call *Val) *Val {
	if t, ok := call.Typ.(*types.Tuple); ok {
		return s.resOf(call, t.Len()-1)
	}
	return call
}

func (c *Check) payloadRules() {
	p := c.P
	pay := p.engineType("Payload")
	root := p.method(types.NewPointer(pay), "ReadFrom")
	if root == nil {
		c.undecided("Payload.ReadFrom not found")
		return
	}
	pktT := p.engineType("Packet")
	kindF, dataF := p.pktKind(), p.pktData()
	binary := p.engineConst("MessageTypeBinary")
	d := &payloadDec{c: c, pkt: pktT, kind: kindF, data: dataF, binary: binary}
	cfg := &Config{MaxDepth: 12, OnEvent: d.event}
	c.explore(cfg, []*ssa.Function{root}, nil)
	c.need("packets accepted from text", 1)
	c.need("packets accepted from bytes", 1)
	c.need("digits accumulated", 1)
	c.need("bodies read", 1)
	c.need("ends of input", 1)
	c.need("loops", 2)
	c.need("products checked", 2)
	c.need("base64 decoded", 1)

	// frames
	var roots []*ssa.Function
	queue := c.queueConns()
	for _, t := range p.concrete(p.engineType("Conn")) {
		own := true
		for _, q := range queue {
			if types.Identical(deref(q.t), deref(t)) {
				own = false
			}
		}
		if m := p.method(types.NewPointer(t), "ReadPacket"); own && m != nil && m.Synthetic == "" {
			roots = append(roots, m)
		}
	}
	if len(roots) == 0 {
		c.undecided("no other transport found")
	}
	c.explore(&Config{MaxDepth: 8, OnEvent: func(s *State, e *Event) {
		c.total(s, e)
		c.frameRules(s, e)
	}}, roots, nil)
	c.need("frames delivered", 1)
	c.need("frames read whole", 1)
}

// frameRules: a frame becomes a packet only if all of it was read without an error.
func (c *Check) frameRules(s *State, e *Event) {
	if op, dst, n := s.readOp(e); op != "" {
		s.SetAdd("reads", e.Res)
		if s.Get("whole") == nil {
			switch k, ok := s.num(n); {
			case op == "ReadByte":
				s.SetInt("head", s.Int("head")+1)
			case ok && op != "Copy" && op != "ReadAll" && op != "ReadMessage":
				s.SetInt("head", s.Int("head")+k)
			case op != "Copy" && op != "ReadAll" && op != "ReadMessage":
				s.SetFlag("some")
			}
		}
		switch op {
		case "Copy":
			c.site("frames read whole", e)
			s.Set("whole", e.Res)
			s.limited(e)
			s.Set("into", bufferVal(dst))
		case "ReadAll":
			c.site("frames read whole", e)
			s.limited(e)
			s.Set("whole", e.Res)
			s.SetAdd("body", s.res(e, 0))
		case "ReadMessage":
			c.site("frames read whole", e)
			s.Set("whole", e.Res)
			s.SetAdd("body", s.res(e, 1))
		}
		return
	}
	if e.Kind == EvCall && !e.Inlined && e.Name() == "Bytes" && e.Recv != nil && s.Get("into") != nil && bufferVal(e.Recv) == s.Get("into") {
		s.SetAdd("body", e.Res)
	}
	if e.Kind == EvAssume && e.Val != nil && e.Val.Op == "bin" && isIntVal(e.Val.Args[0]) && s.Flag("limited") {
		// what was read is compared with the limit
		s.SetFlag("measured")
	}
	if rootExit(e) && len(e.Results) == 2 {
		pkt, err := e.Results[0], e.Results[1]
		if s.NonNil(err) {
			return
		}
		c.site("frames delivered", e)
		for _, r := range s.SetVals("reads") {
			if !s.IsNil(s.errOf(r)) {
				s.Report("frame", e, "a frame may be delivered as a packet though reading it failed")
			}
		}
		if s.Get("whole") == nil {
			s.Report("frame", e, "a frame is delivered without having been read to its end")
		}
		if s.Flag("limited") && !s.Flag("measured") {
			s.Report("frame", e, "a frame is delivered though only a part of it may have been read")
		}
		if !s.NonNil(pkt) {
			s.Report("frame", e, "success may be reported without a packet")
			return
		}
		f, head := s.fieldNow(pkt, c.P.pktData()), s.Int("head")
		if f != nil && f.Op == "slice" && f.Args[2] == nil {
			n, ok := s.num(f.Args[1])
			if !ok {
				s.SetFlag("some")
			}
			f, head = f.Args[0].strip(), head+n
		}
		if f == nil || !s.SetHas("body", f) {
			s.Report("frame", e, "the data of the packet is not what was read of the frame")
		} else if !s.Flag("some") && head != 1 {
			s.Report("frame", e, "the data of the packet are not what follows the first byte of the frame")
		}
	}
}

// limited takes down whether what e reads from ends before the data do.
func (s *State) limited(e *Event) {
	for _, a := range e.Args {
		if a != nil && a.find(partial) != nil {
			s.SetFlag("limited")
		}
	}
}

// partial reports whether v is a reader of a part of another's data.
func partial(v *Val) bool {
	if isCallOf(v, "io", "LimitReader") || isCallOf(v, "io", "NewSectionReader") {
		return true
	}
	n, ok := deref(v.Typ).(*types.Named)
	return v.Op == "alloc" && ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && n.Obj().Name() == "LimitedReader"
}

type payloadDec struct {
	c      *Check
	pkt    types.Type
	kind   *types.Var
	data   *types.Var
	binary int64
}

// length returns the length accumulated from the digits so far.
func (d *payloadDec) length(s *State) *Val {
	v := s.Get("L")
	if v == nil {
		return s.run.intVal(0)
	}
	if str, ok := v.str(); ok {
		v = s.run.phis[str]
		s.Set("L", v)
	}
	return v
}

// settle accounts for the read before.
func (d *payloadDec) settle(s *State, e *Event) {
	rd := s.Get("rd")
	if rd == nil {
		return
	}
	s.SetFlag("consumed")
	if !s.IsNil(s.errOf(rd)) {
		s.Report("progress", e, "decoding goes on though reading may have failed")
	}
	if str, _ := s.Get("rdop").str(); str != "ReadByte" {
		s.Del("rd")
		return
	}
	b := s.resOf(rd, 0)
	s.Del("rd")
	if s.Flag("term") {
		s.Inc("after")
		return
	}
	if n, ok := s.num(b); ok && (n == ':' || n == 0xFF) {
		s.Set("term", s.run.intVal(n))
		s.SetInt("after", 0)
		s.Del("b")
		return
	}
	if s.Get("b") == nil { // accounted for
		return
	}
	if d.commit(s, e) {
		return
	}
	lo, hi := s.interval(b, 0)
	if lo >= 0 && hi <= 1 && !s.Flag("digits") && !s.Flag("kindbyte") {
		s.SetFlag("kindbyte")
	} else {
		s.SetFlag("lost")
	}
	s.Del("b")
}

// commit makes the length with the digit read last the current one.
func (d *payloadDec) commit(s *State, e *Event) bool {
	v, dig := s.Get("cand"), s.Get("dig")
	if v == nil || dig == nil {
		return false
	}
	d.c.site("digits accumulated", e)
	if dig.Op == "bin" {
		s.SetFlag("ascii")
	} else {
		s.SetFlag("raw")
	}
	if lo, hi := s.interval(dig, 0); lo < 0 || hi > 9 {
		s.Report("digits", e, "something else than a digit is taken for one")
	}
	s.SetFlag("digits")
	s.Set("L", v)
	for _, k := range []string{"b", "cand", "dig"} {
		s.Del(k)
	}
	return true
}

func (d *payloadDec) event(s *State, e *Event) {
	c := d.c
	c.total(s, e)
	d.length(s)
	c.progress(s, e)
	if op, dst, n := s.readOp(e); op != "" {
		d.settle(s, e)
		consumes(s)
		s.Set("rd", e.Res)
		s.Set("rdop", s.run.strVal(op))
		switch op {
		case "ReadByte":
			s.Set("b", s.res(e, 0))
		case "CopyN", "ReadFull":
			c.site("bodies read", e)
			for n.Op == "conv" {
				if lo, hi := s.interval(n.Args[0], 0); isIntVal(n.Args[0]) {
					if tl, th := typeRange(n.Typ, c.P); !isWideInt(n.Typ) && (lo < tl || hi > th) {
						s.Report("length", e, "the number announced may not fit into the type it is converted to")
					}
				}
				n = n.Args[0]
			}
			l := d.length(s)
			if s.Flag("body") {
				s.Report("length", e, "the body of a packet is read twice")
			}
			if !s.Flag("term") || s.Flag("lost") {
				s.Report("length", e, "the body of a packet is read though the number announced is not known to be read entirely as decimal digits and their end")
			} else {
				want := s.add(l, -s.Int("after"))
				if eq, k := s.Eq(want, n); want != n && !(eq && k) {
					s.Report("length", e, "%s bytes are read of a packet of length %s of which %d bytes were read already", n, l, s.Int("after"))
				}
				switch t, _ := s.num(s.Get("term")); {
				case t == ':' && s.Flag("raw") || t == 0xFF && s.Flag("ascii"):
					s.Report("digits", e, "the digits of a length are not those of the format its terminator belongs to")
				}
			}
			if lo, _ := s.interval(n, 0); lo < 0 {
				s.Report("length", e, "the number of bytes to read (%s) may be negative", n)
			}
			s.Set("body", e.Res)
			s.Del("into")
			if op == "CopyN" {
				if b := bufferVal(dst); b != nil {
					s.Set("into", b)
				} else if dst != nil {
					s.Set("into", dst.strip())
				}
			} else {
				s.SetAdd("bytes", dst)
			}
		}
		return
	}
	switch e.Kind {
	case EvEdge:
		if !e.To.Dominates(e.From) {
			return
		}
		pi := -1
		for i, b := range e.To.Preds {
			if b == e.From {
				pi = i
			}
		}
		cand, l := s.Get("cand"), d.length(s)
		for _, in := range e.To.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := s.run.val(s, ph.Edges[pi])
			if v == nil || !isIntVal(v) {
				continue
			}
			if v == cand && s.Get("b") != nil {
				d.commit(s, e)
			} else if v != l || l.isConst() {
				continue
			}
			ln := fmt.Sprintf("phi%d@%d", c.P.instrNo[ph], s.top().F.ID)
			s.run.phis[ln] = s.run.in.mk(Val{Op: "phi", Leaf: ln, Typ: ph.Type(), Instr: ph})
			s.Set("L", s.run.strVal(ln))
			break
		}
	case EvArith:
		if b := s.Get("b"); b != nil {
			if dig, _, ok := d.accumulated(s, e.Val, d.length(s), b); ok {
				s.Set("cand", e.Val)
				s.Set("dig", dig)
			}
		}
	case EvBuiltin:
		if !isAppend(e) {
			return
		}
		_, elems, spread := s.appended(e)
		if t, ok := e.Args[0].Typ.Underlying().(*types.Slice); !ok || !types.Identical(t.Elem(), d.pkt) {
			return
		}
		if spread != nil || len(elems) == 0 {
			return // packets accepted before
		}
		if t, _ := s.num(s.Get("term")); t == ':' {
			c.site("packets accepted from text", e)
		} else {
			c.site("packets accepted from bytes", e)
		}
		d.settle(s, e)
		if len(elems) != 1 {
			s.Report("accept", e, "several packets are accepted at once")
		}
		v := elems[0]
		body := s.Get("body")
		switch {
		case body == nil:
			s.Report("accept", e, "a packet is accepted though its body was not read")
		case !s.IsNil(s.errOf(body)):
			s.Report("accept", e, "a packet is accepted though reading its body may have failed")
		default:
			data := s.fieldNow(v, d.data)
			kind := s.fieldNow(v, d.kind)
			if data == nil || kind == nil {
				s.Report("accept", e, "a packet without its data is accepted (%s)", v)
				break
			}
			t, _ := s.num(s.Get("term"))
			isBin, k := s.Eq(kind, s.run.constVal(constInt(d.binary), kind.Typ))
			switch {
			case t == ':' && !k:
				s.Report("accept", e, "a packet is accepted though its kind is not decided")
			case t == ':' && isBin:
				ok := false
				for _, x := range s.SetVals("decoded") {
					if data == s.resOf(x, 0) || data.Op == "slice" && data.Args[2] == s.resOf(x, 0) {
						ok = s.IsNil(s.errOf(x))
						if !ok {
							s.Report("accept", e, "a binary packet is accepted though its encoding may be invalid")
							ok = true
						}
					}
				}
				if !ok {
					s.Report("accept", e, "the data of a binary packet in a text payload is not what was decoded from its body")
				}
			default:
				if !s.SetHas("bytes", data) {
					s.Report("accept", e, "the data of a packet accepted is not what was read of its body")
				}
			}
		}
		for _, k := range []string{"rd", "rdop", "consumed", "term", "after", "L", "lost", "body", "b", "cand", "dig", "kindbyte", "digits", "ascii", "raw", "into"} {
			s.Del(k)
		}
		s.DelPrefix("bytes#")
		s.DelPrefix("decoded#")
	case EvCall:
		if e.Inlined || e.Res == nil {
			return
		}
		if (e.Name() == "Bytes" || e.Name() == "String" || e.Name() == "Next") && e.Recv != nil && s.Get("into") != nil && bufferVal(e.Recv) == s.Get("into") {
			if e.Name() == "Next" {
				return
			}
			s.SetAdd("bytes", e.Res)
		}
		if e.Recv != nil && (e.Name() == "DecodeString" || e.Name() == "Decode") && strings.Contains(fmt.Sprint(e.Recv.Typ), "base64.Encoding") {
			c.site("base64 decoded", e)
			src := e.Args[len(e.Args)-1]
			for src.Op == "conv" {
				src = src.Args[0]
			}
			if !s.SetHas("bytes", src) {
				s.Report("accept", e, "something else than the body read is decoded")
			}
			s.SetAdd("decoded", e.Res)
		}
	case EvExit:
		if !rootExit(e) || len(e.Results) != 2 {
			return
		}
		err := e.Results[1]
		if s.NonNil(err) {
			d.rejected(s, e)
			return
		}
		c.site("ends of input", e)
		rd := s.Get("rd")
		op := ""
		if rd != nil {
			op, _ = s.Get("rdop").str()
		}
		eof := s.stdErr("io", "EOF")
		ok := false
		if rd != nil && eof != nil {
			eq, k := s.Eq(s.errOf(rd), eof)
			ok = eq && k && (op == "ReadByte" || op == "ReadFull")
		}
		if !ok {
			s.Report("end", e, "success may be reported though the input is not at its end")
		} else if s.Flag("consumed") {
			s.Report("end", e, "success may be reported though the input ended within a packet")
		}
	}
}

// rejected: the number a payload's packet starts with is refused only for a byte that is no digit, or for its size.
func (d *payloadDec) rejected(s *State, e *Event) {
	rd, l := s.Get("rd"), d.length(s)
	if rd == nil || s.Flag("term") || !s.IsNil(s.errOf(rd)) || s.Le(s.run.intVal(1<<20), l) {
		return
	}
	if op, _ := s.Get("rdop").str(); op != "ReadByte" {
		return
	}
	b := s.resOf(rd, 0)
	not := func(lo, hi int64) bool {
		for n := lo; n <= hi; n++ {
			if eq, k := s.Eq(b, s.run.constVal(constInt(n), b.Typ)); !k || eq {
				return false
			}
		}
		return true
	}
	text := func() bool {
		for _, k := range sortedKeys(s.Facts) {
			for _, v := range []*Val{s.Facts[k].a, s.Facts[k].b} {
				x := v
				for x != nil && x.Op == "conv" {
					x = x.Args[0]
				}
				if x != nil && x.Op == "bin" && token.Token(x.Idx) == token.SUB && x.Args[0] == b {
					if n, ok := x.Args[1].int64(); ok && n == '0' {
						if lt, k := s.Lt(s.run.constVal(constInt(9), v.Typ), v); k && lt {
							return true
						}
					}
				}
			}
		}
		return not('0', '9')
	}
	d.c.site("numbers refused", e)
	ok := false
	switch {
	case s.Flag("ascii"):
		ok = text()
	case s.Flag("raw") || s.Flag("kindbyte"):
		ok = not(0, 9)
	default: // the first byte
		ok = text() || not(0, 1)
	}
	if !ok {
		s.Report("refused", e, "a payload is refused for a byte that may be a digit of the length of a packet")
	}
}

// stdErr returns an error exported by another package.
func (s *State) stdErr(path, name string) *Val {
	for _, pkg := range s.run.P.SSA.AllPackages() {
		if pkg.Pkg.Path() == path {
			if g, ok := pkg.Members[name].(*ssa.Global); ok {
				return s.run.in.mk(Val{Op: "gval", Glob: g, Typ: deref(g.Type())})
			}
		}
	}
	return nil
}

// accumulated reports whether v is ten times l plus the digit b stands for, and whether b is an ASCII digit.
func (d *payloadDec) accumulated(s *State, v, l, b *Val) (dig *Val, ascii, ok bool) {
	conv := func(x *Val) *Val {
		for x.Op == "conv" {
			x = x.Args[0]
		}
		return x
	}
	digit := func(x *Val) bool {
		x = conv(x)
		if x == b {
			dig, ascii = x, false
			return true
		}
		if x.Op == "bin" && token.Token(x.Idx) == token.SUB && conv(x.Args[0]) == b {
			if n, k := x.Args[1].int64(); k && n == '0' {
				dig, ascii = x, true
				return true
			}
		}
		return false
	}
	ten := func(x *Val) bool {
		x = conv(x)
		if x.Op != "bin" || token.Token(x.Idx) != token.MUL {
			return false
		}
		for i := range x.Args {
			if n, k := x.Args[1-i].int64(); k && n == 10 && conv(x.Args[i]) == l {
				return true
			}
		}
		return false
	}
	v = conv(v)
	if n, k := l.int64(); k && n == 0 && digit(v) {
		return dig, ascii, true
	}
	if v.Op == "bin" && token.Token(v.Idx) == token.ADD {
		for i := range v.Args {
			if ten(v.Args[i]) && digit(v.Args[1-i]) {
				return dig, ascii, true
			}
		}
		// the constant of the digit may have moved out: l*10 + b - '0'
	}
	if v.Op == "bin" && token.Token(v.Idx) == token.SUB {
		if n, k := v.Args[1].int64(); k && n == '0' {
			if x := conv(v.Args[0]); x.Op == "bin" && token.Token(x.Idx) == token.ADD {
				for i := range x.Args {
					if ten(x.Args[i]) && conv(x.Args[1-i]) == b {
						z := s.run.in.mk(Val{Op: "bin", Idx: int(token.SUB), Args: []*Val{b, s.run.constVal(constInt('0'), b.Typ)}, Typ: b.Typ})
						return z, true, true
					}
				}
			}
		}
	}
	return nil, false, false
}
