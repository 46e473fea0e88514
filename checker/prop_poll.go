package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Typestate of the response and provenance of its body on every path of a polling connection's request handler: the pieces "+
		"written are followed as values through buffers, formatting and JSON encoding; loops over the packets are decided by an index invariant.",
		func(c *Check) { c.pollRules() })
}

// --- content -----------------------------------------------------------------------

// A piece of content is a string value, Op "json" (the JSON encoding of content), "text" or "bin" (the encoding of a
// packet for the text or binary format); content is Op "content" with its pieces.

func (s *State) content(ps ...*Val) *Val {
	var out []*Val
	for _, p := range ps {
		if p == nil {
			continue
		}
		if p.Op == "content" {
			out = append(out, p.Args...)
		} else if str, ok := p.str(); !ok || str != "" {
			out = append(out, p)
		}
	}
	var m []*Val
	for _, p := range out {
		if x, ok := p.str(); ok && len(m) > 0 {
			if y, ok := m[len(m)-1].str(); ok {
				m[len(m)-1] = s.run.strVal(y + x)
				continue
			}
		}
		if x, ok := p.str(); ok {
			p = s.run.strVal(x)
		}
		m = append(m, p)
	}
	return s.run.in.mk(Val{Op: "content", Args: m})
}

// bufKey is the monitor variable holding the content of a buffer.
func (s *State) bufContent(b *Val) *Val {
	for _, p := range s.SetVals("buffers") {
		if p.Args[0] == b {
			return p.Args[1]
		}
	}
	return s.content()
}

func (s *State) setBuf(b, c *Val) {
	for _, p := range s.SetVals("buffers") {
		if p.Args[0] == b {
			s.SetDel("buffers", p)
		}
	}
	s.SetAdd("buffers", s.run.in.mk(Val{Op: "pair", Args: []*Val{b, c}}))
}

// resolve returns the content a string or byte slice is known to be; an unknown one is a piece by itself.
func (s *State) resolve(v *Val) *Val {
	if v == nil {
		return s.content(s.run.in.mk(Val{Op: "unknown"}))
	}
	x := v
	for x != nil && (x.Op == "conv" || x.Op == "iface") {
		x = x.Args[0]
	}
	for _, p := range s.SetVals("strings") {
		if p.Args[0] == x {
			return p.Args[1]
		}
	}
	switch {
	case x.Op == "content":
		return x
	case x.Op == "bin" && token.Token(x.Idx) == token.ADD:
		return s.content(s.resolve(x.Args[0]), s.resolve(x.Args[1]))
	case isCallOf(x, "bytes", "TrimSpace") || isCallOf(x, "strings", "TrimSpace"):
		if c := s.resolve(x.Args[0]); len(c.Args) == 1 && c.Args[0].Op == "json" {
			return c
		}
	case isCallOf(x, "strings", "TrimSuffix", "TrimRight") || isCallOf(x, "bytes", "TrimSuffix", "TrimRight"):
		if c := s.resolve(x.Args[0]); len(c.Args) == 1 && c.Args[0].Op == "json" {
			if l, ok := s.strOf(x.Args[1]); ok && l == "\n" {
				return c
			}
		}
	}
	if _, ok := s.strOf(x); ok {
		return s.content(s.constOf(x))
	}
	return s.content(x)
}

// format returns the content of a formatted string.
func (s *State) format(f *Val, args []*Val) *Val {
	str, ok := s.strOf(f)
	if !ok {
		return s.content(s.run.in.mk(Val{Op: "unknown"}))
	}
	var ps []*Val
	for {
		i := strings.IndexByte(str, '%')
		if i < 0 || i+1 >= len(str) {
			break
		}
		ps = append(ps, s.run.strVal(str[:i]))
		switch c := str[i+1]; c {
		case '%':
			ps = append(ps, s.run.strVal("%"))
		case 's', 'v', 'd':
			if len(args) == 0 || args[0] == nil {
				ps = append(ps, s.run.in.mk(Val{Op: "unknown"}))
			} else if c == 'd' && args[0].Op != "const" && isIntVal(args[0].strip()) {
				ps = append(ps, s.run.in.mk(Val{Op: "dec", Args: []*Val{args[0].strip()}}))
			} else {
				ps = append(ps, s.resolve(args[0]))
			}
			if len(args) > 0 {
				args = args[1:]
			}
		default:
			ps = append(ps, s.run.in.mk(Val{Op: "unknown"}))
			if len(args) > 0 {
				args = args[1:]
			}
		}
		str = str[i+2:]
	}
	return s.content(append(ps, s.run.strVal(str))...)
}

// varargs lists the values of a variadic argument.
func (s *State) varargs(v *Val) []*Val {
	if v == nil || v.isNil() {
		return nil
	}
	if es := s.elems(v); es != nil {
		return es
	}
	return []*Val{nil, nil, nil, nil, nil, nil}
}

// isPacketMethod recognises methods of the packet types of the engine.
func (p *Prog) isPacketMethod(fn *ssa.Function, name string) bool {
	r := fn.Signature.Recv()
	if r == nil || fn.Name() != name {
		return false
	}
	n := namedOf(deref(r.Type()))
	return n != nil && n.Obj().Pkg() == p.Engine && types.Identical(n.Underlying(), p.engineType("Packet").Underlying())
}

// output recognises an operation that writes content to something: a response, a buffer.
func (s *State) output(e *Event) (dst, c *Val, ok bool) {
	if e.Kind != EvCall || e.Inlined || e.Meth == nil {
		return
	}
	p := s.run.P
	name := e.Name()
	switch {
	case e.Fn != nil && p.isPacketMethod(e.Fn, "WriteTo") && len(e.Args) == 1:
		op := "bin"
		if types.Identical(deref(e.Recv.Typ), p.engineType("Packet")) {
			op = "text"
		}
		return e.Args[0].strip(), s.content(s.run.in.mk(Val{Op: op, Args: []*Val{e.Recv}})), true
	case (name == "Write" || name == "WriteString") && e.Recv != nil && len(e.Args) == 1:
		return e.Recv.strip(), s.resolve(e.Args[0]), true
	case (name == "WriteByte" || name == "WriteRune") && e.Recv != nil && len(e.Args) == 1:
		if n, ok := s.num(e.Args[0]); ok {
			return e.Recv.strip(), s.content(s.run.strVal(string(rune(n)))), true
		}
		return e.Recv.strip(), s.content(e.Args[0]), true
	case pkgCall(e, "io", "WriteString") && e.Recv == nil:
		return e.Args[0].strip(), s.resolve(e.Args[1]), true
	case pkgCall(e, "io", "Copy") && e.Recv == nil:
		if b := bufferVal(e.Args[1]); b != nil {
			return e.Args[0].strip(), s.bufContent(b), true
		}
		return e.Args[0].strip(), s.content(s.run.in.mk(Val{Op: "unknown"})), true
	case name == "WriteTo" && e.Recv != nil && len(e.Args) == 1 && bufferVal(e.Recv) != nil:
		return e.Args[0].strip(), s.bufContent(bufferVal(e.Recv)), true
	case pkgCall(e, "fmt", "Fprintf"):
		return e.Args[0].strip(), s.format(e.Args[1], s.varargs(e.Args[2])), true
	case pkgCall(e, "fmt", "Fprint"):
		var ps []*Val
		for _, a := range s.varargs(e.Args[1]) {
			ps = append(ps, s.resolve(a))
		}
		return e.Args[0].strip(), s.content(ps...), true
	case pkgCall(e, "encoding/json", "Encode") && isCallOf(e.Recv.strip(), "encoding/json", "NewEncoder"):
		return e.Recv.strip().Args[0].strip(), s.content(s.run.in.mk(Val{Op: "json", Args: []*Val{s.resolve(e.Args[0])}})), true
	}
	return
}

// trackContent follows the content of buffers and strings.
func (s *State) trackContent(e *Event) {
	if e.Kind != EvCall || e.Inlined {
		return
	}
	if dst, c, ok := s.output(e); ok {
		if b := bufferVal(dst); b != nil {
			s.setBuf(b, s.content(s.bufContent(b), c))
		}
	}
	remember := func(v, c *Val) {
		if v = v.strip(); v != nil {
			s.SetAdd("strings", s.run.in.mk(Val{Op: "pair", Args: []*Val{v, c}}))
		}
	}
	if e.Recv != nil {
		if b := bufferVal(e.Recv); b != nil {
			switch e.Name() {
			case "String", "Bytes":
				remember(e.Res, s.bufContent(b))
			case "Reset":
				s.setBuf(b, s.content())
			case "Truncate":
				if n, ok := s.num(e.Args[0]); ok && n == 0 {
					s.setBuf(b, s.content())
				} else {
					s.setBuf(b, s.content(s.run.in.mk(Val{Op: "unknown"})))
				}
			}
		}
	}
	switch {
	case pkgCall(e, "fmt", "Sprintf"):
		remember(e.Res, s.format(e.Args[0], s.varargs(e.Args[1])))
	case pkgCall(e, "encoding/json", "Marshal"):
		remember(s.res(e, 0), s.content(s.run.in.mk(Val{Op: "json", Args: []*Val{s.resolve(e.Args[0])}})))
	}
}

// --- C13 ---------------------------------------------------------------------------

// samePacket reports whether ptr points to packet pkt or a copy of it.
func (s *State) samePacket(ptr, pkt *Val) bool {
	if ptr == pkt {
		return true
	}
	if ptr == nil || pkt == nil {
		return false
	}
	st, ok := s.run.P.engineType("Packet").Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		v := s.fieldNow(ptr, f)
		if v == nil {
			return false
		}
		if isFieldOf(v, pkt, f) {
			continue
		}
		if w := s.fieldNow(pkt, f); w == nil || w != v {
			return false
		}
	}
	return true
}

// madeFrom reports whether v is made from request r, an error reported about it excepted.
func madeFrom(v, r *Val) bool {
	if v == nil {
		return false
	}
	if v == r {
		return true
	}
	if v.Typ != nil && isErrorType(v.Typ) {
		x := v
		if x.Op == "ext" {
			x = x.Args[0]
		}
		if x.Op == "call" && x.Meth != nil && x.Meth.Pkg() != nil {
			switch x.Meth.Pkg().Path() {
			case "strconv", "net/url", "fmt", "errors": // their errors quote their arguments
			default:
				return false
			}
		}
	}
	for _, a := range v.Args {
		if madeFrom(a, r) {
			return true
		}
	}
	return false
}

func (c *Check) pollRules() {
	p := c.P
	pktT := p.engineType("Packet")
	payT := p.engineType("Payload")
	var mode, list *types.Var
	if st, ok := payT.Underlying().(*types.Struct); ok {
		mode = fieldOfType(payT, types.Typ[types.Bool])
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(deref(sl.Elem()), pktT) {
				list = st.Field(i)
			}
		}
	}
	if mode == nil || list == nil {
		c.undecided("the fields of Payload not recognised")
		return
	}
	isReadFrom := func(fn *ssa.Function) bool {
		r := fn.Signature.Recv()
		return r != nil && fn.Name() == "ReadFrom" && types.Identical(deref(r.Type()), payT)
	}
	n := 0
	for _, q := range c.queueConns() {
		if q.sv == nil {
			continue
		}
		n++
		q := q
		pays := cursor{"packets"}
		cfg := &Config{Name: "poll", Depth: 16}
		cfg.Opaque = func(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
			return isReadFrom(fn) || p.isPacketMethod(fn, "WriteTo")
		}
		cfg.OnEvent = func(s *State, e *Event) {
			if s.run.CurSpawn != nil {
				return
			}
			w, r := s.param(1), s.param(2)
			trackQuery(s, e)
			pays.edge(s, e)
			method := func(want string) bool {
				m := s.Get("method")
				v, ok := "", false
				if m != nil {
					v, ok = s.strOf(m)
				}
				return ok && v == want
			}
			numeric := func(v *Val) bool {
				v = v.strip()
				for _, x := range s.SetVals("parsed") {
					call, of := x.Args[0], x.Args[1]
					if !s.IsNil(s.resOf(call, 1)) {
						continue
					}
					if v == of || v == s.resOf(call, 0) || isCallOf(v, "strconv", "FormatUint") && v.Args[0] == s.resOf(call, 0) {
						return true
					}
				}
				return false
			}
			failed := func() bool { // a write to the client failed
				for _, err := range s.SetVals("wrote") {
					if s.NonNil(err) {
						return true
					}
				}
				return false
			}
			switch {
			case e.Kind == EvLoad && e.Addr.Op == "field&" && e.Addr.Args[0] == r && e.Addr.Field.Name() == "Method":
				s.Set("method", e.Val)
			case e.Kind == EvNilDeref:
				s.Report("panic", e, "the request handler dereferences nil")
			case e.Kind == EvCall && !e.Inlined && pkgCall(e, "strconv", "ParseUint") && len(e.Args) == 3:
				if b, ok := s.num(e.Args[1]); ok && b == 10 {
					s.SetAdd("parsed", s.run.in.mk(Val{Op: "pair", Args: []*Val{e.Res, e.Args[0].strip()}}))
				}
			}
			// the packet of a poll
			if ch, v, ok := chanRecv(e); ok && chanOf(ch, pktT) {
				if s.chanID(ch) == q.out {
					c.site("packets taken for a poll", e)
					if s.Get("pkt") != nil {
						s.Report("one-packet", e, "a poll takes a second packet")
					}
					if !method("GET") {
						s.Report("one-packet", e, "a request that is not known to be a poll takes a packet")
					}
					s.Set("pkt", v)
				} else if s.chanID(ch) == q.in {
					s.Report("one-packet", e, "a request takes a packet that was received")
				}
			}
			// responses
			body, status := s.Get("body"), s.Flag("status")
			if dst, code, ok := s.httpStatus(e); ok {
				if dst.strip() != w {
					return
				}
				c.site("statuses", e)
				if status || body != nil {
					s.Report("one-response", e, "a second response is written to a request")
				}
				s.SetFlag("status")
				n, known := s.num(code)
				if !known || n < 400 {
					if !known || n < 200 || n > 299 {
						s.Report("status", e, "a response may carry a status that is neither success nor an error")
					}
					switch {
					case s.Get("rerr") != nil:
						if !s.IsNil(s.Get("rerr")) {
							s.Report("status", e, "success is reported though the payload may not have been decoded")
						} else if !pays.active(s) && !s.Flag("allpackets") || pays.active(s) && !pays.done(s) {
							s.Report("lost-packet", e, "success is reported though not all packets of the payload were delivered")
						}
						c.site("successful posts", e)
					case s.Get("pkt") == nil || e.Name() == "Error":
						s.Report("status", e, "success is reported of a request that delivered nothing")
					}
				} else if e.Name() == "WriteHeader" {
					s.SetFlag("errstatus")
				}
				if e.Name() == "Error" {
					s.SetFlag("answered")
					if msg := s.resolve(e.Args[1]); madeFrom(msg, r) {
						s.Report("echo", e, "a response contains text of the request")
					}
				}
				return
			}
			s.trackContent(e)
			if dst, ct, ok := s.output(e); ok && dst == w {
				c.site("body writes", e)
				if s.Flag("answered") || s.Flag("errstatus") {
					s.Report("one-response", e, "a body is written to a request that was answered before")
				}
				if s.Get("rerr") != nil && !method("GET") {
					s.Report("one-response", e, "a packet is written to a posted request")
				}
				typ, known := s.strOf(s.Get("type"))
				if body == nil && (!known || typ == "") {
					s.Report("content-type", e, "the body is written before the content type is set")
				}
				if body == nil {
					body = s.content()
				}
				s.Set("body", s.content(body, ct))
				if err := s.res(e, s.errIndex(e)); err != nil {
					s.SetAdd("wrote", err)
				}
				for _, x := range ct.Args {
					switch x.Op {
					case "text", "bin", "json":
					default:
						if _, ok := x.str(); !ok && !numeric(x) {
							if madeFrom(x, r) {
								s.Report("echo", e, "a response contains text of the request that is not known to be a number")
							} else {
								s.Report("body", e, "a response contains something else than the packet (%v)", x)
							}
						}
					}
				}
				return
			}
			if e.Kind == EvCall && !e.Inlined && pkgCall(e, "net/http", "Set", "Add", "Del") && e.Recv != nil && isCallOf(e.Recv.strip(), "net/http", "Header") && e.Recv.strip().Args[0].strip() == w {
				c.site("headers", e)
				if status || body != nil {
					s.Report("late-header", e, "a header is set after the response was begun")
				}
				if k, ok := s.strOf(e.Args[0]); ok && strings.EqualFold(k, "content-type") && len(e.Args) == 2 {
					s.Set("type", e.Args[1])
				}
				if len(e.Args) == 2 && madeFrom(e.Args[1], r) {
					s.Report("echo", e, "a response header contains text of the request")
				}
			}
			c.postRules(s, e, q, pays, list, mode, isReadFrom, method)
			if e.Kind == EvExit && !e.Panic && len(s.Stack) == 1 {
				pkt := s.Get("pkt")
				if s.Flag("answered") || s.Flag("errstatus") {
					if pkt != nil && !s.IsNil(pkt) && !s.closedRecv(pkt) {
						s.Report("one-packet", e, "a poll took a packet but answers with an error: the packet is lost")
					}
					return
				}
				if failed() {
					return
				}
				if body == nil {
					if s.Get("rerr") == nil || !status {
						s.Report("one-response", e, "a request is not answered")
					}
					return
				}
				c.site("polls answered", e)
				c.bodyRules(s, e, body, pkt, numeric)
			}
		}
		c.explore(cfg, []*ssa.Function{q.sv}, nil)
	}
	if n == 0 {
		c.undecided("no polling transport found")
	}
	c.need("packets taken for a poll", 1)
	c.need("body writes", 2)
	c.need("headers", 1)
	c.need("statuses", 3)
	c.need("payloads decoded", 1)
	c.need("packets delivered", 1)
	c.need("successful posts", 1)
	c.need("polls answered", 1)

	// encoding a packet fails only if writing does
	var ws []*ssa.Function
	for _, t := range p.namedTypes() {
		if t.Obj().Pkg() == p.Engine {
			if fn := p.method(types.NewPointer(t), "WriteTo"); fn != nil && p.isPacketMethod(fn, "WriteTo") {
				ws = append(ws, fn)
			}
		}
	}
	c.explore(&Config{Name: "encode", OnEvent: func(s *State, e *Event) {
		if !rootExit(e) {
			return
		}
		c.site("encoders", e)
		err := e.Results[len(e.Results)-1]
		if s.IsNil(err) {
			return
		}
		x := err
		if x.Op == "ext" {
			x = x.Args[0]
		}
		if x.Op != "call" || x.Meth == nil || !strings.HasPrefix(x.Meth.Name(), "Write") {
			s.Report("encode", e, "encoding a packet may fail otherwise than by a failing write")
		}
	}}, ws, nil)
	c.need("encoders", 2)
}

// errIndex is the index of the last result of call e.
func (s *State) errIndex(e *Event) int {
	if e.Res != nil {
		if t, ok := e.Res.Typ.(*types.Tuple); ok {
			return t.Len() - 1
		}
	}
	return 0
}

// bodyRules checks the body of a poll's response.
func (c *Check) bodyRules(s *State, e *Event, body, pkt *Val, numeric func(*Val) bool) {
	p := c.P
	typ, _ := s.strOf(s.Get("type"))
	ps := body.Args
	var enc *Val
	switch {
	case len(ps) == 1 && (ps[0].Op == "text" || ps[0].Op == "bin"):
		enc = ps[0]
		if is, _ := s.queryIs("j", ""); !is {
			s.Report("format", e, "a poll that may ask for JSONP is answered without")
		}
		if b64, _ := s.queryIs("b64", "1"); enc.Op == "bin" && b64 {
			s.Report("format", e, "a poll that asks for base64 is answered in binary")
		}
		if _, no := s.queryIs("b64", "1"); enc.Op == "bin" && !no {
			s.Report("format", e, "a poll that may ask for base64 is answered in binary")
		}
		if enc.Op == "text" && !strings.HasPrefix(typ, "text/plain") || enc.Op == "bin" && !strings.HasPrefix(typ, "application/octet-stream") {
			s.Report("content-type", e, "the content type of a poll's response is not that of its format")
		}
	case len(ps) == 5:
		a, _ := ps[0].str()
		b, _ := ps[2].str()
		d, _ := ps[4].str()
		if a != "___eio[" || b != "](" || d != ");" || ps[3].Op != "json" || len(ps[3].Args[0].Args) != 1 || ps[3].Args[0].Args[0].Op != "text" {
			s.Report("jsonp", e, "a JSONP response is not the call of the callback slot with the packet's text as a JSON string")
			return
		}
		enc = ps[3].Args[0].Args[0]
		if !numeric(ps[1]) {
			s.Report("echo", e, "the index of a JSONP response is not known to be a number")
		}
		if x := ps[1].strip(); s.queryKey(x) != "j" && x.find(func(y *Val) bool { return s.queryKey(y) == "j" }) == nil {
			s.Report("jsonp", e, "a JSONP response calls another slot than the one asked for")
		}
		if !strings.Contains(typ, "javascript") {
			s.Report("content-type", e, "the content type of a JSONP response is not that of a script")
		}
		c.site("JSONP responses", e)
	default:
		s.Report("body", e, "a poll is not answered with exactly one packet (%v)", body)
		return
	}
	ptr := enc.Args[0]
	if pkt != nil {
		if !s.samePacket(ptr, pkt) {
			s.Report("one-packet", e, "a poll is answered with another packet than the one taken")
		}
	} else if n, ok := s.num(s.fieldNow(ptr, p.pktType())); !ok || n != p.engineConst("PacketTypeNoop") {
		s.Report("one-packet", e, "a poll that took no packet is answered with another one than noop")
	}
}

// postRules follows a posted payload.
func (c *Check) postRules(s *State, e *Event, q *queueConn, pays cursor, list, mode *types.Var, isReadFrom func(*ssa.Function) bool, method func(string) bool) {
	p := c.P
	pktT := p.engineType("Packet")
	r := s.param(2)
	is := func(v *Val, str string) (bool, bool) {
		if v == nil {
			return false, false
		}
		return s.Eq(v, s.run.constVal(constant.MakeString(str), v.Typ))
	}
	switch {
	case e.Kind == EvCall && !e.Inlined && pkgCall(e, "mime", "ParseMediaType"):
		v := e.Args[0].strip()
		if !isCallOf(v, "net/http", "Get") || len(v.Args) != 2 {
			return
		}
		f, b := fieldLoad(v.Args[0])
		if k, ok := s.strOf(v.Args[1]); !ok || !strings.EqualFold(k, "content-type") || f == nil || f.Name() != "Header" || b != r {
			return
		}
		s.Set("mtype", s.res(e, 0))
		s.Set("mpar", s.res(e, 1))
		s.Set("merr", s.res(e, 2))
	case e.Kind == EvLookup && s.Get("mpar") != nil && e.Args[0].strip() == s.Get("mpar"):
		if k, ok := s.strOf(e.Args[1]); ok && strings.EqualFold(k, "charset") {
			s.SetAdd("charset", s.res(e, 0))
		}
	case e.Kind == EvCall && !e.Inlined && pkgCall(e, "strings", "ToLower") && s.SetHas("charset", e.Args[0]):
		s.SetAdd("charset", e.Res)
	case e.Kind == EvCall && !e.Inlined && pkgCall(e, "strings", "EqualFold") && len(e.Args) == 2:
		for i := range e.Args {
			if k, ok := s.strOf(e.Args[1-i]); ok && strings.EqualFold(k, "utf-8") && s.SetHas("charset", e.Args[i]) {
				s.SetAdd("utf8", e.Res)
			}
		}
	case e.Kind == EvCall && e.Fn != nil && isReadFrom(e.Fn) && !e.Inlined:
		c.site("payloads decoded", e)
		pay := e.Recv
		if s.Get("pay") != nil {
			s.Report("post", e, "two payloads are decoded for a request")
		}
		if !method("POST") {
			s.Report("post", e, "the payload of a request that is not known to be a post is decoded")
		}
		if len(e.Args) != 1 || e.Args[0].find(func(x *Val) bool {
			f, b := fieldLoad(x)
			return f != nil && f.Name() == "Body" && b == r
		}) == nil {
			s.Report("post", e, "something else than the body of the request is decoded")
		}
		if !s.IsNil(s.Get("merr")) {
			s.Report("media-type", e, "a payload is decoded though its content type is not known to be valid")
		}
		bin, _ := is(s.Get("mtype"), "application/octet-stream")
		txt, _ := is(s.Get("mtype"), "text/plain")
		if txt {
			txt = false
			for _, v := range s.SetVals("charset") {
				if eq, k := is(v, "utf-8"); eq && k {
					txt = true
				}
			}
			for _, v := range s.SetVals("utf8") {
				txt = txt || s.IsTrue(v)
			}
		}
		m := s.fieldNow(pay, mode)
		if m == nil || !bin && !txt {
			s.Report("media-type", e, "a payload is decoded though its content type is not known to be supported")
		} else if bin && !s.IsTrue(m) || txt && !s.IsFalse(m) {
			s.Report("media-type", e, "a payload is decoded in another format than its content type says")
		}
		s.Set("pay", pay)
		s.Set("rerr", s.res(e, 1))
		s.run.clobber(s, pay)
		s.SetFlag("fresh")
	case e.Kind == EvLoad && e.Addr.Op == "field&" && e.Addr.Field == list && e.Addr.Args[0] == s.Get("pay") && s.Get("rerr") != nil:
		if s.Flag("fresh") {
			s.Del("fresh")
			pays.start(s, e.Val)
		}
	}
	if ch, v, ok := chanSend(e); ok && chanOf(ch, pktT) {
		c.site("packets delivered", e)
		if s.chanID(ch) != q.in {
			s.Report("post", e, "a request sends a packet elsewhere than to the connection's reader")
		}
		if !s.IsNil(s.Get("rerr")) {
			s.Report("post", e, "packets of a payload that may not have been decoded are delivered")
		}
		if s.SetHas("sent", v) {
			s.Report("post", e, "a packet delivered before is delivered again")
		}
		s.SetAdd("sent", v)
		el := v
		if v.Op == "alloc" {
			el = s.copiedFrom(v)
		}
		if el == nil || !pays.visit(s, el) {
			s.Report("post-order", e, "the packets of a payload are not delivered one after the other")
		}
	}
	if e.Kind == EvStore && e.Addr.Op == "field&" {
		for _, v := range s.SetVals("sent") {
			if e.Addr.Args[0] == v {
				s.Report("post", e, "a packet is overwritten after it was delivered")
			}
		}
	}
}

// copiedFrom returns the address of the struct the one at ptr is a copy of.
func (s *State) copiedFrom(ptr *Val) (src *Val) {
	st, ok := deref(ptr.Typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f, b := fieldLoad(s.fieldNow(ptr, st.Field(i)))
		if f != st.Field(i) || src != nil && b != src {
			return nil
		}
		src = b
	}
	return
}
