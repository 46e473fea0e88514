package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// readers are the goroutines that read a session's packets.
type readers struct {
	sites map[ssa.Instruction]*Spawn
}

func (c *Check) findReaders(report bool) *readers {
	p := c.P
	sites, others := c.goSites(p.sockOpaque, func(s *State, e *Event) bool { return p.sockCall(e, "Read") })
	if report {
		for _, e := range others {
			if p.isSocketMethod(e.Instr.Parent(), "Read") {
				continue
			}
			c.fail("second-reader", p.pos(e.Pos()), "a session is read by something else than a goroutine of its own")
		}
	}
	srv, cli := 0, 0
	for _, sp := range sites {
		if p.fromServer(sp) {
			srv++
		} else {
			cli++
		}
	}
	if srv == 0 || cli == 0 {
		c.undecided("no goroutine reading the packets of a server's (or of a client's) session found")
	}
	return &readers{sites}
}

func (r *readers) in(s *State) bool {
	sp := s.run.CurSpawn
	return sp != nil && sp.Kind == "go" && r.sites[sp.Instr] != nil
}

// starts reports whether e starts a reader.
func (r *readers) starts(e *Event) bool {
	if e.Kind != EvGo {
		return false
	}
	if r.sites[e.Instr] != nil {
		return true
	}
	for _, sp := range r.sites {
		if e.Fn != nil && sp.Fn == e.Fn {
			return true
		}
	}
	return false
}

// isFieldOf reports whether v was loaded from field f of what ptr points to.
func isFieldOf(v, ptr *Val, f *types.Var) bool {
	g, b := fieldLoad(v)
	return g != nil && g == f && b == ptr
}

// --- C15 ---------------------------------------------------------------------------

func (c *Check) readerRules() {
	p := c.P
	rd := c.findReaders(true)
	term := c.terminators()
	fType, fKind, fData := p.pktType(), p.pktKind(), p.pktData()
	if fType == nil || fKind == nil || fData == nil {
		c.undecided("the fields of engine.Packet are not as expected")
		return
	}
	codes := map[string]int64{"message": p.engineConst("PacketTypeMessage"), "ping": p.engineConst("PacketTypePing"), "pong": p.engineConst("PacketTypePong")}
	order := []string{"message", "ping", "pong"}
	cfg := &Config{Name: "reader", Opaque: p.sockOpaque, Depth: 12}
	cfg.OnEvent = func(s *State, e *Event) {
		if p.connOp(e, "ReadPacket") && !e.Inlined && p.isSessionConn(e.Recv) && !p.isSocketMethod(s.rootFn(), "Read") {
			s.Report("second-reader", e, "a packet is read from a session's transport by something else than the session's Read")
		}
		if !rd.in(s) {
			if rd.starts(e) {
				c.site("readers started", e)
			}
			if ev, ok := p.firedEvent(s, e); ok && (ev == "message" || ev == "ping" || ev == "pong") {
				s.Report("fired-elsewhere", e, "event %q is fired by something else than the session's reader", ev)
			}
			return
		}
		server := p.fromServer(s.run.CurSpawn)
		is := func(v *Val, n int64) (eq, known bool) {
			if v == nil {
				return false, false
			}
			return s.Eq(v, s.run.constVal(constInt(n), v.Typ))
		}
		pkt, rerr := s.Get("p"), s.Get("rerr")
		paused := func() bool {
			is, k := s.isGval(rerr, p.Engine, "ErrPollingConnPaused")
			return k && is
		}
		settle := func(what string) {
			if pkt == nil || s.NonNil(rerr) {
				return
			}
			for _, ev := range order {
				if ev != "message" && !server {
					continue
				}
				if eq, k := is(s.Get("ptype"), codes[ev]); k && !eq {
					continue
				}
				if s.Int("n:"+ev) == 0 {
					s.Report("packet-dropped", e, "%s though the packet read before may be a %s packet that was not handed to its handler", what, ev)
				}
			}
			if ok := s.Get("ok"); ok != nil && s.IsTrue(ok) && !s.Flag("called") {
				s.Report("packet-dropped", e, "%s though the handler found for the packet was not called", what)
			}
		}
		if s.chose(e, term) {
			s.SetFlag("stop")
		}
		switch {
		case p.sockCall(e, "Read"):
			c.site("packets read", e)
			settle("another packet is read")
			if rerr != nil && !s.IsNil(rerr) && !(server && paused()) {
				s.Report("read-after-failure", e, "another packet is read though reading failed")
			}
			s.DelPrefix("n:")
			s.Del("ptype")
			s.Del("ok")
			s.Del("called")
			s.Del("ev")
			s.Set("so", e.Recv)
			s.Set("p", s.res(e, 0))
			s.Set("rerr", s.res(e, 1))
		case e.Kind == EvLoad && pkt != nil && e.Addr.Op == "field&" && e.Addr.Args[0] == pkt && e.Addr.Field == fType:
			if s.Get("ptype") == nil {
				s.Set("ptype", e.Val)
			}
		case e.Kind == EvStore && pkt != nil && e.Addr.Op == "field&" && e.Addr.Args[0] == pkt:
			s.Report("packet-modified", e, "the packet read is changed before it is handled")
		case e.Kind == EvLookup:
			ev, ok := p.firedEvent(s, e)
			if !ok {
				return
			}
			c.site("events fired", e)
			if ev == "?" {
				s.Report("wrong-event", e, "the event fired is not known")
				return
			}
			s.Set("ev", s.run.strVal(ev))
			n, named := codes[ev]
			if !named {
				return
			}
			s.Inc("n:" + ev)
			if pkt == nil || !s.IsNil(rerr) {
				s.Report("failed-read-handled", e, "event %q is fired though no packet is known to have been read", ev)
				return
			}
			if eq, k := is(s.Get("ptype"), n); !k || !eq {
				s.Report("wrong-event", e, "event %q is fired for a packet that is not known to be a %s packet", ev, ev)
			}
			if s.Int("n:"+ev) > 1 {
				s.Report("handled-twice", e, "event %q is fired twice for one packet", ev)
			}
			s.Set("ok", s.res(e, 1))
			s.Del("called")
		case p.handlerCall(e):
			ev, _ := s.strOf(s.Get("ev"))
			if _, named := codes[ev]; !named || len(e.Args) != 3 {
				return
			}
			c.site("handlers called", e)
			if s.Flag("called") {
				s.Report("handled-twice", e, "the handler of event %q is called twice for one packet", ev)
			}
			s.SetFlag("called")
			if !isFieldOf(e.Args[1], pkt, fKind) || !isFieldOf(e.Args[2], pkt, fData) {
				s.Report("wrong-data", e, "the handler of event %q is not called with the kind and data of the packet read", ev)
			}
			if e.Args[0] != s.Get("so") {
				s.Report("wrong-data", e, "the handler of event %q is called with another session", ev)
			}
		case rootExit(e):
			settle("the reader ends")
			if !s.Flag("stop") && (rerr == nil || !s.NonNil(rerr)) {
				s.Report("reader-ends", e, "the session's reader ends though reading did not fail: the session's packets are not handled any more")
			}
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), nil)
	c.need("readers started", 2)
	c.need("packets read", 2)
	c.need("events fired", 1)
	c.need("handlers called", 1)
}

// --- C10 ---------------------------------------------------------------------------

// isSessionTable reports whether m is a table of sessions by id.
func (p *Prog) isSessionTable(m *Val) bool {
	if m == nil || m.Typ == nil {
		return false
	}
	t, ok := m.Typ.Underlying().(*types.Map)
	return ok && types.Identical(deref(t.Elem()), p.socketType())
}

// idField is the field Sid returns.
func (c *Check) idField() (f *types.Var) {
	fn := c.P.method(types.NewPointer(c.P.socketType()), "Sid")
	c.probe(&Config{Name: "sid", OnEvent: func(s *State, e *Event) {
		if rootExit(e) && len(e.Results) == 1 {
			if g, b := fieldLoad(e.Results[0]); g != nil && b == s.param(0) {
				f = g
			}
		}
	}}, fn)
	if f == nil {
		c.undecided("Sid returns no field of the session")
	}
	return
}

// idOf reports whether key is the id of session so.
func (s *State) idOf(key, so *Val, id *types.Var) bool {
	if key == nil || so == nil {
		return false
	}
	return isFieldOf(key, so, id) || key == s.fieldNow(so, id)
}

func (c *Check) releaseRules() {
	p := c.P
	rd := c.findReaders(false)
	id := c.idField()
	sockT := p.socketType()
	cfg := &Config{Name: "release", Opaque: p.sockOpaque, Depth: 12}
	cfg.OnEvent = func(s *State, e *Event) {
		ev, fired := p.firedEvent(s, e)
		if rd.in(s) {
			server := p.fromServer(s.run.CurSpawn)
			switch {
			case p.sockCall(e, "Read"):
				s.Set("so", e.Recv)
				if s.Int("closefired") > 0 {
					s.Report("close-event", e, "a session goes on after its close event was fired")
				}
			case fired && ev == "close":
				c.site("close events", e)
				s.Inc("closefired")
				if s.Int("closefired") > 1 {
					s.Report("close-event", e, "the close event of a session is fired twice")
				}
			case p.sockCall(e, "Close"):
				s.SetAdd("closed", e.Recv)
			case e.Kind == EvMapDelete && p.isSessionTable(e.Args[0]):
				s.SetAdd("removed", e.Args[1])
				c.site("sessions forgotten", e)
			case rootExit(e):
				c.site("ends of readers", e)
				so := s.Get("so")
				if s.Int("closefired") == 0 {
					s.Report("close-event", e, "a session ends without its close event being fired")
				}
				closed := s.SetVals("closed")
				if len(closed) == 0 || so != nil && !s.SetHas("closed", so) {
					s.Report("not-closed", e, "a session's reader ends without closing the session")
				}
				if server {
					ok := false
					for _, k := range s.SetVals("removed") {
						for _, x := range closed {
							ok = ok || s.idOf(k, x, id)
						}
					}
					if !ok {
						s.Report("not-forgotten", e, "a session's reader ends without the server forgetting the session's id")
					}
				}
			}
			return
		}
		if fired && ev == "close" {
			s.Report("close-event", e, "the close event is fired by something else than the session's reader")
		}
		// sessions made
		switch {
		case e.Kind == EvMapUpdate && p.isSessionTable(e.Args[0]):
			if s.Get("new") != nil {
				s.Report("not-released", e, "two sessions are made")
			}
			s.Set("new", e.Args[2])
			s.Set("key", e.Args[1])
			c.site("sessions made", e)
		case e.Kind == EvMapDelete && p.isSessionTable(e.Args[0]):
			if n := s.Get("new"); n != nil && (e.Args[1] == s.Get("key") || s.idOf(e.Args[1], n, id)) {
				s.SetFlag("removed")
			}
		case p.sockCall(e, "Close") && e.Recv == s.Get("new"):
			s.SetFlag("closed")
		}
		if ch, v, ok := chanSend(e); ok && chanOf(ch, sockT) {
			c.site("sessions handed to the dispatcher", e)
			if v != s.Get("new") {
				s.Report("unregistered", e, "a session is served that the server cannot find by its id")
			}
			s.SetFlag("handed")
		}
		// connections
		switch {
		case e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("Acceptor"), "Accept"),
			e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("Dialer"), "Dial"):
			s.Set("conn", s.res(e, 0))
			s.Set("connerr", s.res(e, 1))
			c.site("connections obtained", e)
		case e.Kind == EvStore && p.connFieldAddr(e.Addr) && e.Val == s.Get("conn"):
			s.SetFlag("kept")
			s.Set("keptin", e.Addr.Args[0])
		case p.connOp(e, "Close") && e.Recv == s.Get("conn"):
			s.SetFlag("connclosed")
		}
		// the dispatcher
		settle := func() {
			if v := s.Get("got"); v != nil && !s.closedRecv(v) && s.Int("readers") != 1 {
				s.Report("reader-count", e, "%d readers are started for a session made", s.Int("readers"))
			}
		}
		if ch, v, ok := chanRecv(e); ok && chanOf(ch, sockT) {
			settle()
			s.Set("got", v)
			s.SetInt("readers", 0)
			c.site("sessions dispatched", e)
		}
		if rd.starts(e) {
			s.Inc("readers")
			if s.Int("readers") > 1 {
				s.Report("reader-count", e, "more than one reader is started for a session")
			}
		}
		if !rootExit(e) {
			return
		}
		settle()
		given := false
		for _, r := range e.Results {
			given = given || r == s.Get("new")
		}
		if s.Get("new") != nil && !given {
			h, r, x := s.Flag("handed"), s.Flag("removed"), s.Flag("closed")
			switch {
			case h && (r || x):
				s.Report("not-released", e, "a session is released though it was handed to the dispatcher")
			case !h && !r:
				s.Report("not-released", e, "a session that is not served stays known to the server")
			case !h && !x:
				s.Report("not-released", e, "a session that is not served is not closed")
			}
		}
		if k := s.Get("connerr"); k != nil && !s.NonNil(k) && !s.Flag("connclosed") && !s.Flag("kept") {
			s.Report("connection-leaked", e, "a connection is neither closed nor kept by a session")
		}
		// Dial
		n := len(e.Results)
		if s.Get("connerr") == nil || n != 2 || s.run.CurSpawn != nil || !types.Identical(deref(e.Results[0].Typ), p.engineType("Client")) {
			return
		}
		c.site("results of Dial", e)
		err := e.Results[1]
		switch {
		case s.NonNil(s.Get("connerr")):
			if !s.NonNil(err) {
				s.Report("dial-result", e, "a failed dial is reported as success")
			}
		case !s.IsNil(err):
			if !s.Flag("connclosed") {
				s.Report("connection-leaked", e, "the connection of a client whose handshake failed is not closed")
			}
			if s.Int("readers") != 0 {
				s.Report("dial-result", e, "a client is served though its handshake failed")
			}
		default:
			if s.Int("readers") != 1 {
				s.Report("reader-count", e, "%d readers are started for a client", s.Int("readers"))
			}
			if s.Flag("connclosed") {
				s.Report("dial-result", e, "the connection of a client is closed though its handshake succeeded")
			}
			if !s.NonNil(e.Results[0]) {
				s.Report("dial-result", e, "no client is returned though the handshake succeeded")
			}
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), nil)
	c.need("close events", 1)
	c.need("sessions forgotten", 1)
	c.need("ends of readers", 2)
	c.need("sessions made", 1)
	c.need("sessions handed to the dispatcher", 1)
	c.need("sessions dispatched", 1)
	c.need("connections obtained", 2)
	c.need("results of Dial", 1)
}

// --- C11 ---------------------------------------------------------------------------

// elems returns the elements of a slice literal, or nil.
func (s *State) elems(v *Val) []*Val {
	v = v.strip()
	if v != nil && v.Op == "make" && len(v.Args) > 0 && v.Typ != nil {
		sl, ok := v.Typ.Underlying().(*types.Slice)
		if n, k := v.Args[0].int64(); ok && k && n <= 8 {
			out := []*Val{}
			for i := int64(0); i < n; i++ {
				out = append(out, s.element(v, i, sl.Elem()))
			}
			return out
		}
	}
	if v != nil && v.Op == "append" && len(v.Args) == 2 {
		out, more := []*Val{}, s.elems(v.Args[1])
		if !s.IsNil(v.Args[0]) {
			out = s.elems(v.Args[0])
		}
		if out == nil || more == nil {
			return nil
		}
		out = append(out, more...)
		for _, x := range out {
			if x == nil {
				return nil
			}
		}
		return out
	}
	if v == nil || v.Op != "slice" || v.Args[0].Op != "alloc" || v.Args[1] != nil && !isZero(v.Args[1]) {
		return nil
	}
	at, ok := deref(v.Args[0].Typ).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	n := at.Len()
	if h := v.Args[2]; h != nil {
		m, ok := h.int64()
		if !ok || m > n {
			return nil
		}
		n = m
	}
	out := []*Val{}
	for i := int64(0); i < n; i++ {
		out = append(out, s.element(v.Args[0], i, at.Elem()))
	}
	return out
}

// millis returns d of a number of milliseconds computed from duration d.
func millis(v *Val) *Val {
	v = v.strip()
	for v != nil && v.Op == "conv" {
		v = v.Args[0]
	}
	if v == nil {
		return nil
	}
	if v.Op == "bin" && token.Token(v.Idx) == token.QUO {
		if n, ok := v.Args[1].int64(); ok && n == 1000000 {
			return v.Args[0]
		}
	}
	if isCallOf(v, "time", "Milliseconds") {
		return v.Args[0]
	}
	return nil
}

// durations finds where a server's ping interval and timeout come from: parameters of the function making it, or fields
// of the server set from them.
type durations struct {
	fn     *ssa.Function
	fields map[*types.Var]int // Server fields by parameter
}

func (c *Check) serverDurations() *durations {
	p := c.P
	d := &durations{p.function(p.Engine, "NewServer"), map[*types.Var]int{}}
	if d.fn == nil {
		c.undecided("NewServer not found")
		return d
	}
	c.probe(&Config{Name: "durations", OnEvent: func(s *State, e *Event) {
		if e.Kind == EvStore && e.Addr.Op == "field&" && types.Identical(deref(e.Addr.Args[0].Typ), p.engineType("Server")) {
			if i := d.of(e.Val); i >= 0 && e.Val.Op == "param" {
				d.fields[e.Addr.Field] = i
			}
		}
	}}, d.fn)
	return d
}

// of returns which parameter of NewServer duration v is (0 the interval, 1 the timeout), or -1.
func (d *durations) of(v *Val) int {
	if v == nil || d.fn == nil {
		return -1
	}
	v = v.strip()
	if v.Op == "param" && v.Typ.String() == "time.Duration" && v.Leaf == paramLeaf(d.fn, v.Idx) {
		return v.Idx
	}
	if f, _ := fieldLoad(v); f != nil {
		if i, ok := d.fields[f]; ok {
			return i
		}
	}
	return -1
}

// announced returns which duration of the open packet v is: 0 PingInterval, 1 PingTimeout or -1.
func announced(v *Val) int {
	if f, _ := fieldLoad(v); f != nil {
		switch f.Name() {
		case "PingInterval":
			return 0
		case "PingTimeout":
			return 1
		}
	}
	return -1
}

// linear writes v as a combination of the durations which tells apart.
func linear(v *Val, which func(*Val) int) (c [2]int64, ok bool) {
	if v == nil {
		return
	}
	v = v.strip()
	if i := which(v); i == 0 || i == 1 {
		c[i] = 1
		return c, true
	}
	switch v.Op {
	case "conv":
		return linear(v.Args[0], which)
	case "bin":
		x, okx := linear(v.Args[0], which)
		y, oky := linear(v.Args[1], which)
		switch token.Token(v.Idx) {
		case token.ADD:
			return [2]int64{x[0] + y[0], x[1] + y[1]}, okx && oky
		case token.MUL:
			if n, k := v.Args[1].int64(); k {
				return [2]int64{x[0] * n, x[1] * n}, okx
			}
			if n, k := v.Args[0].int64(); k {
				return [2]int64{y[0] * n, y[1] * n}, oky
			}
		}
	}
	return c, false
}

// isLinear reports whether v is a times the interval plus b times the timeout.
func isLinear(v *Val, which func(*Val) int, a, b int64) bool {
	c, ok := linear(v, which)
	return ok && c == [2]int64{a, b}
}

func (c *Check) openRules() {
	p := c.P
	rd := c.findReaders(false)
	id := c.idField()
	sockT := p.socketType()
	fType, fData := p.pktType(), p.pktData()
	str := p.engineConst("MessageTypeString")
	dur := c.serverDurations()
	readF, writeF := c.durationField("SetReadDeadline"), c.durationField("SetWriteDeadline")
	params, _ := p.engineType("Parameters").Underlying().(*types.Struct)
	if params == nil || fType == nil || fData == nil {
		c.undecided("Parameters or Packet are not as expected")
		return
	}
	pf := map[string]*types.Var{}
	for i := 0; i < params.NumFields(); i++ {
		pf[params.Field(i).Name()] = params.Field(i)
	}
	inits := cursor{"inits"}
	cfg := &Config{Name: "open", Opaque: p.sockOpaque, Depth: 14}
	cfg.OnEvent = func(s *State, e *Event) {
		inits.edge(s, e)
		if rd.in(s) && p.fromServer(s.run.CurSpawn) {
			switch {
			case e.Kind == EvCall && e.FnVal != nil && !e.Inlined && len(e.Args) == 1 && types.Identical(deref(e.Args[0].Typ), sockT):
				s.Inc("onopen")
				s.Set("opened", e.Args[0])
				c.site("open callbacks", e)
				if s.Int("onopen") > 1 {
					s.Report("open-callback", e, "the open callback is called twice for a session")
				}
			case p.sockCall(e, "Read"):
				if s.Int("onopen") == 0 {
					s.Report("open-callback", e, "a session's packets are read before the open callback has completed")
				} else if s.Get("opened") != e.Recv {
					s.Report("open-callback", e, "the open callback is called for another session than the one read")
				}
				c.site("first reads", e)
			}
			return
		}
		// the dispatcher
		if ch, v, ok := chanRecv(e); ok && chanOf(ch, sockT) {
			s.Set("so", v)
			s.Del("open")
		}
		so := s.Get("so")
		if so != nil && p.sockCall(e, "Emit") && e.Recv == so {
			ev, _ := s.strOf(e.Args[0])
			if ev != "open" {
				if !s.Flag("open") {
					s.Report("open-late", e, "another packet is sent on a new session before the open packet")
				}
				return
			}
			c.site("open packets", e)
			if s.Flag("open") {
				s.Report("open-twice", e, "two open packets are sent on a new session")
			}
			s.SetFlag("open")
			if n, ok := s.num(e.Args[1]); !ok || n != str {
				s.Report("open-packet", e, "the open packet is not a text packet")
			}
			ptr := e.Args[2].strip()
			get := func(n string) *Val { return s.fieldNow(ptr, pf[n]) }
			if !s.idOf(get("SID"), so, id) {
				s.Report("open-packet", e, "the id announced is not the session's (%v)", get("SID"))
			}
			up := s.elems(get("Upgrades"))
			name := ""
			if len(up) == 1 {
				name, _ = s.strOf(up[0])
			}
			if name != "websocket" {
				s.Report("open-packet", e, "the upgrades announced are not just websocket")
			}
			if dur.of(millis(get("PingInterval"))) != 0 {
				s.Report("open-packet", e, "the ping interval announced is not the configured one in milliseconds (%v)", get("PingInterval"))
			}
			if dur.of(millis(get("PingTimeout"))) != 1 {
				s.Report("open-packet", e, "the ping timeout announced is not the configured one in milliseconds (%v)", get("PingTimeout"))
			}
		}
		if so != nil && rd.starts(e) {
			c.site("readers started", e)
			if !s.Flag("open") {
				s.Report("open-late", e, "a session's reader is started before its open packet is sent")
			}
		}
		// Dial
		switch {
		case e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("Dialer"), "Dial"):
			s.Set("conn", s.res(e, 0))
			s.Set("connerr", s.res(e, 1))
			for i, prm := range s.rootFn().Params {
				if sl, ok := prm.Type().Underlying().(*types.Slice); ok {
					if _, ok := sl.Elem().Underlying().(*types.Signature); ok {
						inits.start(s, s.param(i))
					}
				}
			}
		case s.Get("conn") == nil:
			return
		case p.connOp(e, "ReadPacket") && e.Recv == s.Get("conn"):
			if s.Get("p") != nil {
				s.Report("client-open", e, "a second packet is read during the handshake")
			}
			s.Set("p", s.res(e, 0))
			s.Set("perr", s.res(e, 1))
			c.site("open packets read", e)
		case e.Kind == EvCall && pkgCall(e, "encoding/json", "Unmarshal") && s.Get("p") != nil:
			if isFieldOf(e.Args[0], s.Get("p"), fData) {
				s.Set("param", e.Args[1].strip())
				s.Set("paramerr", s.res(e, 0))
			}
		case e.Kind == EvStore && p.connFieldAddr(e.Addr) && e.Val == s.Get("conn"):
			s.Set("sock", e.Addr.Args[0])
			c.site("client sessions constructed", e)
			pkt := s.Get("p")
			if pkt == nil || !s.IsNil(s.Get("perr")) {
				s.Report("client-open", e, "a client's session is constructed though no packet is known to have been read")
				return
			}
			if n, ok := s.num(s.fieldNow(pkt, fType)); !ok || n != p.engineConst("PacketTypeOpen") {
				s.Report("client-open", e, "a client's session is constructed though the packet read is not known to be an open packet")
			}
			if s.Get("param") == nil || !s.IsNil(s.Get("paramerr")) {
				s.Report("client-open", e, "a client's session is constructed though the parameters of the open packet are not known to have been decoded")
			}
		case e.Kind == EvCall && e.FnVal != nil && !e.Inlined && len(e.Args) == 1 && types.Identical(deref(e.Args[0].Typ), p.engineType("Client")):
			c.site("client set-up functions", e)
			if !inits.visit(s, e.FnVal) {
				s.Report("client-setup", e, "the set-up functions of a client are not called one after the other")
			}
		case e.Kind == EvGo:
			sp := s.Get("sock")
			if sp == nil {
				return
			}
			if isSender(c, e) {
				return
			}
			c.site("goroutines of a client started", e)
			if inits.active(s) && !inits.done(s) {
				s.Report("client-setup", e, "a client's goroutines are started before all of its set-up functions are known to have been called")
			}
			if s.Flag("checked") {
				return
			}
			s.SetFlag("checked")
			if f := s.fieldNow(sp, id); !(f != nil && fieldNamed(f, "SID") && f.has(s.Get("param"))) {
				s.Report("client-open", e, "a client's session id is not the one announced (%v)", f)
			}
			s.timeouts(e, sp, readF, writeF, announced, 1000000)
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), nil)
	c.need("open callbacks", 1)
	c.need("first reads", 1)
	c.need("open packets", 1)
	c.need("readers started", 1)
	c.need("open packets read", 1)
	c.need("client sessions constructed", 1)
	c.need("client set-up functions", 1)
	c.need("goroutines of a client started", 1)
}

// fieldNamed reports whether v was loaded from a field of that name.
func fieldNamed(v *Val, name string) bool {
	f, _ := fieldLoad(v)
	return f != nil && f.Name() == name
}

// isSender reports whether e starts a goroutine writing packets (the sender of a session).
func isSender(c *Check, e *Event) bool {
	if e.Fn == nil {
		return false
	}
	k := "sender:" + e.Fn.String()
	if v, ok := c.cache[k]; ok {
		return v.(bool)
	}
	is := false
	c.probe(&Config{Name: "issender", Opaque: c.P.engineOpaque, OnEvent: func(s *State, e *Event) {
		if c.P.connOp(e, "WritePacket") && !e.Inlined {
			is = true
		}
	}}, e.Fn)
	c.cache[k] = is
	return is
}

// --- C12 ---------------------------------------------------------------------------

// durationField finds the field of a session that deadlines set by op are computed from.
func (c *Check) durationField(op string) (f *types.Var) {
	p := c.P
	c.probe(&Config{Name: op, Opaque: p.engineOpaque, OnEvent: func(s *State, e *Event) {
		if p.connOp(e, op) && !e.Inlined {
			if g, b := fieldLoad(deadlineDur(e.Args[0])); g != nil && types.Identical(deref(b.Typ), p.socketType()) {
				f = g
			}
		}
	}}, p.entryPoints(p.Engine)...)
	if f == nil {
		c.undecided("no field of the session found that the deadlines set by %s are computed from", op)
	}
	return
}

func (c *Check) heartbeatRules() {
	p := c.P
	rd := c.findReaders(false)
	dur := c.serverDurations()
	readF, writeF := c.durationField("SetReadDeadline"), c.durationField("SetWriteDeadline")
	fType, fKind, fData := p.pktType(), p.pktKind(), p.pktData()
	if readF == nil || writeF == nil || fType == nil || fKind == nil || fData == nil {
		return
	}
	c.deadlineRules(readF, writeF)
	term := c.terminators()
	ping := func(s *State, e *Event) bool {
		if !p.sockCall(e, "Emit") {
			return false
		}
		ev, ok := s.strOf(e.Args[0])
		return ok && ev == "ping"
	}
	pingers, others := c.goSites(p.sockOpaque, ping)
	for _, e := range others {
		c.fail("ping-elsewhere", p.pos(e.Pos()), "a ping is sent by something else than a goroutine of its own")
	}
	if len(pingers) == 0 {
		c.undecided("no goroutine sending pings found")
	}
	cfg := &Config{Name: "heartbeat", Opaque: p.sockOpaque, Depth: 14}
	cfg.OnEvent = func(s *State, e *Event) {
		sp := s.run.CurSpawn
		switch {
		case sp != nil && sp.Kind == "go" && pingers[sp.Instr] != nil:
			c.pinger(s, e, term, ping)
		case rd.in(s) && p.fromServer(sp):
			is := func(v *Val, n int64) (eq, known bool) {
				if v == nil {
					return false, false
				}
				return s.Eq(v, s.run.constVal(constInt(n), v.Typ))
			}
			pkt, rerr := s.Get("p"), s.Get("rerr")
			settle := func() {
				if pkt == nil || s.NonNil(rerr) || s.Int("pongs") > 0 {
					return
				}
				if eq, k := is(s.Get("ptype"), p.engineConst("PacketTypePing")); !k || eq {
					s.Report("no-pong", e, "a packet that may be a ping is not answered with a pong")
				}
			}
			switch {
			case p.sockCall(e, "Read"):
				settle()
				s.Set("p", s.res(e, 0))
				s.Set("rerr", s.res(e, 1))
				s.Set("so", e.Recv)
				s.Del("ptype")
				s.Del("pongs")
			case e.Kind == EvLoad && pkt != nil && e.Addr.Op == "field&" && e.Addr.Args[0] == pkt && e.Addr.Field == fType && s.Get("ptype") == nil:
				s.Set("ptype", e.Val)
			case p.sockCall(e, "Emit") && e.Recv == s.Get("so"):
				if ev, ok := s.strOf(e.Args[0]); ok && ev != "pong" {
					return
				}
				c.site("pongs sent", e)
				s.Inc("pongs")
				if s.Int("pongs") > 1 {
					s.Report("pong-twice", e, "a ping is answered twice")
				}
				if pkt == nil || !s.IsNil(rerr) {
					s.Report("wrong-pong", e, "a pong is sent though no packet is known to have been read")
					return
				}
				if eq, k := is(s.Get("ptype"), p.engineConst("PacketTypePing")); !k || !eq {
					s.Report("wrong-pong", e, "a pong is sent for a packet not known to be a ping")
				}
				if !isFieldOf(e.Args[1], pkt, fKind) || !isFieldOf(e.Args[2].strip(), pkt, fData) {
					s.Report("wrong-pong", e, "the pong does not carry the kind and data of the ping")
				}
			case rootExit(e):
				settle()
			}
		case sp == nil:
			c.timing(s, e, dur, readF, writeF, pingers)
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), nil)
	c.need("pongs sent", 1)
	c.need("pings sent", 1)
	c.need("server sessions made", 1)
	c.need("client sessions made", 1)
	c.need("clients returned", 1)
}

// deadlineRules: every read and write has a deadline of its own.
func (c *Check) deadlineRules(readF, writeF *types.Var) {
	p := c.P
	cfg := &Config{Name: "deadlines", Opaque: p.engineOpaque, Depth: 12}
	cfg.OnEvent = func(s *State, e *Event) {
		trackNow(s, e)
		op := func(what string, set string, f *types.Var) {
			switch {
			case e.Kind == EvLoad && e.Addr.Op == "field&" && e.Addr.Field == f:
				s.SetAdd(set, e.Val)
			case p.connOp(e, set) && !e.Inlined:
				s.Del(what)
				d := deadlineDur(e.Args[0])
				if !freshDeadline(s, e.Args[0]) || d == nil || !s.SetHas(set, d) {
					s.Report("wrong-deadline", e, "%s is not given the present time plus the session's timeout for it", set)
					return
				}
				s.Set(what, e.Recv)
				s.Set(what+"err", s.res(e, 0))
			case p.connOp(e, what) && !e.Inlined && e.Recv != s.Get("dialled"):
				c.site("operations with a deadline", e)
				if s.Get(what) != e.Recv {
					s.Report("no-deadline", e, "%s is called without a deadline set for it on that transport", what)
				} else if what == "ReadPacket" && p.isSocketMethod(s.rootFn(), "Read") && !s.IsNil(s.Get(what+"err")) {
					s.Report("no-deadline", e, "a packet is read though the deadline is not known to have been set")
				}
				s.Del(what)
			}
		}
		if e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("Dialer"), "Dial") {
			s.Set("dialled", s.res(e, 0))
		}
		op("ReadPacket", "SetReadDeadline", readF)
		op("WritePacket", "SetWriteDeadline", writeF)
		if p.connOp(e, "ReadPacket", "WritePacket", "Pause") && !e.Inlined || p.barrierOp(e, "Wait", "Pause") ||
			e.Kind == EvRecv || e.Kind == EvSelect && e.Block {
			spendNow(s)
			s.Del("ReadPacket")
			s.Del("WritePacket")
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), nil)
	c.need("operations with a deadline", 3)
}

// pinger checks the goroutine sending a client's pings.
func (c *Check) pinger(s *State, e *Event, term map[*types.Var]bool, ping func(*State, *Event) bool) {
	if s.chose(e, term) {
		s.SetFlag("stop")
	}
	var ch *Val
	switch {
	case e.Kind == EvRecv:
		ch = e.Chan
	case e.Kind == EvSelect && e.Chosen >= 0 && !e.Cases[e.Chosen].Send:
		ch = e.Cases[e.Chosen].Chan
	}
	if ch != nil {
		if d := timerOf(ch); d != nil {
			if s.Flag("tick") {
				s.Report("ping-skipped", e, "the goroutine sending pings waits again without having sent one")
			}
			if !isLinear(d, announced, 1000000, 0) {
				s.Report("ping-period", e, "the time between pings is not the ping interval announced (%v)", d)
			}
			t := ch.strip()
			if _, b := fieldLoad(t); b != nil && isCallOf(b, "time", "NewTimer") {
				if s.Get("fired") == b {
					s.Report("ping-period", e, "a timer is waited for twice without being reset")
				}
				s.Set("fired", b)
			}
			s.SetFlag("tick")
		}
	}
	switch {
	case e.Kind == EvCall && pkgCall(e, "time", "Reset") && e.Recv != nil && e.Recv == s.Get("fired"):
		if !isLinear(e.Args[0], announced, 1000000, 0) {
			s.Report("ping-period", e, "the time between pings is not the ping interval announced")
		}
		s.Del("fired")
	case ping(s, e):
		c.site("pings sent", e)
		if !s.Flag("tick") {
			s.Report("ping-period", e, "a ping is sent without waiting for the ping interval")
		}
		if err := s.Get("err"); err != nil && !s.IsNil(err) {
			s.Report("ping-on", e, "another ping is sent though sending the last may have failed")
		}
		s.Del("tick")
		s.Set("err", s.res(e, 0))
	case rootExit(e):
		if err := s.Get("err"); !s.Flag("stop") && (err == nil || !s.NonNil(err)) {
			s.Report("pings-end", e, "no more pings are sent though the client is not closed and sending did not fail")
		}
	}
}

// timeouts checks those of session so.
func (s *State) timeouts(e *Event, so *Val, readF, writeF *types.Var, which func(*Val) int, unit int64) {
	if r := s.fieldNow(so, readF); !isLinear(r, which, unit, unit) {
		s.Report("timeouts", e, "the read timeout of a session is not the ping interval plus the ping timeout (%v)", r)
	}
	if w := s.fieldNow(so, writeF); !isLinear(w, which, 0, unit) {
		s.Report("timeouts", e, "the write timeout of a session is not the ping timeout (%v)", w)
	}
}

// timing checks the timeouts sessions are made with.
func (c *Check) timing(s *State, e *Event, dur *durations, readF, writeF *types.Var, pingers map[ssa.Instruction]*Spawn) {
	p := c.P
	check := func(so *Val, which func(*Val) int, unit int64) { s.timeouts(e, so, readF, writeF, which, unit) }
	switch {
	case e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("Dialer"), "Dial"):
		s.Set("conn", s.res(e, 0))
		s.SetFlag("client")
	case e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("Acceptor"), "Accept"):
		s.Set("conn", s.res(e, 0))
	case e.Kind == EvStore && p.connFieldAddr(e.Addr) && s.Get("conn") != nil && e.Val == s.Get("conn"):
		s.Set("sock", e.Addr.Args[0])
	case e.Kind == EvGo && s.Flag("client") && s.Get("sock") != nil && !isSender(c, e):
		if pingers[e.Instr] != nil || c.startsOne(e, pingers) {
			s.Inc("pingers")
			if s.Int("pingers") > 1 {
				s.Report("pings-twice", e, "more than one goroutine sends pings for a client")
			}
		}
		if !s.Flag("checked") {
			s.SetFlag("checked")
			c.site("client sessions made", e)
			check(s.Get("sock"), announced, 1000000)
		}
	case rootExit(e) && s.Flag("client") && len(e.Results) == 2 && types.Identical(deref(e.Results[0].Typ), p.engineType("Client")):
		c.site("clients returned", e)
		if s.IsNil(e.Results[1]) && s.Int("pingers") != 1 {
			s.Report("no-pings", e, "a client is returned without the goroutine sending its pings")
		}
	}
	if ch, v, ok := chanSend(e); ok && chanOf(ch, p.socketType()) {
		c.site("server sessions made", e)
		check(v, dur.of, 1)
	}
}

// startsOne reports whether e starts one of the goroutines in sites.
func (c *Check) startsOne(e *Event, sites map[ssa.Instruction]*Spawn) bool {
	for _, sp := range sites {
		if e.Fn != nil && sp.Fn == e.Fn {
			return true
		}
	}
	return false
}
