package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sockLock reports the lock operation of e on a session's lock: "", "Lock", "Unlock", "RLock" or "RUnlock".
func (p *Prog) sockLock(e *Event) string {
	a, what := p.lockOp(e)
	if a != nil && a.Op == "field&" && types.Identical(deref(a.Args[0].Typ), p.socketType()) {
		return what
	}
	return ""
}

// socketReadRules decides, on every path of Socket.Read, that the packets kept from a former transport come first, and that
// the failure of a transport that has been replaced is not returned.
func (c *Check) socketReadRules() {
	p := c.P
	sockT := p.socketType()
	read := p.method(types.NewPointer(sockT), "Read")
	if read == nil {
		c.undecided("Socket.Read not found")
		return
	}
	packets := types.NewSlice(types.NewPointer(p.engineType("Packet")))
	cfg := &Config{Name: "read", Opaque: p.engineOpaque, Depth: 14}
	// retry: after a failure, reading goes on only where the session's transport is known to be another one
	moved := func(s *State, now *Val) bool {
		eq, k := s.Eq(now, s.Get("errconn"))
		return k && !eq || s.Flag("moved")
	}
	retry := func(s *State, e *Event, now *Val) {
		if err := s.Get("err"); err != nil && !s.IsNil(err) && !moved(s, now) {
			s.Report("retry", e, "reading is repeated though the transport that failed is not known to have been replaced: its error is lost, and Read never ends")
		}
	}
	cfg.OnEvent = func(s *State, e *Event) {
		if w := p.sockLock(e); w == "Lock" || w == "RLock" {
			s.Del("C-here")
			s.Del("P-here")
			s.Del("X")
		}
		p.trackLocks(s, e)
		mode, _ := heldClass(s, sockT)
		if g := s.Get("goterr"); g != nil && s.NonNil(g) { // nothing was read
			s.Del("got")
			s.Del("goterr")
		}
		switch e.Kind {
		case EvLoad:
			switch {
			case p.connFieldAddr(e.Addr) && mode != "":
				if s.Get("errconn") != nil && s.Get("reload") != nil && moved(s, s.Get("reload")) {
					s.SetFlag("moved")
				}
				s.Set("C", e.Val)
				s.SetFlag("C-here")
				if !s.Flag("P-here") {
					s.Del("P")
				}
				s.Set("reload", e.Val)
			case p.isSocketField(e.Addr, packets):
				s.Set("P", e.Val)
				s.SetFlag("P-here")
				if mode == "W" {
					s.Set("X", e.Val)
				}
			}
		case EvStore:
			if p.isSocketField(e.Addr, packets) && rootOf(e.Addr).Op != "alloc" {
				v, x := e.Val, s.Get("X")
				one := int64(0)
				if v.Op == "slice" && v.Args[1] != nil {
					one, _ = v.Args[1].int64()
				}
				if x == nil || v.Op != "slice" || v.Args[0] != x || one != 1 || v.Args[2] != nil || mode != "W" || s.Flag("popped") {
					s.Report("pending-lost", e, "the packets kept from the former transport are changed otherwise than by taking the first, under the session's lock")
				}
				s.Set("popped", x)
				c.site("pending packets taken", e)
			}
		case EvCall:
			switch {
			case p.connOp(e, "ReadPacket") && !e.Inlined:
				c.site("reads from the transport", e)
				if e.Recv != s.Get("C") {
					s.Report("pending-order", e, "a packet is read from something else than the session's transport, loaded under its lock")
				}
				if q := s.Get("P"); q == nil || !(s.IsNil(q) || s.Le(s.run.lenOf(s, nil, "len", q, types.Typ[types.Int]), s.run.intVal(0))) {
					s.Report("pending-order", e, "a packet is read from the transport while packets of the former one may be waiting (they must be known to be none, checked no earlier than the transport is loaded)")
				}
				if g := s.Get("goterr"); g != nil && !s.NonNil(g) {
					s.Report("packet-lost", e, "a packet is read while the one read before is dropped")
				}
				if s.Get("deadline") != e.Recv {
					retry(s, e, e.Recv)
				}
				s.Del("deadline")
				s.Del("moved")
				s.Set("got", s.res(e, 0))
				s.Set("goterr", s.res(e, 1))
				s.Set("err", s.res(e, 1))
				s.Set("errconn", e.Recv)
				s.Del("reload")
			case p.connOp(e, "SetReadDeadline") && !e.Inlined:
				retry(s, e, e.Recv)
				s.Set("deadline", e.Recv)
				s.Del("moved")
				s.Set("err", s.res(e, 0))
				s.Set("errconn", e.Recv)
				s.Del("reload")
			case e.Fn == read && !e.Inlined:
				retry(s, e, s.Get("reload"))
				s.SetFlag("again")
				s.Set("rp", s.res(e, 0))
				s.Set("re", s.res(e, 1))
			}
		case EvExit:
			if e.Panic || len(e.Results) != 2 {
				return
			}
			pkt, err := e.Results[0], e.Results[1]
			if s.Flag("again") {
				if pkt != s.Get("rp") || err != s.Get("re") {
					s.Report("packet-lost", e, "the result of the repeated read is not what is returned")
				}
				return
			}
			if x := s.Get("popped"); x != nil {
				if a := pkt; !(a.Op == "load" && a.Args[0].Op == "index&" && a.Args[0].Args[0] == x && isZero(a.Args[0].Args[1])) || !s.IsNil(err) {
					s.Report("pending-lost", e, "the packet taken from those kept is not the one returned")
				}
				return
			}
			c.site("returns of Read", e)
			if pkt.Op == "load" && pkt.Args[0].Op == "index&" {
				s.Report("pending-lost", e, "a packet kept from the former transport is returned but not taken")
			}
			if !s.NonNil(err) {
				if g := s.Get("got"); g == nil || pkt != g || !s.IsNil(s.Get("goterr")) && err != s.Get("goterr") {
					s.Report("packet-lost", e, "success is returned with something else than the packet read")
				}
			} else if g := s.Get("goterr"); g != nil && !s.NonNil(g) {
				s.Report("packet-lost", e, "an error is returned though a packet was read")
			}
			if !s.IsNil(err) {
				if eq, k := s.Eq(s.Get("reload"), s.Get("errconn")); s.Get("errconn") != nil && !(k && eq) {
					s.Report("replaced-error", e, "an error is returned without checking that the transport that failed is still the session's one")
				}
			}
		}
	}
	c.explore(cfg, []*ssa.Function{read}, nil)
	c.need("reads from the transport", 1)
	c.need("pending packets taken", 1)
	c.need("returns of Read", 1)
}

// servesSessions: the goroutines in question descend from a function making a Server.
func (p *Prog) fromServer(sp *Spawn) bool {
	if sp == nil || sp.Origin == nil {
		return false
	}
	r := sp.Origin.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if types.Identical(deref(r.At(i).Type()), p.engineType("Server")) {
			return true
		}
	}
	if v := sp.Origin.Signature.Recv(); v != nil && types.Identical(deref(v.Type()), p.engineType("Server")) {
		return true
	}
	return false
}

// readOpaque keeps, besides the transport operations, Socket.Read as a single event.
func (p *Prog) readOpaque(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
	return p.engineOpaque(fn, meth, recv) || p.isSocketMethod(fn, "Read")
}

func (p *Prog) isSocketMethod(fn *ssa.Function, names ...string) bool {
	if fn == nil || fn.Signature.Recv() == nil || !types.Identical(deref(fn.Signature.Recv().Type()), p.socketType()) {
		return false
	}
	for _, n := range names {
		if fn.Name() == n {
			return true
		}
	}
	return false
}

// sessionRead recognises Socket.Read kept opaque.
func (p *Prog) sessionRead(e *Event) bool {
	return e.Kind == EvCall && !e.Inlined && p.isSocketMethod(e.Fn, "Read")
}

// readerPauseRules decides that a server's reader takes a pause neither for the end of the session nor for a failure.
func (c *Check) readerPauseRules() {
	p := c.P
	cfg := &Config{Name: "readerpause", Opaque: p.readOpaque}
	cfg.OnEvent = func(s *State, e *Event) {
		if !p.fromServer(s.run.CurSpawn) {
			return
		}
		paused := func() (bool, bool) { return s.isGval(s.Get("rerr"), p.Engine, "ErrPollingConnPaused") }
		switch {
		case p.sessionRead(e):
			s.Set("rerr", s.res(e, 1))
			c.site("reads by a server's reader", e)
		case s.Get("rerr") == nil:
		case rootExit(e):
			if is, k := paused(); !k || is {
				s.Report("pause-ends-session", e, "the session's reader may end when a read is interrupted by a pause")
			}
		default:
			if ev, ok := p.firedEvent(s, e); ok {
				if is, k := paused(); !k || is {
					s.Report("pause-ends-session", e, "event %q may be fired when a read is interrupted by a pause", ev)
				}
			}
			if p.isSocketMethod(e.Fn, "Close") && e.Kind == EvCall {
				if is, k := paused(); !k || is {
					s.Report("pause-ends-session", e, "the session may be closed when a read is interrupted by a pause")
				}
			}
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), nil)
	c.need("reads by a server's reader", 1)
}

// senderPauseRules decides that a write interrupted by a pause is repeated with the same packet, on the session's then
// current transport.
func (c *Check) senderPauseRules() {
	p := c.P
	sockT := p.socketType()
	cfg := &Config{Name: "senderpause", Opaque: p.engineOpaque, Depth: 12}
	cfg.OnEvent = func(s *State, e *Event) {
		if s.run.CurSpawn == nil || s.run.CurSpawn.Kind != "go" {
			return
		}
		if w := p.sockLock(e); w != "" {
			s.Del("C")
		}
		p.trackLocks(s, e)
		if e.Kind == EvLoad && p.connFieldAddr(e.Addr) {
			if m, b := heldClass(s, sockT); m != "" && b == e.Addr.Args[0] {
				s.Set("C", e.Val)
			}
		}
		notPaused := func() bool {
			is, k := s.isGval(s.Get("werr"), p.Engine, "ErrPollingConnPaused")
			return s.Get("werr") == nil || k && !is
		}
		paused := func() bool {
			is, k := s.isGval(s.Get("werr"), p.Engine, "ErrPollingConnPaused")
			return k && is
		}
		switch {
		case p.connOp(e, "WritePacket") && !e.Inlined && p.isSessionConn(e.Recv):
			c.site("writes by the sender", e)
			if e.Recv != s.Get("C") {
				s.Report("write-to-replaced", e, "a packet is written to a transport not loaded in the critical section of the write: it may have been replaced")
			}
			if w := s.Get("wpkt"); w != nil && s.Get("werr") != nil {
				if w == e.Args[0] && !paused() {
					s.Report("packet-repeated", e, "a packet is written again though its write was not interrupted by a pause")
				}
				if w != e.Args[0] && !notPaused() {
					s.Report("packet-dropped-on-pause", e, "another packet is written though the write of one may have been interrupted by a pause")
				}
			}
			s.Set("wpkt", e.Args[0])
			s.Set("werr", s.res(e, 0))
			s.SetFlag("sender")
		case e.Kind == EvSelect || e.Kind == EvRecv:
			if _, _, ok := chanRecv(e); ok && s.Flag("sender") && !notPaused() {
				s.Report("packet-dropped-on-pause", e, "the sender goes on to another packet though the write of one may have been interrupted by a pause")
			}
		case rootExit(e):
			if s.Flag("sender") && !notPaused() {
				s.Report("packet-dropped-on-pause", e, "the sender ends though the write of a packet may have been interrupted by a pause")
			}
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), nil)
	c.need("writes by the sender", 1)
}

// queueConns lists the transports that keep packets in channels.
type queueConn struct {
	t                          types.Type
	closed, paused             map[*types.Var]bool
	out, in                    *types.Var // the channel WritePacket sends to, ReadPacket receives from
	write, read, fout, fin, sv *ssa.Function
}

func (c *Check) queueConns() (qs []*queueConn) {
	p := c.P
	pkt := p.engineType("Packet")
	for _, n := range p.concrete(p.engineType("Conn")) {
		if p.embedsIface(n, p.engineType("Conn")) {
			continue
		}
		t := types.NewPointer(n)
		q := &queueConn{t: t, write: p.method(t, "WritePacket"), read: p.method(t, "ReadPacket"), fout: p.method(t, "FlushOut"),
			fin: p.method(t, "FlushIn"), sv: p.method(t, "ServeHTTP")}
		c.probe(&Config{Name: "q", OnEvent: func(s *State, e *Event) {
			if ch, _, ok := chanSend(e); ok && chanOf(ch, pkt) {
				q.out = s.chanID(ch)
			}
		}}, q.write)
		c.probe(&Config{Name: "q", OnEvent: func(s *State, e *Event) {
			if ch, _, ok := chanRecv(e); ok && chanOf(ch, pkt) {
				q.in = s.chanID(ch)
			}
		}}, q.read)
		if q.out == nil || q.in == nil {
			continue
		}
		q.closed = c.closedIn(p.method(t, "Close"))
		q.paused = c.closedIn(p.method(t, "Pause"))
		qs = append(qs, q)
	}
	return
}

// chose reports whether the select e takes a case receiving from one of the channels.
func (s *State) chose(e *Event, set map[*types.Var]bool) bool {
	ch, _, ok := chanRecv(e)
	if !ok {
		return false
	}
	f := s.chanID(ch)
	return f != nil && set[f]
}

func (c *Check) queueRules() {
	p := c.P
	pkt := p.engineType("Packet")
	for _, q := range c.queueConns() {
		if len(q.paused) == 0 {
			continue // cannot be paused
		}
		q := q
		c.siteAt("queueing transports", p.pos(namedOf(deref(q.t)).Obj().Pos()), "")
		// writing
		c.explore(&Config{Name: "qwrite", OnEvent: func(s *State, e *Event) {
			if ch, v, ok := chanSend(e); ok && chanOf(ch, pkt) {
				if v != s.param(1) || s.Flag("sent") {
					s.Report("queue-write", e, "what is queued is not the packet given, once")
				}
				s.SetFlag("sent")
				c.site("packets queued", e)
			}
			if s.chose(e, q.paused) {
				s.SetFlag("paused")
			}
			if rootExit(e) {
				err := e.Results[0]
				is, k := s.isGval(err, p.Engine, "ErrPollingConnPaused")
				switch {
				case s.Flag("sent") && !s.IsNil(err):
					s.Report("queue-write", e, "an error is returned for a packet that was queued")
				case !s.Flag("sent") && !s.NonNil(err):
					s.Report("queue-write", e, "success is returned for a packet that was not queued")
				case s.Flag("paused") && !(k && is), !s.Flag("paused") && !(k && !is):
					s.Report("queue-pause", e, "a write must fail with ErrPollingConnPaused exactly if it is interrupted by a pause")
				}
			}
		}}, []*ssa.Function{q.write}, nil)
		c.explore(&Config{Name: "qread", OnEvent: func(s *State, e *Event) {
			if ch, v, ok := chanRecv(e); ok && chanOf(ch, pkt) {
				if s.Get("got") != nil {
					s.Report("queue-read", e, "a second packet is taken by one read")
				}
				s.Set("got", v)
				c.site("packets dequeued", e)
			}
			if s.chose(e, q.paused) {
				s.SetFlag("paused")
			}
			if rootExit(e) {
				err := e.Results[1]
				is, k := s.isGval(err, p.Engine, "ErrPollingConnPaused")
				got := s.Get("got")
				switch {
				case got != nil && s.IsNil(err) && e.Results[0] != got:
					s.Report("queue-read", e, "a packet is taken but another one returned")
				case got != nil && !s.IsNil(err) && !s.closedRecv(got):
					s.Report("queue-read", e, "an error is returned though a packet was taken")
				case got == nil && !s.NonNil(err):
					s.Report("queue-read", e, "success is returned without a packet")
				case s.Flag("paused") && !(k && is), !s.Flag("paused") && !(k && !is):
					s.Report("queue-pause", e, "a read must fail with ErrPollingConnPaused exactly if it is interrupted by a pause")
				}
			}
		}}, []*ssa.Function{q.read}, nil)
		c.flushRules(q, q.fout, q.out)
		c.flushRules(q, q.fin, q.in)
		// pausing
		c.explore(&Config{Name: "qpause", OnEvent: func(s *State, e *Event) {
			if e.Kind == EvClose {
				if f := s.chanID(e.Chan); f != nil && q.paused[f] {
					s.SetFlag("paused")
				}
			}
			if rootExit(e) && !s.Flag("paused") && !s.NonNil(e.Results[0]) {
				s.Report("queue-pause", e, "success is returned though nothing was paused")
			}
		}}, []*ssa.Function{p.method(q.t, "Pause")}, nil)
		// a paused poll is answered with a noop
		noop := p.engineConst("PacketTypeNoop")
		fType := p.pktType()
		c.explore(&Config{Name: "qserve", OnEvent: func(s *State, e *Event) {
			if s.chose(e, q.paused) {
				s.SetFlag("paused")
				c.site("polls interrupted by a pause", e)
			}
			if s.Flag("paused") && e.Kind == EvCall && e.Meth != nil && e.Meth.Name() == "WriteTo" && e.Recv != nil {
				f := fType
				if n, ok := s.num(s.fieldNow(e.Recv.strip(), f)); !ok || n != noop {
					s.Report("paused-poll", e, "what answers a poll interrupted by a pause is not known to be a noop packet")
				}
				s.SetFlag("answered")
			}
			if rootExit(e) && s.Flag("paused") && !s.Flag("answered") {
				s.Report("paused-poll", e, "a poll interrupted by a pause is not answered with a packet")
			}
		}, Opaque: func(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
			return meth != nil && meth.Name() == "WriteTo"
		}},
			[]*ssa.Function{q.sv}, nil)
	}
	c.need("queueing transports", 1)
	c.need("packets queued", 1)
	c.need("packets dequeued", 1)
	c.need("packets flushed", 1)
	c.need("polls interrupted by a pause", 1)
}

// closedRecv reports whether the receive that yielded v is known to have found the channel closed.
func (s *State) closedRecv(v *Val) bool {
	if v.Op != "ext" {
		return false
	}
	ok := s.run.in.mk(Val{Op: "ext", Args: v.Args, Idx: 1, Typ: types.Typ[types.Bool]})
	return s.IsFalse(ok)
}

// flushRules decides that fn returns all packets waiting in channel ch, in order.
func (c *Check) flushRules(q *queueConn, fn *ssa.Function, ch *types.Var) {
	if fn == nil {
		return
	}
	p := c.P
	pkt := p.engineType("Packet")
	list := acc{"list"}
	c.explore(&Config{Name: "qflush", OnEvent: func(s *State, e *Event) {
		list.edge(s, e)
		if x, v, ok := chanRecv(e); ok && chanOf(x, pkt) {
			if s.chanID(x) != ch {
				s.Report("flush-queue", e, "the packets flushed are taken from another queue than they are put in")
			}
			if s.Get("last") != nil {
				s.Report("flush-lost", e, "a packet taken from the queue is not returned")
			}
			s.Set("last", v)
			s.Del("empty")
			c.site("packets flushed", e)
			return
		}
		if e.Kind == EvSelect && e.Chosen == -1 {
			for _, k := range e.Cases {
				if !k.Send && s.chanID(k.Chan) == ch {
					s.SetFlag("empty")
				}
			}
		}
		if isAppend(e) {
			base, elems, _ := s.appended(e)
			if l := s.Get("last"); l != nil && len(elems) == 1 && elems[0] == l && (list.is(s, base) || s.Get("list") == nil && (s.IsNil(base) || emptySlice(base))) {
				list.start(s, e.Res)
				s.Del("last")
			}
		}
		if rootExit(e) {
			r := e.Results[0]
			switch {
			case s.Get("last") != nil:
				s.Report("flush-lost", e, "a packet taken from the queue is not returned")
			case !s.Flag("empty"):
				s.Report("flush-lost", e, "the flush may end while packets are waiting")
			case s.Get("list") != nil && !list.is(s, r), s.Get("list") == nil && !s.IsNil(r) && !emptySlice(r):
				s.Report("flush-lost", e, "what is returned is not the list of packets taken, in order")
			}
		}
	}}, []*ssa.Function{fn}, nil)
}

// emptySlice: a slice made with length 0.
func emptySlice(v *Val) bool {
	if v.Op == "make" && len(v.Args) > 0 && v.Args[0] != nil {
		return isZero(v.Args[0])
	}
	if v.Op == "slice" && v.Args[0].Op == "alloc" {
		if at, ok := deref(v.Args[0].Typ).Underlying().(*types.Array); ok && at.Len() == 0 {
			return true
		}
		return v.Args[2] != nil && isZero(v.Args[2])
	}
	return false
}
