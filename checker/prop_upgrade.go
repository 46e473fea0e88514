package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "Typestate of the candidate connection and of the session's transport on every path of every request handler "+
		"(interprocedural, path-sensitive): the session's transport is replaced only after accept, ping read, pong written, pause and "+
		"upgrade read have all succeeded, under a fresh deadline each, with the session locked and checked not to be closing; every "+
		"other path closes the candidate and resumes the paused transport.", func(c *Check) {
		c.upgradeRules("C03")
	})
	register("C04", "Typestate of the packets of the replaced transport: on every path that replaces a session's transport its outgoing "+
		"packets are written to the new one in order and its incoming ones kept for the reader, in the critical section of the "+
		"replacement; on every path of the reader, of the sender and of the transports a pause is neither an error nor a loss.", func(c *Check) {
		c.upgradeRules("C04")
		c.socketReadRules()
		c.readerPauseRules()
		c.senderPauseRules()
		c.queueRules()
	})
}

// upgradeRules follows the candidate connection of an upgrade. Monitor variables: cand (the connection accepted), acceptErr,
// p1 p1err p1type (the first packet read), pongErr, paused pauseErr, p2 p2err (the packet read after the pause), flush, fin.
func (c *Check) upgradeRules(prop string) {
	p := c.P
	sockT := p.socketType()
	closing := c.closedIn(p.method(types.NewPointer(sockT), "Close"))
	if len(closing) == 0 {
		c.undecided("Socket.Close closes no channel: cannot tell how closing is signalled")
		return
	}
	fType, fKind, fData := p.pktType(), p.pktKind(), p.pktData()
	if fType == nil || fKind == nil || fData == nil {
		c.undecided("the fields of engine.Packet are not as expected")
		return
	}
	ping, pong, upg := p.engineConst("PacketTypePing"), p.engineConst("PacketTypePong"), p.engineConst("PacketTypeUpgrade")
	packets := types.NewSlice(types.NewPointer(p.engineType("Packet")))
	cur, curIn, pend := cursor{"flushc"}, cursor{"finc"}, acc{"pend"}
	c3, c4 := prop == "C03", prop == "C04"
	socketLock := func(s *State) string {
		m, _ := heldClass(s, sockT)
		return m
	}
	// typeNow is the packet type of pkt as far as known
	typeNow := func(s *State, pkt *Val) (int64, bool) { return s.num(s.fieldNow(pkt, fType)) }
	sameField := func(s *State, a, b *Val, f *types.Var) bool {
		x := s.fieldNow(a, f)
		if a == b {
			// unmodified: nothing but what was loaded from it
			return x == nil || x.Op == "load" && x.Args[0] == s.fieldAddrOf(b, f)
		}
		return x != nil && (x.Op == "load" && len(x.Args) > 0 && x.Args[0] == s.fieldAddrOf(b, f) || x == s.fieldNow(b, f))
	}
	cfg := &Config{Name: "upgrade", Depth: 14, Opaque: p.engineOpaque}
	cfg.OnEvent = func(s *State, e *Event) {
		trackNow(s, e)
		cur.edge(s, e)
		curIn.edge(s, e)
		pend.edge(s, e)
		if a, what := p.lockOp(e); a != nil && a.Op == "field&" && types.Identical(deref(a.Args[0].Typ), sockT) {
			switch what {
			case "Unlock":
				if s.Flag("committed") && !s.Flag("section-checked") {
					s.SetFlag("section-checked")
					if c3 && !s.Flag("named") {
						s.Report("transport-name", e, "the session's transport is replaced but its transport name is not set along with it")
					}
					if c4 {
						switch {
						case s.Get("flush") == nil:
							s.Report("outgoing-lost", e, "the session's transport is replaced without writing the packets queued on the old one to the new one")
						case !cur.done(s):
							s.Report("outgoing-lost", e, "not all packets queued on the old transport are known to be written to the new one")
						}
						if s.Get("fin") == nil || !curIn.done(s) || s.Get("pend") != nil && !s.Flag("finStored") {
							s.Report("incoming-lost", e, "the session's transport is replaced without keeping the packets received on the old one for the reader")
						}
					}
				}
				s.Del("open")
			}
		}
		p.trackLocks(s, e)
		cand := s.Get("cand")
		if cand == nil {
			switch {
			case p.barrierOp(e, "Pause"):
				s.SetFlag("bar")
			case p.barrierOp(e, "Resume"):
				s.Del("bar")
			case e.Kind == EvCall && p.methodOn(e, p.engineType("Acceptor"), "Accept") && !e.Inlined:
				s.Set("cand", s.res(e, 0))
				s.Set("acceptErr", s.res(e, 1))
				s.Set("acceptor", e.Recv)
				c.site("accepted connections", e)
			}
			if e.Kind == EvStore && p.connFieldAddr(e.Addr) && rootOf(e.Addr).Op != "alloc" && c3 {
				s.Report("transport-replaced", e, "a session's transport is replaced by something else than a connection accepted for the request")
			}
			return
		}
		if s.Flag("newsession") {
			return
		}
		// what the packets read are known to be
		if q := s.Get("p1"); q != nil && s.Get("p1type") == nil {
			if n, ok := typeNow(s, q); ok {
				s.Set("p1type", s.run.intVal(n))
			}
		}
		if q := s.Get("p2"); q != nil && s.Get("p2type") == nil {
			if n, ok := typeNow(s, q); ok {
				s.Set("p2type", s.run.intVal(n))
			}
		}
		is := func(k string, n int64) bool { v, ok := s.num(s.Get(k)); return ok && v == n }
		ok := func(k string) bool { return s.Get(k) != nil && s.IsNil(s.Get(k)) }
		pongOK := func() bool {
			return ok("p1err") && is("p1type", ping) && ok("pongErr")
		}
		switch e.Kind {
		case EvLoad:
			if p.connFieldAddr(e.Addr) && s.Flag("bar") {
				s.SetAdd("freshconn", e.Val)
			}
		case EvSelect:
			if e.Chosen == -1 && socketLock(s) == "W" {
				for _, k := range e.Cases {
					if f := s.chanID(k.Chan); !k.Send && f != nil && closing[f] {
						s.SetFlag("open")
					}
				}
			}
			if e.Chosen >= 0 && !e.Cases[e.Chosen].Send {
				if f := s.chanID(e.Cases[e.Chosen].Chan); f != nil && closing[f] {
					s.SetFlag("closing")
				}
			}
		case EvStore:
			switch {
			case p.connFieldAddr(e.Addr):
				if rootOf(e.Addr).Op == "alloc" {
					if e.Val == cand {
						s.SetFlag("newsession")
					}
					return
				}
				c.site("replacements of a session's transport", e)
				if e.Val != cand {
					s.Report("transport-replaced", e, "a session's transport is replaced by something else than the connection accepted for the request")
					return
				}
				s.SetFlag("committed")
				if !c3 {
					return
				}
				switch {
				case !ok("acceptErr"):
					s.Report("handshake-incomplete", e, "the session moves to a connection that may not have been accepted")
				case !ok("p1err") || !is("p1type", ping):
					s.Report("handshake-incomplete", e, "the session moves to a connection from which no ping packet is known to have been read")
				case !ok("pongErr"):
					s.Report("handshake-incomplete", e, "the session moves to a connection on which the pong is not known to have been written")
				case !ok("pauseErr"):
					s.Report("handshake-incomplete", e, "the session moves to a new connection without the old transport known to be paused")
				case !ok("p2err") || !is("p2type", upg):
					s.Report("handshake-incomplete", e, "the session moves to a connection from which no upgrade packet is known to have been read after the pause")
				}
				if !s.Flag("bar") || !s.SetHas("freshconn", s.Get("paused")) {
					s.Report("upgrade-not-exclusive", e, "the transport replaced is not known to be the session's current one, loaded with the barrier held since (two upgrades may interleave)")
				}
				if socketLock(s) != "W" || !s.Flag("open") {
					s.Report("upgrade-while-closing", e, "the session's transport is replaced without checking, in the same critical section, that the session is not closing")
				}
			case p.isSocketField(e.Addr, types.Typ[types.String]) && rootOf(e.Addr).Op != "alloc":
				n := s.Get("acceptor")
				name, known := s.strOf(e.Val)
				if c3 && known && name != "websocket" {
					s.Report("transport-name", e, "a session is moved to transport %q, which is not the advertised upgrade", name)
				}
				if c3 && !known {
					s.Report("transport-name", e, "a session is moved to a transport that is not known to be websocket")
				}
				if t := c.transportNameOf(n); c3 && t != "" && t != name {
					s.Report("transport-name", e, "the session's transport name is set to %q but the connection was accepted by transport %q", name, t)
				}
				s.SetFlag("named")
				c.site("transport names set", e)
			case p.isSocketField(e.Addr, packets) && rootOf(e.Addr).Op != "alloc":
				if pend.is(s, e.Val) {
					s.SetFlag("finStored")
				} else if c4 {
					s.Report("incoming-lost", e, "the packets kept for the reader are not those kept before followed by those received on the old transport")
				}
				if c4 && socketLock(s) != "W" {
					s.Report("incoming-lost", e, "the packets kept for the reader are set outside the critical section of the session")
				}
			}
		case EvBuiltin:
			if isAppend(e) && s.Get("fin") != nil {
				base, elems, spread := s.appended(e)
				f, b := fieldLoad(base)
				ours := f != nil && types.Identical(f.Type(), packets) && types.Identical(deref(b.Typ), sockT)
				if !pend.is(s, base) && !(s.Get("pend") == nil && ours) {
					return
				}
				switch {
				case spread != nil && spread == s.Get("fin") && curIn.visitAll(s):
					pend.start(s, e.Res)
					s.Del("finStored")
				case len(elems) == 1 && curIn.visit(s, elems[0]):
					pend.start(s, e.Res)
					s.Del("finStored")
				}
			}
		case EvLookup:
			if ev, fired := p.firedEvent(s, e); fired && ev == "upgrade" {
				s.Inc("fired")
				c.site("upgrade events", e)
			}
		case EvCall:
			switch {
			case e.Inlined:
			case p.barrierOp(e, "Pause"):
				s.SetFlag("bar")
			case p.barrierOp(e, "Resume"):
				s.Del("bar")
				s.DelPrefix("freshconn#")
			case p.connOp(e, "SetReadDeadline") && e.Recv == cand:
				if freshDeadline(s, e.Args[0]) {
					s.SetFlag("rd")
				}
			case p.connOp(e, "SetWriteDeadline") && e.Recv == cand:
				if freshDeadline(s, e.Args[0]) {
					s.SetFlag("wd")
				}
			case p.connOp(e, "ReadPacket") && e.Recv == cand:
				c.site("reads from the candidate", e)
				if c3 && !s.Flag("rd") {
					s.Report("no-deadline", e, "a packet is read from the candidate connection without a read deadline set for it")
				}
				if c3 && s.Flag("committed") {
					s.Report("handshake-read", e, "a packet is read from the session's new transport by the request that upgraded it")
				}
				s.Del("rd")
				spendNow(s)
				if s.Get("p1") == nil {
					s.Set("p1", s.res(e, 0))
					s.Set("p1err", s.res(e, 1))
				} else {
					if c3 && !pongOK() {
						s.Report("handshake-order", e, "a second packet is read from the candidate before the ping is known to have been answered")
					}
					if ok("pauseErr") {
						s.Set("p2", s.res(e, 0))
						s.Set("p2err", s.res(e, 1))
						s.Del("p2type")
					}
				}
			case p.connOp(e, "WritePacket") && e.Recv == cand:
				pkt := e.Args[0]
				if s.Get("flush") != nil && socketLock(s) == "W" {
					c.site("writes of queued packets", e)
					if c4 && !cur.visit(s, pkt) {
						s.Report("outgoing-order", e, "what is written is not the next of the packets queued on the old transport")
					}
					if c4 && !s.Flag("wd") {
						s.Report("no-deadline", e, "a queued packet is written to the new transport without a write deadline set for it")
					}
					s.Del("wd")
					spendNow(s)
					return
				}
				if s.Flag("committed") {
					if c4 {
						s.Report("outgoing-order", e, "the new transport is written to outside the critical section that installs it")
					}
					return
				}
				c.site("writes to the candidate", e)
				if c3 && !s.Flag("wd") {
					s.Report("no-deadline", e, "a packet is written to the candidate connection without a write deadline set for it")
				}
				s.Del("wd")
				spendNow(s)
				q := s.Get("p1")
				n, known := typeNow(s, pkt)
				if c3 && (q == nil || !ok("p1err") || !is("p1type", ping)) {
					s.Report("handshake-order", e, "the candidate is written to before a ping packet was read from it")
				} else if c3 && (!known || n != pong) {
					s.Report("handshake-pong", e, "what answers the probe is not a pong packet")
				} else if c3 && (!sameField(s, pkt, q, fData) || !sameField(s, pkt, q, fKind)) {
					s.Report("handshake-pong", e, "the pong does not carry the data and kind of the ping")
				}
				s.Set("pongErr", s.res(e, 0))
			case p.connOp(e, "Pause"):
				c.site("pauses", e)
				if c3 && !pongOK() {
					s.Report("handshake-order", e, "the session's transport is paused before the candidate's ping is known to have been answered")
				}
				s.Set("paused", e.Recv)
				s.Set("pauseErr", s.res(e, 0))
				s.Del("resumed")
			case p.connOp(e, "Resume") && e.Recv == s.Get("paused"):
				s.SetFlag("resumed")
			case p.connCall(e, "Close") && e.Recv == cand:
				s.SetFlag("candclosed")
				if s.Flag("committed") && c3 {
					s.Report("upgrade-undone", e, "the session's new transport is closed by the request that upgraded it")
				}
			case p.connCall(e, "Close") && (p.isSessionConn(e.Recv) || e.Recv == s.Get("paused")):
				s.SetFlag("oldclosed")
				if c3 && !(ok("p2err") && is("p2type", upg)) {
					s.Report("handshake-order", e, "the session's transport is closed before the candidate's upgrade packet is known to have been read")
				}
			case p.connOp(e, "FlushOut"):
				c.site("flushes", e)
				if c4 && (e.Recv != s.Get("paused") || !ok("pauseErr")) {
					s.Report("outgoing-lost", e, "the transport flushed is not the one paused")
				}
				if c4 && socketLock(s) != "W" {
					s.Report("outgoing-order", e, "the queued packets are taken while the sender may write to the old transport (the session is not locked)")
				}
				s.Set("flush", s.res(e, 0))
				cur.start(s, s.res(e, 0))
			case p.connOp(e, "FlushIn"):
				c.site("flushes", e)
				if c4 && e.Recv != s.Get("paused") {
					s.Report("incoming-lost", e, "the transport flushed is not the one paused")
				}
				if c4 && !s.Flag("oldclosed") {
					s.Report("incoming-lost", e, "the received packets are taken before the old transport is closed: a later post would be accepted and lost")
				}
				s.Set("fin", s.res(e, 0))
				curIn.start(s, s.res(e, 0))
			case p.connOp(e, "copyHeaderFrom") && e.Recv == cand && len(e.Args) == 1 && e.Args[0] == s.Get("paused"):
				s.SetFlag("copied")
			case e.Meth != nil && e.Meth.Name() == "ServeHTTP" && !p.isEngineServer(e):
				if c4 {
					s.Report("upgrade-served", e, "the request that attempts an upgrade is served by the session's current transport")
				}
			}
		case EvExit:
			if e.Panic || s.NonNil(s.Get("acceptErr")) {
				return
			}
			if s.Flag("committed") {
				c.site("successful upgrades", e)
				if !c3 {
					return
				}
				if !s.Flag("oldclosed") {
					s.Report("upgrade-incomplete", e, "the session's transport was replaced but the old one is not closed")
				}
				if !s.Flag("copied") {
					s.Report("upgrade-incomplete", e, "the session's transport was replaced but the request headers are not carried over")
				}
				if n := s.Int("fired"); n != 1 {
					s.Report("upgrade-event", e, "the session's transport was replaced and the upgrade event is fired %d times", n)
				}
				return
			}
			c.site("refused upgrades", e)
			if !c3 {
				if s.Get("flush") != nil && ok("acceptErr") {
					s.Report("outgoing-lost", e, "the old transport's packets were taken but the session keeps it")
				}
				return
			}
			if !s.Flag("candclosed") {
				s.Report("candidate-leaked", e, "the request ends without the session moving to the candidate connection or closing it")
			}
			if s.Get("paused") != nil && !s.NonNil(s.Get("pauseErr")) && !s.Flag("resumed") {
				s.Report("transport-left-paused", e, "the upgrade is given up but the session's transport is left paused")
			}
			if s.Flag("oldclosed") && !s.Flag("closing") {
				s.Report("session-broken", e, "the upgrade is given up but the session's transport is closed")
			}
			if s.Flag("named") || s.Flag("finStored") {
				s.Report("session-broken", e, "the upgrade is given up but the session's state was changed")
			}
			if s.Int("fired") != 0 {
				s.Report("upgrade-event", e, "the upgrade event is fired though the session keeps its transport")
			}
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), []*types.Package{p.Engine})
	c.need("replacements of a session's transport", 1)
	c.need("successful upgrades", 1)
	c.need("refused upgrades", 1)
	c.need("writes of queued packets", 1)
}

func (p *Prog) isEngineServer(e *Event) bool {
	return e.Recv != nil && e.Recv.Typ != nil && namedOf(e.Recv.Typ) != nil && namedOf(e.Recv.Typ).Obj().Pkg() == p.Engine && !types.IsInterface(e.Recv.Typ) && e.Recv.Op != "iface" && e.Inlined
}

// transportNameOf returns the name of the transport a connection was accepted by, if its type is known.
func (c *Check) transportNameOf(recv *Val) string {
	p := c.P
	if recv == nil || recv.Typ == nil {
		return ""
	}
	t := recv.Typ
	if types.IsInterface(t) {
		return ""
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		fn := p.method(x, "Name")
		if fn == nil || len(fn.Blocks) != 1 {
			continue
		}
		if ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			if k, ok := ret.Results[0].(*ssa.Const); ok && k.Value != nil {
				s := k.Value.ExactString()
				if len(s) > 2 {
					return s[1 : len(s)-1]
				}
			}
		}
	}
	return ""
}
