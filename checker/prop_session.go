package main

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "Effect and typestate analysis of the sending side (interprocedural, path-sensitive): the goroutine started with each "+
		"session is the only code that writes to a session's transport or takes packets from its queue; on every path of it each packet "+
		"taken is written before the next is taken, under a fresh write deadline, and a failed write closes the transport; Emit queues "+
		"exactly one packet, itself, exactly if it succeeds.", func(c *Check) { c.senderRules() })
	register("C06", "Typestate of closing on every path: channels are closed under a Once; Close signals the sender, waits for it, and only "+
		"then closes the transport loaded afterwards; the sender, once signalled, ends only with its queue found empty; Emit checks the "+
		"signal before it queues.", func(c *Check) { c.closeRules() })
	register("C07", "Effect analysis of every blocking channel operation of the module: each waits as well on a channel that closing closes "+
		"(or on the request's context), polling transports also on the pause and on the deadline set, and none is repeated once it "+
		"was ended by one of these.", func(c *Check) { c.blockingRules() })
	register("C10", "Ownership and typestate of sessions and connections on every path: every reader ends with the session closed, forgotten "+
		"and reported exactly once; every session made is handed to the dispatcher, which starts one reader for it, or released; every "+
		"connection dialled becomes a client with a reader or is closed.", func(c *Check) { c.releaseRules() })
	register("C11", "Typestate of session construction on every path of the dispatcher, the readers and Dial, with the provenance of every "+
		"parameter announced and taken.", func(c *Check) { c.openRules() })
	register("C12", "Provenance of every deadline and period, and typestate of reads, writes and pings on every path of Read, the sender, the "+
		"readers and the client's heartbeat.", func(c *Check) { c.heartbeatRules() })
	register("C15", "Typestate of each packet read on every path of every reader goroutine: it is handled exactly once, as its type says, "+
		"with its own kind and data, before the next is read.", func(c *Check) { c.readerRules() })
}

// --- the goroutines of a session ---------------------------------------------------

// sockOpaque keeps the operations of sessions, transports and barriers as single events.
func (p *Prog) sockOpaque(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
	return p.engineOpaque(fn, meth, recv) || p.isSocketMethod(fn, "Read", "Emit", "Close")
}

// sockCall recognises an operation of a session kept opaque.
func (p *Prog) sockCall(e *Event, name string) bool {
	return e.Kind == EvCall && !e.Inlined && p.isSocketMethod(e.Fn, name)
}

// goSites lists the go statements starting goroutines in which is(s, e) holds for some event, with one spawn each; others
// are the entry points in which it does.
func (c *Check) goSites(opaque func(*ssa.Function, *types.Func, types.Type) bool, is func(s *State, e *Event) bool) (sites map[ssa.Instruction]*Spawn, others []*Event) {
	sites = map[ssa.Instruction]*Spawn{}
	seen := map[ssa.Instruction]bool{}
	sub := c.quiet()
	sub.explore(&Config{Name: "gosites", Opaque: opaque, OnEvent: func(s *State, e *Event) {
		if !is(s, e) {
			return
		}
		if sp := s.run.CurSpawn; sp != nil && sp.Kind == "go" {
			sites[sp.Instr] = sp
		} else if !seen[e.Instr] {
			seen[e.Instr] = true
			others = append(others, e)
		}
	}}, c.P.entryPoints(c.P.Engine), nil)
	c.failed = append(c.failed, sub.failed...)
	sort.Slice(others, func(i, j int) bool { return others[i].Pos() < others[j].Pos() })
	return
}

// sender describes the sending side of sessions.
type sender struct {
	site  ssa.Instruction // the go statement
	spawn *Spawn
	queue *types.Var // the channel of packets
	stop  map[*types.Var]bool
}

func (c *Check) findSender() *sender {
	p := c.P
	sites, others := c.goSites(p.engineOpaque, func(s *State, e *Event) bool {
		return p.connOp(e, "WritePacket") && !e.Inlined && p.isSessionConn(e.Recv)
	})
	for _, e := range others {
		c.fail("second-writer", p.pos(e.Pos()), "a packet is written to a session's transport by something else than the session's sender goroutine")
	}
	if len(sites) == 0 {
		c.undecided("no goroutine writes to the transport of a session")
		return nil
	}
	sn := &sender{stop: c.closedIn(p.method(types.NewPointer(p.socketType()), "Close"))}
	var keys []ssa.Instruction
	for k := range sites {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return instrPos(keys[i]) < instrPos(keys[j]) })
	if len(keys) > 1 {
		c.fail("second-writer", p.pos(instrPos(keys[1])), "goroutines started here and at %s both write to a session's transport", p.pos(instrPos(keys[0])))
	}
	sn.site, sn.spawn = keys[0], sites[keys[0]]
	pkt := p.engineType("Packet")
	sub := c.quiet()
	sub.explore(&Config{Name: "queue", OnEvent: func(s *State, e *Event) {
		if ch, _, ok := chanSend(e); ok && chanOf(ch, pkt) && s.rootFn().Name() == "Emit" {
			sn.queue = s.chanID(ch)
		}
	}, Opaque: p.engineOpaque}, []*ssa.Function{p.method(types.NewPointer(p.socketType()), "Emit")}, nil)
	if sn.queue == nil {
		c.undecided("Emit sends packets on no channel kept in a struct")
		return nil
	}
	return sn
}

// inSender reports whether the goroutine explored is the sender.
func (sn *sender) in(s *State) bool {
	sp := s.run.CurSpawn
	return sp != nil && sp.Kind == "go" && sp.Instr == sn.site
}

// --- C05 ---------------------------------------------------------------------------

func (c *Check) senderRules() {
	p := c.P
	sn := c.findSender()
	if sn == nil {
		return
	}
	sockT := p.socketType()
	pkt := p.engineType("Packet")
	emitted := map[string]bool{"open": true, "message": true, "close": true, "ping": true, "pong": true}
	paused := func(s *State, v *Val) (is, known bool) { return s.isGval(v, p.Engine, "ErrPollingConnPaused") }
	cfg := &Config{Name: "sender", Opaque: p.engineOpaque, Depth: 12}
	cfg.OnEvent = func(s *State, e *Event) {
		trackNow(s, e)
		// the number of senders per session
		if e.Kind == EvAlloc && types.Identical(deref(e.Val.Typ), sockT) {
			s.Inc("sockets")
			c.site("sessions constructed", e)
		}
		if e.Kind == EvGo && (e.Instr == sn.site || e.Fn == sn.spawn.Fn) {
			s.Inc("senders")
			if s.Int("senders") > s.Int("sockets") {
				s.Report("second-writer", e, "more than one sender is started for a session")
			}
		}
		if rootExit(e) && s.Int("senders") != s.Int("sockets") && s.Int("sockets") < 2 {
			s.Report("no-writer", e, "a session is constructed without starting its sender")
		}
		ch, got, isRecv := chanRecv(e)
		if isRecv && chanOf(ch, pkt) && s.chanID(ch) == sn.queue && !sn.in(s) {
			s.Report("second-consumer", e, "a packet is taken from a session's queue by something else than its sender")
		}
		// Emit
		if p.isSocketMethod(s.rootFn(), "Emit") && s.run.CurSpawn == nil {
			s.Set("event", s.param(1)) // keeps what is known about it
			if ch, v, ok := chanSend(e); ok && chanOf(ch, pkt) {
				if s.chanID(ch) != sn.queue {
					s.Report("emit-queue", e, "packets are queued on another channel than they are sent from")
				}
				if s.Flag("sent") {
					s.Report("emit-twice", e, "more than one packet is queued by one call")
				}
				if v.isNil() {
					s.Report("emit-twice", e, "no packet is queued")
				}
				s.SetFlag("sent")
				c.site("packets accepted", e)
			}
			if rootExit(e) {
				err := e.Results[0]
				other := true
				for ev := range emitted {
					if eq, k := s.Eq(s.param(1), s.run.constVal(constant.MakeString(ev), s.param(1).Typ)); !k || eq {
						other = false
					}
				}
				switch {
				case s.Flag("sent") && !s.IsNil(err):
					s.Report("emit-result", e, "an error is returned for a packet that was queued")
				case !s.Flag("sent") && !s.NonNil(err) && !other:
					s.Report("emit-result", e, "success is returned for a packet that was not queued")
				}
			}
		}
		if !sn.in(s) {
			return
		}
		settle := func(what string) {
			if s.Get("p") != nil && !s.Flag("written") {
				s.Report("packet-skipped", e, "%s though the packet taken before is not written", what)
			}
			if w := s.Get("werr"); w != nil && !s.IsNil(w) && !s.Flag("connclosed") {
				if is, k := paused(s, w); !k || !is {
					s.Report("write-failed", e, "%s though writing a packet may have failed for another reason than a pause and the transport is not closed: the packet is skipped", what)
				}
			}
		}
		if wait := e.Kind == EvRecv || e.Kind == EvSelect && e.Block; wait && !s.Flag("stopping") {
			ready := e.Kind == EvRecv && s.chanID(e.Chan) == sn.queue
			for _, k := range e.Cases {
				ready = ready || !k.Send && s.chanID(k.Chan) == sn.queue
			}
			c.site("waits of the sender", e)
			if !ready {
				s.Report("idle", e, "the sender waits for something else than the next packet: packets accepted meanwhile are not written")
			}
		}
		if s.chose(e, sn.stop) {
			s.SetFlag("stopping")
		}
		switch {
		case isRecv && chanOf(ch, pkt) && s.chanID(ch) == sn.queue:
			settle("the sender takes another packet")
			s.Set("p", got)
			s.Del("written")
			s.Del("werr")
			s.Del("connclosed")
			c.site("packets taken by the sender", e)
		case p.connOp(e, "SetWriteDeadline") && !e.Inlined:
			if freshDeadline(s, e.Args[0]) && deadlineDur(e.Args[0]) != nil {
				s.Set("wd", e.Recv)
			}
		case p.connOp(e, "WritePacket") && !e.Inlined && p.isSessionConn(e.Recv):
			c.site("writes by the sender", e)
			if e.Args[0] != s.Get("p") {
				s.Report("packet-order", e, "what is written is not the packet taken from the queue last")
			}
			if s.Flag("written") {
				if is, k := paused(s, s.Get("werr")); !k || !is {
					s.Report("packet-twice", e, "a packet is written again though its write was not interrupted by a pause")
				}
			}
			if s.Get("wd") != e.Recv {
				s.Report("no-deadline", e, "a packet is written without a write deadline set for it on that transport")
			}
			s.Del("wd")
			spendNow(s)
			s.SetFlag("written")
			s.Del("connclosed")
			s.Set("werr", s.res(e, 0))
			s.Set("wconn", e.Recv)
		case p.connCall(e, "Close") && e.Kind != EvGo && (e.Recv == s.Get("wconn") || p.isSessionConn(e.Recv)):
			if e.Kind == EvCall {
				s.SetFlag("connclosed")
			}
			if w := s.Get("werr"); s.Flag("written") && w != nil && s.IsNil(w) {
				s.Report("write-failed", e, "the sender closes the transport after a successful write")
			}
			if w := s.Get("werr"); w != nil {
				if is, k := paused(s, w); !k || is {
					s.Report("write-failed", e, "the sender closes the transport though the write may only have been interrupted by a pause")
				}
			}
		case rootExit(e):
			settle("the sender ends")
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), nil)
	c.need("sessions constructed", 1)
	c.need("packets accepted", 1)
	c.need("packets taken by the sender", 1)
	c.need("writes by the sender", 1)
}

// --- C06 ---------------------------------------------------------------------------

// inOnce reports whether f runs inside the function given to a sync.Once.
func inOnce(f *Frame) bool {
	for ; f != nil; f = f.Parent {
		if c, ok := f.Site.(ssa.CallInstruction); ok && onceDo(c.Common().StaticCallee()) {
			return true
		}
	}
	return false
}

// closesOnce decides that no channel is closed twice: closing happens under a Once, after winning a compare-and-swap, or
// after finding the channel open with a lock held; the sender, of which there is one per session (C05), may close as well.
func (c *Check) closesOnce(s *State, e *Event, sn *sender) {
	if e.Kind == EvSelect && e.Chosen == -1 && len(s.SetVals("W")) > 0 {
		for _, k := range e.Cases {
			if !k.Send {
				s.SetAdd("open", k.Chan)
			}
		}
	}
	if a, what := c.P.lockOp(e); a != nil && what == "Unlock" {
		s.DelPrefix("open#")
	}
	if e.Kind == EvAssume && e.Cond && e.Val != nil {
		if v := e.Val; v.Op == "call" && v.Meth != nil && (v.Meth.Name() == "CompareAndSwap" || len(v.Meth.Name()) > 14 && v.Meth.Name()[:14] == "CompareAndSwap") {
			s.SetFlag("won")
		}
	}
	if e.Kind != EvClose {
		return
	}
	x := e.Chan.strip()
	if x.Op == "make" && x.Leaf != "" && s.SetHas("made", x) {
		return // made by this very path
	}
	if isPaused(s, x) {
		return
	}
	c.site("channels closed", e)
	if !inOnce(e.Frame) && !sn.in(s) && !s.Flag("won") && !s.SetHas("open", e.Chan) {
		s.Report("closed-twice", e, "a channel is closed that may be closed already: nothing makes sure it happens once")
	}
	if !inOnce(e.Frame) && s.SetHas("closed", x) {
		s.Report("closed-twice", e, "a channel is closed a second time")
	}
	s.SetAdd("closed", x)
}

// isPaused: channels replaced through an atomic value belong to the pause protocol (C03: only an upgrade pauses, under the
// barrier, and resumes before the next).
func isPaused(s *State, x *Val) bool {
	return isCallOf(x, "sync/atomic", "Load", "Swap")
}

func (c *Check) closeRules() {
	p := c.P
	sn := c.findSender()
	if sn == nil {
		return
	}
	sockT := p.socketType()
	pkt := p.engineType("Packet")
	emit := p.method(types.NewPointer(sockT), "Emit")
	closeFn := p.method(types.NewPointer(sockT), "Close")
	if len(sn.stop) == 0 {
		c.undecided("Socket.Close closes no channel")
		return
	}
	// how the sender tells that it has ended: the wait groups it marks done, the channels it closes
	ended := map[*types.Var]bool{}
	endOf := func(s *State, e *Event) *types.Var {
		if e.Kind == EvCall && pkgCall(e, "sync", "Done") && e.Recv != nil && e.Recv.Op == "field&" {
			return e.Recv.Field
		}
		if e.Kind == EvClose {
			return s.chanID(e.Chan)
		}
		return nil
	}
	sub := c.quiet()
	sub.explore(&Config{Name: "ended", Opaque: p.engineOpaque, OnEvent: func(s *State, e *Event) {
		if sn.in(s) {
			if f := endOf(s, e); f != nil {
				ended[f] = true
			}
		}
	}}, p.entryPoints(p.Engine), nil)
	waits := func(s *State, e *Event) bool {
		if e.Kind == EvCall && pkgCall(e, "sync", "Wait") && e.Recv != nil && e.Recv.Op == "field&" {
			return ended[e.Recv.Field]
		}
		if ch, _, ok := chanRecv(e); ok {
			if f := s.chanID(ch); f != nil {
				return ended[f] && (e.Kind == EvRecv || e.Block)
			}
		}
		return false
	}
	cfg := &Config{Name: "close", Opaque: p.engineOpaque, Depth: 12}
	cfg.OnEvent = func(s *State, e *Event) {
		p.trackLocks(s, e)
		locked, _ := heldClass(s, sockT)
		if locked != "W" {
			s.Del("running")
			s.Del("replaced")
		} else if e.Kind == EvSelect && e.Chosen == -1 {
			for _, k := range e.Cases {
				if f := s.chanID(k.Chan); !k.Send && f != nil && sn.stop[f] {
					s.SetFlag("running")
				}
			}
		} else if e.Kind == EvStore && p.connFieldAddr(e.Addr) {
			s.SetFlag("replaced")
		}
		if p.connCall(e, "Close") && p.isSessionConn(e.Recv) && !sn.in(s) && !e.Frame.has(closeFn) {
			c.site("transports closed elsewhere", e)
			if e.Kind != EvCall || locked != "W" || !s.Flag("running") && !s.Flag("replaced") {
				s.Report("close-early", e, "the transport of a session is closed though the session may be closing and its sender not have sent all packets accepted (not locked, or not checked)")
			}
		}
		if e.Kind == EvMake {
			s.SetAdd("made", e.Val)
		}
		c.closesOnce(s, e, sn)
		root := s.rootFn()
		switch {
		case s.run.CurSpawn == nil && root == emit:
			if e.Kind == EvSelect && e.Chosen == -1 {
				for _, k := range e.Cases {
					if f := s.chanID(k.Chan); !k.Send && f != nil && sn.stop[f] {
						s.SetFlag("checked")
					}
				}
			}
			if s.chose(e, sn.stop) {
				s.SetFlag("stopped")
			}
			if ch, _, ok := chanSend(e); ok && chanOf(ch, pkt) {
				c.site("packets accepted", e)
				if s.Flag("stopped") || !s.Flag("checked") {
					s.Report("send-after-close", e, "a packet is queued without checking before that the session is not closed: it may never be sent, though success is returned")
				}
			}
			if rootExit(e) && s.Flag("stopped") && !s.NonNil(e.Results[0]) {
				s.Report("send-after-close", e, "sending on a closed session does not fail")
			}
		case s.run.CurSpawn == nil && root == closeFn:
			if e.Kind == EvClose && s.Flag("entered") == false {
				if f := s.chanID(e.Chan); f != nil && sn.stop[f] {
					s.SetFlag("entered")
					c.site("sessions closed", e)
				}
			}
			if waits(s, e) {
				if !s.Flag("entered") {
					s.Report("close-order", e, "Close waits for the sender before telling it to end")
				}
				s.SetFlag("waited")
				s.DelPrefix("conn#")
				c.site("waits for the sender", e)
			}
			if e.Kind == EvLoad && p.connFieldAddr(e.Addr) {
				s.SetAdd("conn", e.Val)
			}
			if p.connCall(e, "Close") {
				if e.Kind != EvCall && !(e.Kind == EvDefer) {
					s.Report("close-order", e, "the transport is not closed by Close itself")
				}
				if e.Kind == EvCall {
					if !s.Flag("waited") {
						s.Report("close-early", e, "the transport is closed before the sender is known to have sent all packets accepted")
					}
					if !s.SetHas("conn", e.Recv) {
						s.Report("close-stale", e, "the transport closed was looked up before the sender ended: it may have been replaced")
					}
					s.Inc("connclosed")
				}
			}
			if rootExit(e) {
				n := s.Int("connclosed")
				if s.Flag("entered") && n != 1 {
					s.Report("close-order", e, "the session is closed but its transport is closed %d times", n)
				}
				if !s.Flag("entered") && n != 0 {
					s.Report("close-early", e, "the transport is closed without ending the sender first")
				}
			}
		case sn.in(s):
			if s.chose(e, sn.stop) {
				s.SetFlag("stopping")
			}
			if ch, _, ok := chanRecv(e); ok && s.chanID(ch) == sn.queue {
				s.Del("drained")
			}
			if e.Kind == EvSelect && e.Chosen == -1 && s.Flag("stopping") {
				for _, k := range e.Cases {
					if !k.Send && s.chanID(k.Chan) == sn.queue {
						s.SetFlag("drained")
						c.site("queues found empty", e)
					}
				}
			}
			if f := endOf(s, e); f != nil {
				if !s.Flag("drained") {
					s.Report("not-drained", e, "the sender reports its end though packets accepted may still be queued")
				}
				if s.Flag("ended") {
					s.Report("ended-twice", e, "the sender reports its end twice")
				}
				s.SetFlag("ended")
			}
			if s.Flag("ended") && p.connOp(e, "WritePacket") && p.isSessionConn(e.Recv) {
				s.Report("not-drained", e, "the sender writes after it reported its end")
			}
			if rootExit(e) {
				if !s.Flag("drained") {
					s.Report("not-drained", e, "the sender ends though packets accepted may still be queued")
				}
				if !s.Flag("ended") {
					s.Report("not-drained", e, "the sender ends without reporting it")
				}
			}
		default:
			if e.Kind == EvCall && pkgCall(e, "sync", "Add") && e.Recv != nil && e.Recv.Op == "field&" && ended[e.Recv.Field] {
				if n, ok := s.num(e.Args[0]); !ok || n != 1 || s.Flag("added") {
					s.Report("wait-count", e, "the senders are counted wrongly")
				}
				s.SetFlag("added")
			}
			if e.Kind == EvGo && e.Instr == sn.site {
				c.site("senders started", e)
				for f := range ended {
					if isNamed(f.Type(), "sync", "WaitGroup") && !s.Flag("added") {
						s.Report("wait-count", e, "a sender is started before it is counted: Close does not wait for it")
					}
				}
				s.Del("added")
			}
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), nil)
	c.need("channels closed", 3)
	c.need("packets accepted", 1)
	c.need("sessions closed", 1)
	c.need("waits for the sender", 1)
	c.need("queues found empty", 1)
	c.need("senders started", 1)
	// closing a client
	cl := p.engineType("Client")
	fn := p.method(types.NewPointer(cl), "Close")
	if fn == nil || fn.Signature.Recv() == nil || !types.Identical(deref(fn.Signature.Recv().Type()), cl) {
		c.undecided("Client.Close not found")
		return
	}
	watched := map[*types.Var]bool{} // channels the goroutines of a client wait for
	sub = c.quiet()
	sub.explore(&Config{Name: "watched", Opaque: p.sockOpaque, OnEvent: func(s *State, e *Event) {
		if sp := s.run.CurSpawn; sp != nil && sp.Kind == "go" && !p.fromServer(sp) {
			if e.Kind == EvSelect || e.Kind == EvRecv {
				if ch, _, ok := chanRecv(e); ok {
					if f := s.chanID(ch); f != nil {
						watched[f] = true
					}
				}
			}
		}
	}}, []*ssa.Function{p.function(p.Engine, "Dial")}, nil)
	stops := c.closedIn(fn)
	c.explore(&Config{Name: "clientclose", Opaque: p.sockOpaque, OnEvent: func(s *State, e *Event) {
		if e.Kind == EvClose {
			if f := s.chanID(e.Chan); f != nil && stops[f] {
				s.SetAddName("closed", f.Name())
			}
			s.SetFlag("entered")
		}
		if p.sockCall(e, "Close") {
			s.SetFlag("sock")
			s.SetFlag("entered")
		}
		if rootExit(e) && s.Flag("entered") {
			c.site("clients closed", e)
			if !s.Flag("sock") {
				s.Report("client-close", e, "a client is closed without closing its session")
			}
			for f := range watched {
				if ownerIs(p, cl, f) && !s.Flag("closed:"+f.Name()) {
					s.Report("client-close", e, "a client is closed without telling its goroutines (channel %s)", f.Name())
				}
			}
		}
	}}, []*ssa.Function{fn}, nil)
	c.need("clients closed", 1)
}

// SetAddName sets the flag name:n.
func (s *State) SetAddName(name, n string) { s.SetFlag(name + ":" + n) }

// ownerIs reports whether f is a field of struct type t.
func ownerIs(p *Prog, t types.Type, f *types.Var) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return true
		}
	}
	return false
}

// --- C07 ---------------------------------------------------------------------------

// terminators are the channels that the Close methods of the module close.
func (c *Check) terminators() map[*types.Var]bool {
	p := c.P
	t := map[*types.Var]bool{}
	for _, n := range p.namedTypes() {
		if types.IsInterface(n) {
			continue
		}
		fn := p.method(types.NewPointer(n), "Close")
		if fn == nil || fn.Blocks == nil || !p.inModule(fn) {
			continue
		}
		for f := range c.closedIn(fn) {
			t[f] = true
		}
	}
	return t
}

// ctxDone reports whether ch is the Done channel of a context that comes with the request (or is given).
func ctxDone(ch *Val) bool {
	ch = ch.strip()
	return isCallOf(ch, "context", "Done") && ch.find(func(x *Val) bool { return x.Op == "param" }) != nil
}

// timerOf returns the duration of the timer whose channel ch is.
func timerOf(ch *Val) *Val {
	ch = ch.strip()
	if isCallOf(ch, "time", "After") && len(ch.Args) == 1 {
		return ch.Args[0]
	}
	if f, b := fieldLoad(ch); f != nil && f.Name() == "C" && f.Pkg() != nil && f.Pkg().Path() == "time" {
		if isCallOf(b, "time", "NewTimer", "NewTicker") {
			return b.Args[0]
		}
	}
	return nil
}

func (c *Check) blockingRules() {
	p := c.P
	term := c.terminators()
	if len(term) == 0 {
		c.undecided("no Close method closes a channel")
		return
	}
	qs := c.queueConns()
	dec := p.rootType("Packet")
	deadlines := map[*types.Var]string{} // fields set by SetReadDeadline and SetWriteDeadline of a queueing transport
	for _, q := range qs {
		for _, n := range []string{"SetReadDeadline", "SetWriteDeadline"} {
			n := n
			c.probe(&Config{Name: "deadline", OnEvent: func(s *State, e *Event) {
				var f *types.Var
				if e.Kind == EvCall && pkgCall(e, "sync/atomic", "Store", "Swap") && e.Recv != nil && e.Recv.Op == "field&" && e.Args[0].has(s.param(1)) {
					f = e.Recv.Field
				}
				if e.Kind == EvStore && e.Addr.Op == "field&" && e.Val.has(s.param(1)) {
					f = e.Addr.Field
				}
				if f != nil {
					if o := deadlines[f]; o != "" && o != n {
						c.fail("deadline-mixed", p.pos(e.Pos()), "SetReadDeadline and SetWriteDeadline set the same deadline")
					}
					deadlines[f] = n
				}
			}}, p.method(q.t, n))
		}
	}
	onEvent := func(s *State, e *Event) {
		// the deadline consulted
		dl := func(v *Val) *types.Var {
			if isCallOf(v, "sync/atomic", "Load") && len(v.Args) > 0 && v.Args[0].Op == "field&" {
				return v.Args[0].Field
			}
			f, _ := fieldLoad(v)
			return f
		}
		if e.Kind == EvCall && e.Res != nil {
			if f := dl(e.Res); f != nil && deadlines[f] != "" {
				s.Set("dl:"+deadlines[f], e.Res)
			}
		}
		if e.Kind == EvLoad && e.Val != nil {
			if f := dl(e.Val); f != nil && deadlines[f] != "" {
				s.Set("dl:"+deadlines[f], e.Val)
			}
		}
		if e.Kind == EvAssume && e.Cond && isCallOf(e.Val, "time", "IsZero") {
			s.SetAdd("zero", e.Val.Args[0])
		}
		if e.Kind == EvSelect && e.Chosen == -1 {
			for _, k := range e.Cases {
				if !k.Send && s.SetHas("ended", k.Chan) {
					s.SetFlag("impossible") // a closed channel is always ready
				}
			}
		}
		if s.Flag("impossible") {
			return
		}
		if e.Kind == EvCall && !e.Inlined && e.Fn != nil && e.Frame.has(e.Fn) {
			for _, ch := range s.SetVals("ended") {
				if ctxDone(ch) {
					s.Report("close-ignored", e, "%s starts over though its request is cancelled", e.Fn.Name())
				}
			}
		}
		var cases []selCase
		switch {
		case e.Kind == EvSelect && e.Block:
			cases = e.Cases
		case e.Kind == EvSend:
			cases = []selCase{{Send: true, Chan: e.Chan}}
		case e.Kind == EvRecv:
			cases = []selCase{{Chan: e.Chan}}
		default:
			return
		}
		for _, k := range cases {
			if !k.Send && s.SetHas("ended", k.Chan) {
				s.Report("close-ignored", e, "the code goes on to block though it was told to end (by a close or a cancelled request)")
			}
		}
		c.site("blocking operations", e)
		has := func(set map[*types.Var]bool) bool {
			for _, k := range cases {
				if f := s.chanID(k.Chan); !k.Send && f != nil && set[f] {
					return true
				}
			}
			return false
		}
		ctx, timer := false, false
		var timers []*Val
		for _, k := range cases {
			if !k.Send && ctxDone(k.Chan) {
				ctx = true
			}
			if d := timerOf(k.Chan); d != nil {
				timers = append(timers, d)
			}
		}
		for _, k := range cases {
			if chanOf(k.Chan, dec) { // a decoder's queue: C24, C25
				return
			}
		}
		if e.Chosen >= 0 && e.Chosen < len(cases) && e.Kind == EvSelect {
			k := cases[e.Chosen]
			if f := s.chanID(k.Chan); !k.Send && (f != nil && term[f] || ctxDone(k.Chan)) {
				s.SetAdd("ended", k.Chan)
			}
		}
		if !has(term) {
			s.Report("blocks-past-close", e, "an operation may block that closing the connection, session or server it belongs to does not end")
		}
		for _, q := range qs {
			uses := func(f *types.Var, send bool) bool {
				for _, k := range cases {
					if k.Send == send && s.chanID(k.Chan) == f {
						return true
					}
				}
				return false
			}
			root := s.rootFn()
			check := func(what string, deadline string) {
				c.site(what, e)
				if !has(q.closed) {
					s.Report("blocks-past-close", e, "%s may block that closing the transport does not end", what)
				}
				if len(q.paused) > 0 && !has(q.paused) {
					s.Report("blocks-past-pause", e, "%s may block that a pause of the transport does not end", what)
				}
				if deadline == "" {
					return
				}
				d := s.Get("dl:" + deadline)
				for _, t := range timers {
					if d != nil && t.has(d) {
						timer = true
					}
				}
				zero := d != nil && (s.IsNil(d) || s.notOfType(d))
				for _, z := range s.SetVals("zero") {
					if d != nil && z.has(d) {
						zero = true
					}
				}
				switch {
				case d == nil:
					s.Report("blocks-past-deadline", e, "%s may block without regard to the deadline set with %s", what, deadline)
				case !timer && !zero:
					s.Report("blocks-past-deadline", e, "%s may block past the deadline set with %s", what, deadline)
				}
			}
			switch {
			case root == q.write && uses(q.out, true):
				check("writing to a polling transport", "SetWriteDeadline")
			case root == q.read && uses(q.in, false):
				check("reading from a polling transport", "SetReadDeadline")
			case uses(q.out, false):
				check("a poll", "")
				if !ctx {
					s.Report("blocks-past-request", e, "a poll may block that the cancellation of its request does not end")
				}
			case uses(q.in, true):
				c.site("packets posted", e)
			}
		}
	}
	c.explore(&Config{Name: "blocking", Depth: 12, Opaque: p.engineOpaque, OnEvent: onEvent}, p.entryPoints(p.Engine), nil)
	c.explore(&Config{Name: "blocking", Opaque: p.rootOpaque, OnEvent: onEvent}, p.entryPoints(p.Root), nil)
	c.need("blocking operations", 6)
	c.need("writing to a polling transport", 1)
	c.need("reading from a polling transport", 1)
	c.need("a poll", 1)
	c.need("packets posted", 1)
}
