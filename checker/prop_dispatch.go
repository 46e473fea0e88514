package main

import (
	"go/constant"
	"go/types"
)

func init() {
	register("C18", "Guard and provenance analysis of every path of the message handlers of server and client: what fires a callback or hook, of which namespace, for "+
		"which event and type of packet; and that each packet type has had its effect when the handler returns.",
		func(c *Check) { c.dispatchRules() })
	register("C19", "Path-sensitive counting and provenance analysis of acknowledgements on every path of the message handlers.",
		func(c *Check) { c.ackRules() })
}

// handlers explores the handlers of servers and clients.
func (x *sio) handlers(name string, on func(s *State, e *Event)) {
	x.c.explore(&Config{Name: name, Depth: 40, Opaque: x.p.rootOpaque, Keep: x.keep, OnEvent: func(s *State, e *Event) {
		x.track(s, e)
		on(s, e)
	}}, x.roots(), nil)
	x.c.need("handlers of message", 2)
	x.c.need("handlers of close", 2)
	x.c.need("handlers of open", 1)
}

func (c *Check) dispatchRules() {
	x := c.newSio()
	if x == nil {
		return
	}
	p := c.P
	isNsp := func(s *State) func(*Val) bool { return func(v *Val) bool { return x.isNsp(s, v) } }

	x.handlers("dispatch", func(s *State, e *Event) {
		role := x.role(s)
		if role.what != "message" {
			return
		}
		sock := s.Get("sock")
		switch {
		case x.ifaceCall(e, "Decoder", "Add"):
			c.site("messages given to a decoder", e)
			b := x.sockOf(s, e.Recv)
			s.Inc("added")
			n := len(e.Args)
			if b == nil || n < 2 || e.Args[n-2].Op != "param" || e.Args[n-1].Op != "param" {
				s.Report("decoder", e, "what was received is not what is given to the decoder")
			} else if role.server && !x.ofSession(s, b) {
				s.Report("decoder", e, "the message is given to a decoder not known to be that of its session")
			}
			s.Set("adder", e.Recv)
			s.Set("added.err", s.res(e, 0))
		case x.ifaceCall(e, "Decoder", "Decoded"):
			if a := s.Get("adder"); a != nil && x.sockOf(s, a) != x.sockOf(s, e.Recv) {
				s.Report("decoder", e, "packets are taken from another decoder than the message was given to")
			}
		}
		if cb, _, ok := x.fired(e); ok {
			c.site("callbacks fired", e)
			pr, present := s.found("cb", cb)
			switch {
			case pr == nil:
				s.Report("fire", e, "a callback is called that was not looked up for the packet")
			case !present:
				s.Report("fire", e, "a callback is called that may not be registered")
			default:
				key, base := pr.Args[2], pr.Args[1]
				if isStringVal(key) {
					x.fireEvent(s, e, sock, base, key)
				} else {
					x.fireAck(s, e, sock, base, key)
				}
			}
			s.SetFlag("fired")
		}
		if f, base := x.hookCall(e); f != nil {
			c.site("hooks called", e)
			if x.errHooks[f] {
				s.SetFlag("told")
				return
			}
			pr, present := s.found("nsp", base)
			if s.Get("pk") == nil || pr == nil || !present || !x.isNsp(s, pr.Args[1]) {
				s.Report("namespace", e, "hook %s is called of a namespace not known to be that of the packet", f.Name())
				return
			}
			if len(e.Args) == 0 || !x.boundTo(s, e.Args[0], sock, isNsp(s)) {
				s.Report("socket", e, "hook %s is called with a socket not known to be bound to the packet's connection and namespace", f.Name())
			}
			switch {
			case f == x.onConnect && !x.only(s, sioConnect):
				s.Report("kind", e, "the connect hook is called for packets of other types %v", x.types(s))
			case f == x.onDisconnect && !x.only(s, sioDisconnect):
				s.Report("kind", e, "the disconnect hook is called for packets of other types %v", x.types(s))
			case f == x.onError:
				s.SetFlag("error")
				var args []*Val
				if len(e.Args) > 1 {
					args = s.varargs(e.Args[1])
				}
				for _, a := range args {
					if is, known := s.isGval(a.strip(), p.Root, "ErrUnknownPacket"); is && known {
						s.SetFlag("error.unknown")
					}
					if d := x.orig(s, x.fData); d != nil && a.strip() == d.strip() {
						s.SetFlag("error.data")
					}
				}
				if x.only(s, sioError) && !s.Flag("error.data") {
					s.Report("kind", e, "the error hook is not called with the data of the error packet")
				}
				if x.only(s, 7) && !s.Flag("error.unknown") {
					s.Report("kind", e, "a packet of unknown type is not reported as ErrUnknownPacket")
				}
			}
		}
		if q, ok := x.sent(e); ok {
			ns := x.field(s, q, x.fNsp)
			if s.Get("pk") == nil || ns == nil || !x.isNsp(s, ns) {
				s.Report("namespace", e, "a packet is sent in answer whose namespace is not known to be that of the packet received")
			}
			if t, ok := s.num(x.field(s, q, x.fType)); ok && t == sioError {
				c.site("error packets sent", e)
				s.SetFlag("refused")
				if !role.server || x.may(s, sioConnect, sioDisconnect) {
					s.Report("kind", e, "an error packet is sent in answer to packets of types %v", x.types(s))
				}
				joined, _ := s.lookups("ack", isNsp(s))
				exists, _ := s.lookups("nsp", isNsp(s))
				if joined && exists {
					s.Report("kind", e, "an error packet is sent for a namespace that is joined")
				}
			}
		}
		// joining and leaving
		if e.Kind == EvMapUpdate && mapTo(e.Args[0].Typ, x.ackT) {
			if !x.only(s, sioConnect) || x.sockOf(s, e.Args[0]) != sock || !x.isNsp(s, e.Args[1]) {
				s.Report("kind", e, "a namespace is joined by packets of types %v, or another one than the packet names", x.types(s))
			}
			if exists, _ := s.lookups("nsp", isNsp(s)); !exists {
				s.Report("kind", e, "a namespace is joined that is not known to exist")
			}
			s.SetFlag("joined")
		}
		if e.Kind == EvMapDelete && mapTo(e.Args[0].Typ, x.ackT) {
			if !x.only(s, sioDisconnect) || x.sockOf(s, e.Args[0]) != sock || !x.isNsp(s, e.Args[1]) {
				s.Report("kind", e, "a namespace is left by packets of types %v, or another one than the packet names", x.types(s))
			}
			s.SetFlag("left")
		}
		if rootExit(e) {
			x.dispatched(s, e, role, isNsp(s))
		}
	})
	c.nameRules(x)
	c.need("callbacks fired", 1)
	c.need("hooks called", 4)
	c.need("error packets sent", 1)
	c.need("messages given to a decoder", 1)
}

// ofSession reports whether sock was looked up by the handler's session.
func (x *sio) ofSession(s *State, sock *Val) bool {
	v := sock.strip()
	if v.Op == "ext" {
		v = v.Args[0]
	}
	return v.Op == "lookup" && len(v.Args) == 2 && v.Args[1].Op == "param" && mapTo(v.Args[0].Typ, x.sockT)
}

// fireEvent checks the call of the callback for an event of namespace n.
func (x *sio) fireEvent(s *State, e *Event, sock, n, key *Val) {
	isNsp := func(v *Val) bool { return x.isNsp(s, v) }
	if !x.only(s, sioEvent, sioBinEvent) {
		s.Report("kind", e, "an event's callback is called for packets of types %v", x.types(s))
	}
	pr, present := s.found("nsp", n)
	if pr == nil || !present || !x.isNsp(s, pr.Args[1]) {
		s.Report("namespace", e, "a callback is called of a namespace not known to be that of the packet")
	}
	ps := s.Get("parsed")
	if ps == nil || s.Flag("parsed.other") || key != s.resOf(ps, 0) {
		s.Report("event", e, "a callback is called for another event (%s) than the packet names", key)
	} else if !s.IsNil(s.resOf(ps, 3)) {
		s.Report("event", e, "a callback is called for an event that may not have been decoded")
	}
	if x.role(s).server {
		if joined, _ := s.lookups("ack", isNsp); !joined {
			s.Report("joined", e, "a callback is called for a namespace not known to be joined")
		}
	}
	x.withSocket(s, e, sock)
}

// fireAck checks the call of the acknowledgement callback of table a.
func (x *sio) fireAck(s *State, e *Event, sock, a, key *Val) {
	if !x.only(s, sioAck, sioBinAck) {
		s.Report("kind", e, "an acknowledgement is fired by packets of types %v", x.types(s))
	}
	x.ownAck(s, e, sock, a, key)
	x.withSocket(s, e, sock)
}

// ownAck checks that key in table a is what the acknowledgement received names.
func (x *sio) ownAck(s *State, e *Event, sock, a, key *Val) {
	pr, present := s.found("ack", a)
	if pr == nil || !present || !x.isNsp(s, pr.Args[1]) || x.sockOf(s, pr.Args[2]) != sock {
		s.Report("namespace", e, "an acknowledgement is fired in a namespace not known to be that of the packet")
	}
	id := x.orig(s, x.fID)
	if key.Op != "load" || id == nil || key.Args[0] != id {
		s.Report("event", e, "an acknowledgement is fired with another id (%s) than the packet carries", key)
	}
}

// withSocket checks the sockets a callback is called with: those made for it so far.
func (x *sio) withSocket(s *State, e *Event, sock *Val) {
	for _, v := range s.SetVals("so") {
		if !x.boundTo(s, v, sock, func(v *Val) bool { return x.isNsp(s, v) }) {
			s.Report("socket", e, "a callback is called with a socket not known to be bound to the packet's connection and namespace")
		}
	}
}

func isStringKind(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isStringVal(v *Val) bool { return v != nil && v.Typ != nil && isStringKind(v.Typ) }

// dispatched checks that a packet has had its effect when the handler returns.
func (x *sio) dispatched(s *State, e *Event, role sioRole, isNsp func(*Val) bool) {
	c := x.c
	c.site("message handlers' returns", e)
	if s.Int("added") == 0 && !x.notForUs(s) {
		s.Report("skipped", e, "the handler returns without having given the message to a decoder")
	}
	if s.Int("added") > 1 {
		s.Report("twice", e, "a message is given to a decoder twice")
	}
	if err := s.Get("added.err"); err != nil && !s.NonNil(err) && s.Get("sock") == nil {
		s.Report("skipped", e, "the handler returns without having looked for a packet complete with this message")
	}
	if s.Get("pk") == nil || s.IsNil(s.Get("pk")) {
		return
	}
	if s.Int("received") > 1 {
		return // processed one after the other: only the last is in view
	}
	exists, missing := s.lookups("nsp", isNsp)
	joined, apart := s.lookups("ack", isNsp)
	refuse := missing || role.server && !x.only(s, sioConnect) && apart
	if refuse && !exists || refuse && !joined {
		if role.server && !s.Flag("refused") && x.may(s, sioEvent, sioAck, sioError, sioBinEvent, sioBinAck, 7) {
			s.Report("refuse", e, "a packet of type %v for a namespace that does not exist or is not joined is not answered with an error packet", x.types(s))
		}
		return
	}
	if x.hasError(s) {
		return
	}
	cbs, nocb := s.lookups("cb", func(*Val) bool { return true })
	_ = cbs
	ts := x.types(s)
	for _, t := range ts {
		bad := ""
		switch t {
		case sioConnect:
			if !s.Flag("joined") && !joined {
				bad = "joining"
			}
		case sioDisconnect:
			if !s.Flag("left") && !apart {
				bad = "leaving"
			}
		case sioEvent, sioBinEvent:
			if s.Flag("fired") || nocb {
				continue
			}
			if ps := s.Get("parsed"); ps != nil {
				ev := s.resOf(ps, 0)
				if eq, known := s.Eq(ev, s.run.constVal(constant.MakeString(""), ev.Typ)); eq && known {
					continue
				}
			}
			bad = "calling the callback of its event"
		case sioAck, sioBinAck:
			if s.Flag("fired") || nocb || apart {
				continue
			}
			if id := x.orig(s, x.fID); id != nil && s.IsNil(id) {
				continue
			}
			bad = "calling the acknowledgement's callback"
		case sioError, 7:
			if !s.Flag("error") && !x.hookNil(s, x.onError) {
				bad = "calling the error hook"
			}
		}
		if bad != "" {
			s.Report("effect", e, "a packet of type %d (of %v) is dropped without %s", t, ts, bad)
			return
		}
	}
}

// hasError reports whether decoding the packet or its arguments is known to have failed.
func (x *sio) hasError(s *State) bool {
	if ps := s.Get("parsed"); ps != nil && s.NonNil(s.resOf(ps, 3)) {
		return true
	}
	if as := s.Get("args"); as != nil && s.NonNil(s.resOf(as, 1)) {
		return true
	}
	return false
}

// notForUs reports whether the message is known to be of no kind there is, or of a session that has ended.
func (x *sio) notForUs(s *State) bool {
	if _, ended := s.lookups("sk", func(k *Val) bool { return k.Op == "param" }); ended {
		return true
	}
	k := s.Get("kind")
	if k == nil {
		return false
	}
	for _, n := range []string{"MessageTypeString", "MessageTypeBinary"} {
		if eq, known := s.Eq(k, s.run.constVal(constInt(x.p.engineConst(n)), k.Typ)); eq || !known {
			return false
		}
	}
	return true
}

func (c *Check) ackRules() {
	x := c.newSio()
	if x == nil {
		return
	}
	cur := cursor{"res"}
	x.handlers("acknowledge", func(s *State, e *Event) {
		if x.role(s).what != "message" {
			return
		}
		cur.edge(s, e)
		if _, _, ok := x.fired(e); ok && x.may(s, sioEvent, sioBinEvent) {
			s.Inc("called")
			s.SetAdd("results", e.Res)
			cur.start(s, e.Res)
			s.Del("list")
		}
		// the results are collected in a list, in order
		result := func(v *Val) bool {
			v = v.strip()
			return isCallOf(v, "reflect", "Interface") && len(v.Args) == 1 && cur.active(s)
		}
		switch {
		case e.Kind == EvStore && e.Addr.Op == "index&" && result(e.Val):
			el := e.Val.strip().Args[0]
			i := cur.index(s, el)
			eq, known := false, false
			if i != nil {
				eq, known = s.Eq(i, e.Addr.Args[1])
			}
			if i != nil && (i == e.Addr.Args[1] || eq && known) && x.asLong(s, e.Addr.Args[0], s.Get("res.seq")) && cur.visit(s, el) {
				s.Set("list", e.Addr.Args[0])
			}
		case isAppend(e):
			if _, els, spread := s.appended(e); spread == nil && len(els) == 1 && result(els[0]) {
				if (e.Args[0].isNil() || x.empty(s, e.Args[0]) || s.Get("list") == e.Args[0]) && cur.visit(s, els[0].strip().Args[0]) {
					acc{"list"}.start(s, e.Res)
				}
			}
		}
		acc{"list"}.edge(s, e)

		if q, ok := x.sent(e); ok {
			t, known := s.num(x.field(s, q, x.fType))
			if !known {
				s.Report("kind", e, "a packet is sent in answer whose type is not known")
				return
			}
			if t != sioAck && t != sioBinAck {
				if x.only(s, sioEvent, sioBinEvent) && t != sioError {
					s.Report("kind", e, "an event is answered with a packet of type %d", t)
				}
				return
			}
			c.site("acknowledgements sent", e)
			if !x.only(s, sioEvent, sioBinEvent) {
				s.Report("unasked", e, "a packet of type %v is acknowledged", x.types(s))
			}
			s.Inc("acked")
			if s.Int("acked") > 1 {
				s.Report("twice", e, "an event is acknowledged twice")
			}
			id := x.orig(s, x.fID)
			if id == nil || !s.NonNil(id) {
				s.Report("unasked", e, "an event that may carry no id is acknowledged")
			} else if v := x.field(s, q, x.fID); !x.sameID(s, v, id) {
				s.Report("id", e, "an acknowledgement's id (%v) is not known to be that of the event", v)
			}
			if v := x.field(s, q, x.fNsp); v == nil || !x.isNsp(s, v) {
				s.Report("namespace", e, "an acknowledgement's namespace is not known to be that of the event")
			}
			if ps := s.Get("parsed"); ps == nil || !s.IsNil(s.resOf(ps, 3)) {
				s.Report("undecoded", e, "an event that may not have been decoded is acknowledged")
			}
			_, nocb := s.lookups("cb", func(*Val) bool { return true })
			if s.Int("called") == 0 && !nocb {
				s.Report("early", e, "an event is acknowledged before its callback was called")
			}
			x.ackData(s, e, q, cur)
		}
		if rootExit(e) {
			c.site("returns checked", e)
			if s.Get("pk") == nil || s.IsNil(s.Get("pk")) || s.Int("called") == 0 || s.Int("acked") > 0 {
				return
			}
			if id := x.orig(s, x.fID); !x.only(s, sioAck, sioBinAck) && (id == nil || !s.IsNil(id)) {
				s.Report("unanswered", e, "an event that may carry an id is not acknowledged though its callback was called")
			}
		}
	})
	c.need("acknowledgements sent", 1)
}

// sameID reports whether v is a pointer to the id that id points to.
func (x *sio) sameID(s *State, v, id *Val) bool {
	if v == nil {
		return false
	}
	if eq, known := s.Eq(v, id); v == id || eq && known {
		return true
	}
	if en, ok := s.Mem[v.Key]; ok && en.val.Op == "load" && en.val.Args[0] == id {
		return true
	}
	return false
}

// asLong reports whether list was made as long as seq.
func (x *sio) asLong(s *State, list, seq *Val) bool {
	if list.fdepth >= s.run.maxF() || seq.fdepth >= s.run.maxF() {
		return false
	}
	a := s.run.lenOf(s, nil, "len", list, types.Typ[types.Int])
	b := s.run.lenOf(s, nil, "len", seq, types.Typ[types.Int])
	eq, known := s.Eq(a, b)
	return a == b || eq && known
}

// empty reports whether list has no elements.
func (x *sio) empty(s *State, list *Val) bool {
	if s.IsNil(list) {
		return true
	}
	if list.fdepth >= s.run.maxF() {
		return false
	}
	n, ok := s.num(s.run.lenOf(s, nil, "len", list, types.Typ[types.Int]))
	return ok && n == 0
}

// ackData checks that an acknowledgement carries the results of the callback.
func (x *sio) ackData(s *State, e *Event, q *Val, cur cursor) {
	d := x.field(s, q, x.fData)
	switch {
	case d == nil:
		s.Report("data", e, "it is not known what an acknowledgement carries")
	case !s.NonNil(d) || !s.NonNil(d.strip()) && s.Get("list") != d.strip():
		s.Report("data", e, "an acknowledgement may carry nothing, which the peer does not accept as a list of results (%s)", d)
	case s.Int("called") == 0:
		if !x.empty(s, d.strip()) {
			s.Report("data", e, "an acknowledgement carries something (%s) though no callback was called", d)
		}
	case !cur.active(s) || !cur.done(s):
		s.Report("data", e, "an acknowledgement does not carry all of what the callback returned")
	case s.Get("list") == nil && !x.empty(s, s.Get("res.seq")), s.Get("list") != nil && s.Get("list") != d.strip():
		s.Report("data", e, "an acknowledgement carries something else (%s) than what the callback returned", d)
	}
}
