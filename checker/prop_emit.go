package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "Typestate of acknowledgement callbacks on every path that registers, sends or fires one: a fresh id from the table's counter, registered before the event "+
		"is encoded with it; looked up and removed in one critical section before it is called.",
		func(c *Check) { c.callbackRules() })
	register("C22", "Typestate of the frames of a message on every path that sends one: under the connection's order lock, text first, attachments by index, nothing after a failure.",
		func(c *Check) { c.messageRules() })
	register("C23", "Typestate of namespaces joined on every path of the handlers: check and update in one critical section, one hook call for each, all left on close, joins confirmed.",
		func(c *Check) { c.joinRules() })
}

// entries are the functions users of package socketio call, and the methods of its sockets.
func (x *sio) entries() (fns []*ssa.Function) {
	for _, f := range x.p.entryPoints(x.p.Root) {
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			ok := false
			for _, n := range []string{"Socket", "Namespace"} {
				ok = ok || implements(t, x.p.rootType(n))
			}
			for _, n := range []string{"Server", "Client"} {
				ok = ok || types.Identical(deref(t), x.p.rootType(n))
			}
			if !ok {
				continue
			}
		}
		fns = append(fns, f)
	}
	return
}

// everywhere explores handlers and entry points.
func (x *sio) everywhere(name string, on func(s *State, e *Event)) {
	x.c.explore(&Config{Name: name, Depth: 40, Opaque: x.p.rootOpaque, Keep: x.keep, OnEvent: func(s *State, e *Event) {
		x.track(s, e)
		on(s, e)
	}}, append(x.roots(), x.entries()...), nil)
	x.c.need("handlers of message", 2)
	x.c.need("handlers of close", 2)
	x.c.need("handlers of open", 1)
}

// valueIn returns what the struct-valued field f of *ptr was stored as.
func (s *State) valueIn(ptr *Val, f *types.Var) *Val {
	if v := s.fieldNow(ptr, f); v != nil {
		return v
	}
	a := s.fieldAddrOf(ptr, f)
	st, ok := f.Type().Underlying().(*types.Struct)
	if a == nil || !ok || st.NumFields() == 0 {
		return nil
	}
	v := s.fieldNow(a, st.Field(0))
	if v != nil && v.Op == "field" {
		return v.Args[0]
	}
	return nil
}

// ackMap reports whether v is the table of outstanding acknowledgements, and of which ackHandle.
func (x *sio) ackMap(v *Val) (a *Val, ok bool) {
	if v == nil || !mapTo(v.Typ, x.cbT) {
		return nil, false
	}
	b, isB := v.Typ.Underlying().(*types.Map).Key().Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	_, a = fieldLoad(v)
	return a, true
}

func (c *Check) callbackRules() {
	x := c.newSio()
	if x == nil {
		return
	}
	p := c.P
	counterOf := func(addr *Val) *Val { // the table whose counter addr is
		if addr != nil && addr.Op == "field&" && types.Identical(deref(addr.Args[0].Typ), x.ackT) {
			return addr.Args[0]
		}
		return nil
	}
	x.everywhere("callbacks", func(s *State, e *Event) {
		// ids
		if e.Kind == EvCall && e.Meth != nil && pkgCall(e, "sync/atomic") {
			args := e.Args
			if e.Recv != nil {
				args = append([]*Val{e.Recv}, args...)
			}
			if a := counterOf(args[0]); a != nil && e.Res == nil {
				s.Report("id", e, "the counter of ids is set")
			} else if a != nil {
				switch e.Name() {
				case "AddUint64", "Add", "AddInt64":
					if n, ok := s.num(args[len(args)-1]); ok && n > 0 {
						s.SetAdd("fresh", s.pair(e.Res, a))
					} else {
						s.Report("id", e, "the counter of ids does not grow by a positive constant")
					}
				case "LoadUint64", "Load", "LoadInt64":
				default:
					s.Report("id", e, "the counter of ids is set")
				}
			}
		}
		if e.Kind == EvStore && isIntVal(e.Val) {
			if a := counterOf(e.Addr); a != nil && a.Op != "alloc" {
				v, old := e.Val, e.Sum
				if v := old; v.Op == "bin" && token.Token(v.Idx) == token.ADD {
					old = v.Args[0]
				}
				if heldOn(s, a) != "W" || old == e.Sum || loadedFrom(old) != e.Addr {
					s.Report("id", e, "the counter of ids is set to something else than one more than it was, or without its lock")
				} else {
					s.SetAdd("fresh", s.pair(v, a))
					s.SetAdd("fresh", s.pair(old, a))
				}
			}
		}
		// registration
		if e.Kind == EvMapUpdate {
			if a, ok := x.ackMap(e.Args[0]); ok {
				c.site("callbacks registered", e)
				id := e.Args[1]
				pr := s.pair(id, a)
				if a == nil || !s.SetHas("fresh", pr) {
					s.Report("id", e, "a callback is registered under an id (%s) not known to be unused", id)
				}
				s.SetDel("fresh", pr)
				s.SetAdd("registered", pr)
				if v := s.valueIn(e.Args[2].strip(), x.fn); v != nil && isCallOf(v, "reflect", "ValueOf") {
					s.SetAdd("regarg", v.Args[0].strip())
				}
			}
		}
		if e.Kind == EvLoad && e.Val != nil && e.Val.Typ != nil && types.IsInterface(e.Val.Typ) && e.Addr.Op == "index&" && rootOf(e.Addr).Op == "param" {
			s.Set("arg", s.pair(e.Val, s.run.constVal(constInt(int64(len(s.Stack))), types.Typ[types.Int])))
		}
		inner := func(v *Val) bool { // v is an element of a loop around this one
			pr := s.Get("arg")
			if pr == nil {
				return false
			}
			n, ok := pr.Args[1].int64()
			return ok && pr.Args[0] == v && int64(len(s.Stack)) > n
		}
		if e.Kind == EvEdge && e.To.Dominates(e.From) || isSent(x, e) {
			for _, f := range s.Facts {
				if f.op != "eq" || !f.val || f.b == nil {
					continue
				}
				k, n := f.a, f.b
				if k.Op == "const" {
					k, n = n, k
				}
				if v, ok := n.int64(); !ok || v != 19 || !isCallOf(k, "reflect", "Kind") || !isCallOf(k.Args[0].strip(), "reflect", "TypeOf") {
					continue
				}
				if f := k.Args[0].strip().Args[0].strip(); f.Op == "load" && !s.SetHas("regarg", f) && !(e.Kind == EvEdge && inner(f)) {
					s.Report("unregistered", e, "a callback passed along (%s) is not registered", f)
				}
			}
		}
		// the event that carries the id
		if q, ok := x.sent(e); ok {
			t, known := s.num(x.field(s, q, x.fType))
			if known && t != sioEvent && t != sioBinEvent {
				return
			}
			c.site("events sent", e)
			id := x.field(s, q, x.fID)
			switch {
			case id == nil:
				s.Report("event", e, "an event is sent whose id is not known")
			case id.isNil() || s.IsNil(id):
				if len(s.SetVals("registered")) > 0 {
					s.Report("event", e, "a callback has been registered but the event carries no id")
				}
			default:
				n := s.Mem[id.Key].val
				found := false
				for _, pr := range s.SetVals("registered") {
					if pr.Args[0] != n {
						continue
					}
					ak, present := s.found("ack", pr.Args[1])
					ns := x.field(s, q, x.fNsp)
					if ak != nil && present && ns != nil {
						eq, known := s.Eq(ak.Args[1], ns)
						found = found || ak.Args[1] == ns || eq && known
					}
				}
				if !found {
					s.Report("event", e, "an event carries an id (%v) for which no callback is known to be registered in its namespace", n)
				}
			}
		}
		// firing
		if e.Kind == EvLookup {
			if a, ok := x.ackMap(e.Args[0]); ok && a != nil && heldOn(s, a) == "W" {
				s.SetAdd("section", s.pair(e.Res, e.Args[0], e.Args[1], a))
			}
		}
		if a, what := p.lockOp(e); a != nil && what == "Unlock" && a.Op == "field&" {
			for _, q := range s.SetVals("section") {
				if q.Args[3] == a.Args[0] {
					s.SetDel("section", q)
				}
			}
		}
		if e.Kind == EvMapDelete {
			if _, ok := x.ackMap(e.Args[0]); ok {
				c.site("callbacks removed", e)
				n := 0
				for _, q := range s.SetVals("section") {
					if q.Args[1] == e.Args[0] && q.Args[2] == e.Args[1] {
						s.SetAdd("taken", q.Args[0])
						n++
					}
				}
				if n == 0 {
					s.Report("drop", e, "a callback is removed that was not looked up in the same critical section")
				}
			}
		}
		if cb, _, ok := x.fired(e); ok && cb != nil {
			if pr, _ := s.found("cb", cb); pr != nil && !isStringVal(pr.Args[2]) {
				c.site("callbacks fired", e)
				if !s.SetHas("taken", pr.Args[0]) {
					s.Report("again", e, "an acknowledgement's callback is called without having been removed in the critical section it was looked up in, or twice")
				}
				s.SetDel("taken", pr.Args[0])
				if x.role(s).what == "message" {
					x.ownAck(s, e, s.Get("sock"), pr.Args[1], pr.Args[2])
				}
			}
		}
		if e.Kind == EvStore && e.Addr.Op == "field&" && counterOf(e.Addr) != nil && e.Addr.Args[0].Op != "alloc" {
			if _, ok := x.ackMap(e.Val); ok || e.Val.isNil() {
				s.Report("drop", e, "the table of outstanding callbacks is replaced")
			}
		}
	})
	c.need("callbacks registered", 1)
	c.need("callbacks removed", 1)
	c.need("callbacks fired", 1)
	c.need("events sent", 1)
}

func isSent(x *sio, e *Event) bool {
	_, ok := x.sent(e)
	return ok
}

// frame recognises the sending of a frame of a message.
func (x *sio) frame(s *State, e *Event) (sock, kind, data *Val, ok bool) {
	if e.Kind != EvCall && e.Kind != EvGo && e.Kind != EvDefer || e.Inlined || e.Meth == nil || e.Meth.Pkg() != x.p.Engine || e.Name() != "Emit" || len(e.Args) != 3 {
		return
	}
	if ev, known := s.strOf(e.Args[0]); known && ev != "message" {
		return
	}
	return x.sockOf(s, e.Recv), e.Args[1], e.Args[2], true
}

func (c *Check) messageRules() {
	x := c.newSio()
	if x == nil {
		return
	}
	p := c.P
	cur := cursor{"bins"}
	orders := map[*types.Var]bool{}
	complete := func(s *State, e *Event) {
		enc := s.Get("enc")
		if enc == nil || s.NonNil(s.resOf(enc, 2)) || s.Get("frame") != nil && s.NonNil(s.Get("frame")) {
			return
		}
		text := s.resOf(enc, 0)
		if !s.Flag("text") && !s.IsNil(text) {
			s.Report("missing", e, "the text of a message may not have been sent though nothing failed")
		}
		if !cur.done(s) {
			s.Report("missing", e, "attachments of a message may not have been sent though nothing failed")
		}
	}
	x.everywhere("frames", func(s *State, e *Event) {
		cur.edge(s, e)
		if _, ok := x.sent(e); ok && e.Res != nil {
			complete(s, e)
			s.Set("enc", e.Res)
			s.Del("text")
			s.Del("frame")
			s.Del("lock")
			s.Del("released")
			cur.start(s, s.resOf(e.Res, 1))
		}
		if a, what := p.lockOp(e); a != nil && what == "Unlock" && a == s.Get("lock") {
			s.SetFlag("released")
		}
		if sock, kind, data, ok := x.frame(s, e); ok {
			c.site("frames sent", e)
			enc := s.Get("enc")
			if e.Kind == EvGo || e.IsDefer {
				s.Report("order", e, "a frame is sent by another goroutine or later")
				return
			}
			if enc == nil {
				s.Report("raw", e, "a frame is sent that is not known to be part of an encoded message")
				return
			}
			// the lock
			var lock *Val
			for _, l := range s.SetVals("W") {
				if l.Op == "field&" && sock != nil && l.Args[0] == sock {
					lock = l
				}
			}
			switch {
			case lock == nil:
				s.Report("interleaved", e, "a frame is sent without a lock of its connection being held")
			case s.Get("lock") != nil && s.Get("lock") != lock:
				s.Report("interleaved", e, "the frames of a message are sent under different locks")
			case s.Flag("released"):
				s.Report("interleaved", e, "the lock is released between the frames of a message")
			default:
				s.Set("lock", lock)
				orders[lock.Field] = true
			}
			if !s.IsNil(s.resOf(enc, 2)) {
				s.Report("failed", e, "a frame is sent though the message may not have been encoded")
			}
			if f := s.Get("frame"); f != nil && !s.IsNil(f) {
				s.Report("failed", e, "a frame is sent though the one before may have failed")
			}
			k, known := s.num(kind)
			d := data.strip()
			switch {
			case d == s.resOf(enc, 0):
				if s.Flag("text") {
					s.Report("order", e, "the text of a message is sent twice")
				}
				if n, ok := s.num(cur.next(s)); !ok || n != 0 {
					s.Report("order", e, "the text of a message is sent after an attachment")
				}
				if !known || k != p.engineConst("MessageTypeString") {
					s.Report("kind", e, "the text of a message is not sent as text")
				}
				s.SetFlag("text")
			case cur.visit(s, d):
				if !s.Flag("text") && !s.IsNil(s.resOf(enc, 0)) {
					s.Report("order", e, "an attachment is sent before the text of its message")
				}
				if !known || k != p.engineConst("MessageTypeBinary") {
					s.Report("kind", e, "an attachment is not sent as binary")
				}
			default:
				s.Report("order", e, "what is sent (%s) is not the part of the message that is next", d)
			}
			s.Set("frame", s.res(e, 0))
		}
		if rootExit(e) {
			complete(s, e)
		}
	})
	if len(orders) > 1 {
		c.fail("interleaved", "package socketio", "frames of one connection are sent under different locks")
	}
	c.need("frames sent", 1)
}

func (c *Check) joinRules() {
	x := c.newSio()
	if x == nil {
		return
	}
	p := c.P
	same := func(s *State, a, b *Val) bool {
		eq, known := s.Eq(a, b)
		return a == b || eq && known
	}
	key := func(k *Val) func(s *State, v *Val) bool { return func(s *State, v *Val) bool { return same(s, v, k) } }
	_ = key
	root := func(s *State) *Val { return s.run.strVal("/") }
	// called reports whether the hook for key k has been called or is known not to be set
	settled := func(s *State, f *types.Var, k *Val) bool {
		for _, v := range s.SetVals("did." + f.Name()) {
			if same(s, v, k) {
				return true
			}
		}
		for _, pr := range s.SetVals("hookof") {
			if fv, _ := fieldLoad(pr.Args[0]); fv == f && s.IsNil(pr.Args[0]) && same(s, pr.Args[1], k) {
				return true
			}
		}
		_, missing := s.lookups("nsp", func(v *Val) bool { return same(s, v, k) })
		return missing
	}
	pending := func(s *State, e *Event) {
		for _, k := range s.SetVals("joined") {
			if !settled(s, x.onConnect, k) {
				s.Report("unreported", e, "a namespace is joined without its connect hook being called")
			}
		}
		for _, l := range s.SetVals("left") {
			if s.IsTrue(s.resOf(l.Args[0], 1)) && !settled(s, x.onDisconnect, l.Args[1]) {
				s.Report("unreported", e, "a namespace is left without its disconnect hook being called")
			}
		}
	}
	// each element of the range over the namespaces taken on close is dealt with before the next
	step := func(s *State, e *Event) {
		k := s.Get("each")
		if k == nil {
			return
		}
		if !settled(s, x.onDisconnect, k) {
			s.Report("unreported", e, "when the connection ends a namespace is left without its disconnect hook being called")
		}
		s.Del("each")
	}
	x.everywhere("namespaces", func(s *State, e *Event) {
		role := x.role(s)
		if e.Kind == EvLoad && e.Addr.Op == "field&" {
			f := e.Addr.Field
			if f == x.onConnect || f == x.onDisconnect {
				if pr, _ := s.found("nsp", e.Addr.Args[0]); pr != nil {
					s.SetAdd("hookof", s.pair(e.Val, pr.Args[1]))
				}
			}
			if f == x.acks && heldOn(s, e.Addr.Args[0]) == "W" {
				s.SetAdd("old", s.pair(e.Val, e.Addr.Args[0]))
			}
		}
		if e.Kind == EvStore && e.Addr.Op == "field&" && e.Addr.Field == x.acks && role.what != "message" {
			s.Set("ours", e.Addr.Args[0])
		}
		isAcks := len(e.Args) > 0 && e.Args[0] != nil && mapTo(e.Args[0].Typ, x.ackT)
		var sock *Val
		if isAcks {
			sock = x.sockOf(s, e.Args[0])
		}
		fresh := sock != nil && s.SetHas("made", sock)
		// critical sections
		if e.Kind == EvLookup && isAcks && sock != nil && (fresh || heldOn(s, sock) == "W") {
			s.SetAdd("sect", s.pair(e.Res, e.Args[1], sock))
		}
		if a, what := p.lockOp(e); a != nil && what == "Unlock" && a.Op == "field&" {
			for _, n := range []string{"sect", "old"} {
				for _, q := range s.SetVals(n) {
					if q.Args[len(q.Args)-1] == a.Args[0] {
						s.SetDel(n, q)
					}
				}
			}
		}
		switch {
		case e.Kind == EvMapUpdate && isAcks:
			c.site("namespaces joined", e)
			k := e.Args[1]
			absent := false
			for _, q := range s.SetVals("sect") {
				absent = absent || q.Args[2] == sock && same(s, q.Args[1], k) && (s.IsFalse(s.resOf(q.Args[0], 1)) || s.IsNil(s.resOf(q.Args[0], 0)))
			}
			if !absent {
				s.Report("overwrite", e, "a namespace is joined not known to be apart, in the same critical section: outstanding acknowledgements may be lost")
			}
			if a := e.Args[2].strip(); a.Op != "alloc" {
				s.Report("overwrite", e, "a namespace is joined with a table of acknowledgements that is not new")
			}
			s.SetAdd("joined", k)
			if role.what != "message" && role.what != "open" {
				s.Report("unasked", e, "a namespace is joined elsewhere than on opening or on request")
			}
		case e.Kind == EvMapDelete && isAcks:
			c.site("namespaces left", e)
			n := 0
			for _, q := range s.SetVals("sect") {
				if q.Args[2] == sock && same(s, q.Args[1], e.Args[1]) {
					s.SetAdd("left", s.pair(q.Args[0], e.Args[1]))
					n++
				}
			}
			if n == 0 {
				s.Report("unchecked", e, "a namespace is left without a look in the same critical section at whether it was joined")
			}
		case e.Kind == EvStore && e.Addr.Op == "field&" && e.Addr.Field == x.acks && !s.SetHas("made", e.Addr.Args[0]):
			c.site("all namespaces left", e)
			b := e.Addr.Args[0]
			var old *Val
			for _, q := range s.SetVals("old") {
				if q.Args[1] == b {
					old = q.Args[0]
				}
			}
			switch v := e.Val.strip(); {
			case heldOn(s, b) != "W" || old == nil:
				s.Report("unchecked", e, "the namespaces joined are replaced without having been taken in the same critical section")
			case v.Op != "make" && !v.isNil():
				s.Report("unchecked", e, "the namespaces joined are replaced by something else than an empty table")
			default:
				s.Set("taken", old)
			}
		}
		// leaving all
		if e.Kind == EvNext && len(e.Args) > 0 && s.Get("taken") != nil && e.Args[0] == s.Get("taken") {
			step(s, e)
			s.SetFlag("ranging")
		}
		if e.Kind == EvAssume && e.Val != nil && e.Val.Op == "ext" && e.Val.Idx == 0 && e.Val.Args[0].Op == "next" && s.Flag("ranging") {
			if r := e.Val.Args[0].Args[0]; r.Op == "range" && r.Args[0] == s.Get("taken") {
				if e.Cond {
					t, _ := e.Val.Args[0].Typ.(*types.Tuple)
					if t != nil {
						s.Set("each", s.run.in.mk(Val{Op: "ext", Args: []*Val{e.Val.Args[0]}, Idx: 1, Typ: t.At(1).Type()}))
					}
				} else {
					s.SetFlag("all")
				}
			}
		}
		// hooks
		if f, base := x.hookCall(e); f == x.onConnect || f == x.onDisconnect {
			if f == nil {
				return
			}
			c.site("calls of hook "+f.Name(), e)
			pr, present := s.found("nsp", base)
			if pr == nil || !present {
				s.Report("hook", e, "hook %s is called of a namespace not known to exist", f.Name())
				return
			}
			k := pr.Args[1]
			for _, v := range s.SetVals("did." + f.Name()) {
				if same(s, v, k) {
					s.Report("again", e, "hook %s is called twice", f.Name())
				}
			}
			ok := false
			if f == x.onConnect {
				for _, v := range s.SetVals("joined") {
					ok = ok || same(s, v, k)
				}
				if sock := s.Get("ours"); role.what == "open" && sock != nil && s.SetHas("made", sock) { // it had joined nothing before
					j, _ := s.lookups("ack", func(v *Val) bool { return same(s, v, k) })
					ok = ok || j
				}
				if role.server && !x.confirmed(s, k) {
					s.Report("unconfirmed", e, "the connect hook is called before the join has been confirmed")
				}
			} else {
				for _, l := range s.SetVals("left") {
					ok = ok || same(s, l.Args[1], k) && (s.IsTrue(s.resOf(l.Args[0], 1)) || s.NonNil(s.resOf(l.Args[0], 0)))
				}
				ok = ok || s.Get("each") != nil && same(s, s.Get("each"), k)
			}
			if !ok {
				s.Report("hook", e, "hook %s is called for a namespace not known to have just been joined or left", f.Name())
			}
			so := x.anySocket(s, role)
			if len(e.Args) == 0 || so == nil || !x.boundTo(s, e.Args[0], so, func(v *Val) bool { return same(s, v, k) }) {
				s.Report("socket", e, "hook %s is called with a socket not known to be bound to that namespace", f.Name())
			}
			s.SetAdd("did."+f.Name(), k)
		}
		// confirmations
		if q, ok := x.sent(e); ok {
			t, known := s.num(x.field(s, q, x.fType))
			if known && t == sioConnect {
				c.site("joins confirmed", e)
				ns := x.field(s, q, x.fNsp)
				switch {
				case !role.server || role.what != "open" && !(role.what == "message" && x.only(s, sioConnect)):
					s.Report("confirm", e, "a join is confirmed that was not asked for")
				case ns == nil || role.what == "message" && !x.isNsp(s, ns) || role.what == "open" && !same(s, ns, root(s)):
					s.Report("confirm", e, "another namespace is confirmed than was joined")
				case x.confirmed(s, ns):
					s.Report("confirm", e, "a join is confirmed twice")
				default:
					s.SetAdd("confirmed", ns)
				}
				joined, _ := s.lookups("ack", func(v *Val) bool { return same(s, v, ns) })
				if ns != nil && !joined {
					s.Report("confirm", e, "a join is confirmed before the namespace is joined")
				}
			}
		}
		// the table of sockets
		if e.Kind == EvMapUpdate && e.Args[0].Typ != nil && mapTo(e.Args[0].Typ, x.sockT) {
			s.SetFlag("tabled")
			if role.what != "open" || e.Args[1].Op != "param" || e.Args[2].Op != "alloc" {
				s.Report("table", e, "a socket is entered in the table elsewhere than on opening, or under another session")
			}
		}
		if e.Kind == EvMapDelete && e.Args[0].Typ != nil && mapTo(e.Args[0].Typ, x.sockT) {
			s.SetFlag("untabled")
			if role.what != "close" || e.Args[1].Op != "param" {
				s.Report("table", e, "a socket is removed from the table elsewhere than when it is closed, or another one")
			}
		}
		if !rootExit(e) {
			return
		}
		switch role.what {
		case "open":
			c.site("returns of open", e)
			pending(s, e)
			joined, _ := s.lookups("ack", func(v *Val) bool { return same(s, v, root(s)) })
			if !joined || !s.Flag("tabled") {
				s.Report("open", e, "a connection opens without joining the root namespace or without being entered in the table")
			}
			if !x.confirmed(s, root(s)) {
				s.Report("unconfirmed", e, "a connection opens without the join of the root namespace being confirmed")
			}
		case "message":
			c.site("returns of message", e)
			pending(s, e)
			exists, _ := s.lookups("nsp", func(v *Val) bool { return x.isNsp(s, v) })
			if pk := s.Get("pk"); role.server && pk != nil && !s.IsNil(pk) && exists && x.only(s, sioConnect) && s.Int("received") == 1 {
				if ns := x.orig(s, x.fNsp); ns == nil || !x.confirmed(s, ns) {
					s.Report("unconfirmed", e, "a join is not confirmed")
				}
			}
		case "close":
			c.site("returns of close", e)
			step(s, e)
			if role.server {
				if _, gone := s.lookups("sk", func(k *Val) bool { return k.Op == "param" }); gone {
					return
				}
				if !s.Flag("untabled") {
					s.Report("close", e, "a connection closes without being removed from the table")
				}
			}
			if s.Get("taken") == nil || !s.Flag("all") {
				s.Report("close", e, "a connection closes without leaving all namespaces")
			}
		}
	})
	c.need("namespaces joined", 1)
	c.need("namespaces left", 1)
	c.need("all namespaces left", 1)
	c.need("joins confirmed", 1)
}

// confirmed reports whether the join of namespace k has been confirmed.
func (x *sio) confirmed(s *State, k *Val) bool {
	for _, v := range s.SetVals("confirmed") {
		if eq, known := s.Eq(v, k); v == k || eq && known {
			return true
		}
	}
	return false
}

// anySocket is the socket of the connection the handler is called for.
func (x *sio) anySocket(s *State, role sioRole) *Val {
	if v := s.Get("sock"); v != nil {
		return v
	}
	return s.Get("ours")
}
