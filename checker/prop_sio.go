package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sio knows the types of package socketio and follows one message through a handler.
type sio struct {
	c *Check
	p *Prog

	pkt                     types.Type
	fType, fNsp, fData, fID *types.Var // of Packet
	nspT, cbT, ackT, sockT  *types.Named
	onConnect, onDisconnect *types.Var // of namespaces
	onError                 *types.Var
	errHooks                map[*types.Var]bool // of Server and Client
	acks                    *types.Var          // of socket: the namespaces joined
	fn                      *types.Var          // of callback
	order                   map[*types.Var]bool // mutexes of socket

	roles map[*ssa.Function]sioRole
}

type sioRole struct {
	what   string // "open", "message" or "close"
	server bool
}

// mapTo reports whether t is a map with keys of kind k (or of type kt) and elements of type *elem (any if nil).
func mapTo(t types.Type, elem types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	pt, ok := m.Elem().Underlying().(*types.Pointer)
	return ok && elem != nil && types.Identical(pt.Elem(), elem)
}

// fieldMap finds the field of struct t that is a map from basic kind k to pointers to a struct of the module.
func fieldMap(t types.Type, k types.BasicKind) (f *types.Var, elem *types.Named) {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		b, ok := m.Key().Underlying().(*types.Basic)
		if !ok || b.Kind() != k {
			continue
		}
		if pt, ok := m.Elem().Underlying().(*types.Pointer); ok {
			if n := namedOf(pt.Elem()); n != nil {
				return st.Field(i), n
			}
		}
	}
	return nil, nil
}

// storedBy returns the field in which method name of t keeps its argument.
func (c *Check) storedBy(t types.Type, name string) (f *types.Var) {
	m := c.P.method(t, name)
	if m == nil {
		return nil
	}
	c.probe(&Config{Name: "setter", OnEvent: func(s *State, e *Event) {
		if e.Kind == EvStore && e.Addr.Op == "field&" && e.Val != nil && e.Val.Op == "param" && e.Val.Idx > 0 {
			f = e.Addr.Field
		}
	}}, m)
	return
}

func (c *Check) newSio() *sio {
	p := c.P
	x := &sio{c: c, p: p, roles: map[*ssa.Function]sioRole{}, errHooks: map[*types.Var]bool{}, order: map[*types.Var]bool{}}
	x.pkt = p.rootType("Packet")
	if st, ok := x.pkt.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			switch f := st.Field(i); f.Name() {
			case "Type":
				x.fType = f
			case "Namespace":
				x.fNsp = f
			case "Data":
				x.fData = f
			case "ID":
				x.fID = f
			}
		}
	}
	for _, t := range p.concrete(p.rootType("Namespace")) {
		if _, cb := fieldMap(t, types.String); cb != nil {
			x.nspT, x.cbT = t, cb
		}
	}
	if x.nspT == nil {
		c.undecided("no implementation of Namespace with a table of callbacks found")
		return nil
	}
	if st, ok := x.cbT.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isNamed(st.Field(i).Type(), "reflect", "Value") {
				x.fn = st.Field(i)
			}
		}
	}
	for _, t := range p.namedTypes() {
		if t.Obj().Pkg() != p.Root || types.IsInterface(t) {
			continue
		}
		if _, cb := fieldMap(t, types.Uint64); cb != nil && types.Identical(cb, x.cbT) {
			x.ackT = t
		}
	}
	for _, t := range p.namedTypes() {
		if t.Obj().Pkg() != p.Root || types.IsInterface(t) {
			continue
		}
		if f, a := fieldMap(t, types.String); a != nil && x.ackT != nil && types.Identical(a, x.ackT) {
			x.sockT, x.acks = t, f
		}
	}
	x.onConnect, x.onDisconnect, x.onError = c.storedBy(x.nspT, "OnConnect"), c.storedBy(x.nspT, "OnDisconnect"), c.storedBy(x.nspT, "OnError")
	for _, n := range []string{"Server", "Client"} {
		if f := c.storedBy(p.rootType(n), "OnError"); f != nil {
			x.errHooks[f] = true
		}
	}
	if x.fType == nil || x.fNsp == nil || x.fData == nil || x.fID == nil || x.fn == nil || x.ackT == nil || x.sockT == nil || x.onConnect == nil ||
		x.onDisconnect == nil || x.onError == nil || len(x.errHooks) != 2 {
		c.undecided("the parts of package socketio could not be identified")
		return nil
	}
	if st, ok := x.sockT.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isLockType(st.Field(i).Type()) {
				x.order[st.Field(i)] = true
			}
		}
	}
	return x
}

// roots are the functions that set up servers and clients, from which all handlers are found.
func (x *sio) roots() (fns []*ssa.Function) {
	for _, f := range []*ssa.Function{x.p.function(x.p.Root, "NewServer"), x.p.method(x.p.rootType("Client"), "Dial")} {
		if f != nil {
			fns = append(fns, f)
		}
	}
	return
}

// keep: packets belong to the function that decoded or made them.
func (x *sio) keep(addr *Val) bool {
	b := rootOf(addr)
	if b.Typ != nil && types.Identical(deref(b.Typ), x.pkt) {
		return true
	}
	f, _ := fieldLoad(b)
	return f != nil && f == x.fID
}

// role of the handler explored.
func (x *sio) role(s *State) sioRole { return x.roles[s.rootFn()] }

// register notes the handlers given to the engine.
func (x *sio) register(s *State, e *Event) {
	if e.Kind != EvCall || e.Meth == nil || e.Meth.Pkg() != x.p.Engine {
		return
	}
	closure := func(v *Val) *ssa.Function {
		v = v.strip()
		for v != nil && (v.Op == "conv" || v.Op == "iface") {
			v = v.Args[0].strip()
		}
		if v != nil && (v.Op == "closure" || v.Op == "fn") {
			return v.Fn
		}
		return nil
	}
	switch {
	case e.Name() == "On" && len(e.Args) > 0:
		ev, fn := "", (*ssa.Function)(nil)
		for _, a := range e.Args {
			if v, ok := s.strOf(a); ok {
				ev = v
			} else if f := closure(a); f != nil {
				fn = f
			}
		}
		if fn == nil || ev == "" {
			s.Report("handler", e, "a handler is registered that is not known")
			return
		}
		server := e.Recv.find(func(v *Val) bool {
			return v.Typ != nil && types.Identical(deref(v.Typ), x.p.engineType("Server"))
		}) != nil
		x.roles[fn] = sioRole{ev, server}
		x.c.site("handlers of "+ev, e)
	case e.Name() == "NewServer":
		for _, a := range e.Args {
			if f := closure(a); f != nil && len(f.Params) == 1 {
				x.roles[f] = sioRole{"open", true}
				x.c.site("handlers of open", e)
			}
		}
	}
}

// pair builds a value that keeps its parts together across renamings.
func (s *State) pair(vs ...*Val) *Val { return s.run.in.mk(Val{Op: "pair", Args: vs}) }

// isEnc reports whether e is a call of a method of the interface named (Encoder, Decoder) of package socketio.
func (x *sio) ifaceCall(e *Event, iface, name string) bool {
	return e.Kind == EvCall && !e.Inlined && e.Meth != nil && e.Meth.Name() == name && e.Recv != nil && e.Recv.Typ != nil &&
		implements(e.Recv.Typ, x.p.rootType(iface))
}

// sockOf returns the socket whose field v was loaded from.
func (x *sio) sockOf(s *State, v *Val) *Val {
	v = v.strip()
	for i := 0; v != nil && i < 4; i++ {
		// what a field was set to
		for _, k := range sortedKeys(s.Mem) {
			if en := s.Mem[k]; en.addr.Op == "field&" && en.val.strip() == v && types.Identical(deref(en.addr.Args[0].Typ), x.sockT) {
				return en.addr.Args[0]
			}
		}
		f, b := fieldLoad(v)
		if f == nil {
			return nil
		}
		if types.Identical(deref(b.Typ), x.sockT) {
			return b
		}
		v = b
	}
	return nil
}

// track follows what a handler does; it must see every event first.
//
//	sock        the socket whose decoder handed out the packet
//	pk          the packet; pk.Type etc. what was in it
//	nsp#        pairs (namespace or lookup, name)
//	ack#        pairs (lookup or new table of acknowledgements, name)
//	cb#         pairs (lookup, namespace or table, event or id)
//	parsed      the call of ParseData; args: the call of UnmarshalArgs; called: the call of the callback
//	hook#       hooks loaded
//	made#       sockets made by this handler
func (x *sio) track(s *State, e *Event) {
	x.register(s, e)
	x.p.trackLocks(s, e)
	if !s.Flag("start") {
		s.SetFlag("start")
		for p, v := range s.Stack[0].Env {
			if _, ok := p.(*ssa.Parameter); ok && types.Identical(p.Type(), x.p.engineType("MessageType")) {
				s.Set("kind", v)
			}
		}
	}
	if _, v, ok := chanRecv(e); ok {
		ch, _, _ := chanRecv(e)
		if chanOf(ch, x.pkt) && v != nil {
			s.Inc("received")
			s.Set("pk", v)
			for _, f := range []*types.Var{x.fType, x.fNsp, x.fData, x.fID} {
				s.Del("pk." + f.Name())
			}
		}
	}
	switch e.Kind {
	case EvCall:
		switch {
		case x.ifaceCall(e, "Decoder", "Decoded"):
			if b := x.sockOf(s, e.Recv); b != nil {
				s.Set("sock", b)
			}
		case x.ifaceCall(e, "Decoder", "ParseData") && e.Res != nil:
			s.Set("parsed", e.Res)
			if len(e.Args) > 0 && e.Args[len(e.Args)-1] != s.Get("pk") {
				s.SetFlag("parsed.other")
			}
		case pkgCall(e, "reflect", "ValueOf") && len(e.Args) == 1 && implements(e.Args[0].strip().Typ, x.p.rootType("Socket")):
			s.SetAdd("so", e.Args[0].strip())
		case e.Meth != nil && e.Meth.Name() == "UnmarshalArgs" && !e.Inlined && e.Res != nil:
			s.Set("args", e.Res)
		}
	case EvAlloc:
		if types.Identical(deref(e.Val.Typ), x.sockT) {
			s.SetAdd("made", e.Val)
		}
	case EvLoad:
		if e.Addr.Op == "field&" {
			if b, pk := e.Addr.Args[0], s.Get("pk"); pk != nil && b == pk {
				if k := "pk." + e.Addr.Field.Name(); s.Get(k) == nil && !s.Flag(k+".set") {
					s.Set(k, e.Val)
				}
			}
			switch f := e.Addr.Field; {
			case f == x.onConnect || f == x.onDisconnect || f == x.onError || x.errHooks[f]:
				s.SetAdd("hook", e.Val)
			}
		}
	case EvStore:
		if e.Addr.Op == "field&" && s.Get("pk") != nil && e.Addr.Args[0] == s.Get("pk") {
			s.SetFlag("pk." + e.Addr.Field.Name() + ".set")
		}
	case EvLookup:
		m := e.Args[0]
		switch {
		case m.Typ == nil:
		case mapTo(m.Typ, x.nspT):
			s.SetAdd("nsp", s.pair(e.Res, e.Args[1]))
		case mapTo(m.Typ, x.ackT):
			s.SetAdd("ack", s.pair(e.Res, e.Args[1], m))
		case mapTo(m.Typ, x.sockT):
			s.SetAdd("sk", s.pair(e.Res, e.Args[1]))
		case mapTo(m.Typ, x.cbT):
			_, b := fieldLoad(m)
			if b == nil {
				b = s.run.mkNil()
			}
			s.SetAdd("cb", s.pair(e.Res, b, e.Args[1]))
		}
	case EvMapUpdate:
		m := e.Args[0]
		switch {
		case m.Typ == nil:
		case mapTo(m.Typ, x.nspT):
			s.SetAdd("nsp", s.pair(e.Args[2], e.Args[1]))
		case mapTo(m.Typ, x.ackT):
			s.SetAdd("ack", s.pair(e.Args[2], e.Args[1], m))
		}
	}
}

// found looks value v up in the set of pairs name: the pair made for it, if any. present reports whether the lookup is
// known to have found something.
func (s *State) found(name string, v *Val) (pr *Val, present bool) {
	v = v.strip()
	if v == nil {
		return nil, false
	}
	for _, q := range s.SetVals(name) {
		l := q.Args[0]
		if l == v {
			return q, l.Op != "lookup" || s.NonNil(v)
		}
		if s.resOf(l, 0) == v {
			return q, s.IsTrue(s.resOf(l, 1)) || s.NonNil(v)
		}
	}
	return nil, false
}

// lookups lists the pairs of set name made for key k: whether one is known to have found, or not to have found, something.
func (s *State) lookups(name string, is func(k *Val) bool) (yes, no bool) {
	for _, q := range s.SetVals(name) {
		k := q.Args[1]
		if name == "cb" {
			k = q.Args[2]
		}
		if !is(k) {
			continue
		}
		l := q.Args[0]
		if l.Op != "lookup" {
			yes = true
			continue
		}
		v, ok := s.resOf(l, 0), s.resOf(l, 1)
		if ok != nil && ok != v {
			yes = yes || s.IsTrue(ok)
			no = no || s.IsFalse(ok)
		}
		yes = yes || s.NonNil(v)
		no = no || s.IsNil(v)
	}
	return
}

// orig is what field f of the packet received held.
func (x *sio) orig(s *State, f *types.Var) *Val { return s.Get("pk." + f.Name()) }

// field is what field f of packet q holds, as far as known.
func (x *sio) field(s *State, q *Val, f *types.Var) *Val {
	if v := s.fieldNow(q, f); v != nil {
		return v
	}
	if q == s.Get("pk") && !s.Flag("pk."+f.Name()+".set") {
		return x.orig(s, f)
	}
	return nil
}

// isNsp reports whether v is the namespace of the packet received.
func (x *sio) isNsp(s *State, v *Val) bool {
	o := x.orig(s, x.fNsp)
	if o == nil || v == nil {
		return false
	}
	eq, known := s.Eq(v, o)
	return v == o || eq && known
}

// types returns the packet types the packet received may have; 7 stands for all unknown ones.
func (x *sio) types(s *State) (ts []int64) {
	t := x.orig(s, x.fType)
	for n := int64(0); n < 7; n++ {
		if t == nil {
			ts = append(ts, n)
			continue
		}
		c := s.run.constVal(constInt(n), t.Typ)
		if eq, known := s.Eq(t, c); !known || eq {
			ts = append(ts, n)
			if known && eq {
				return []int64{n}
			}
		}
	}
	if t != nil {
		if _, hi := s.interval(t, 0); hi < 7 {
			return
		}
	}
	return append(ts, 7)
}

// only reports whether the packet received has one of the types.
func (x *sio) only(s *State, set ...int64) bool {
	for _, t := range x.types(s) {
		ok := false
		for _, u := range set {
			ok = ok || t == u
		}
		if !ok {
			return false
		}
	}
	return true
}

// may reports whether the packet received may have one of the types.
func (x *sio) may(s *State, set ...int64) bool {
	for _, t := range x.types(s) {
		for _, u := range set {
			if t == u {
				return true
			}
		}
	}
	return false
}

const (
	sioConnect = iota
	sioDisconnect
	sioEvent
	sioAck
	sioError
	sioBinEvent
	sioBinAck
)

// fired recognises the call of a callback: cb is the callback, in the arguments.
func (x *sio) fired(e *Event) (cb *Val, in *Val, ok bool) {
	if e.Kind != EvCall || e.Inlined || e.Recv == nil || !pkgCall(e, "reflect", "Call", "CallSlice") {
		return nil, nil, false
	}
	var f *types.Var
	var b *Val
	if a := loadedFrom(e.Recv); a != nil && a.Op == "field&" {
		f, b = a.Field, a.Args[0]
	}
	if f == nil || f != x.fn {
		return nil, nil, true
	}
	return b, e.Args[len(e.Args)-1], true
}

// hookCall recognises the call of a hook.
func (x *sio) hookCall(e *Event) (f *types.Var, base *Val) {
	if e.Kind != EvCall || e.FnVal == nil {
		return nil, nil
	}
	f, base = fieldLoad(e.FnVal)
	if f == nil || f != x.onConnect && f != x.onDisconnect && f != x.onError && !x.errHooks[f] {
		return nil, nil
	}
	return
}

// hookNil reports whether hook f is known not to be set.
func (x *sio) hookNil(s *State, f *types.Var) bool {
	for _, v := range s.SetVals("hook") {
		if g, _ := fieldLoad(v); g == f && s.IsNil(v) {
			return true
		}
	}
	return false
}

// boundTo reports whether so is a socket of the connection sock for the namespace is accepts.
func (x *sio) boundTo(s *State, so, sock *Val, is func(*Val) bool) bool {
	so = so.strip()
	for so != nil && (so.Op == "iface" || so.Op == "conv") {
		so = so.Args[0].strip()
	}
	if so == nil || so.Typ == nil {
		return false
	}
	if so == sock {
		return is(s.run.strVal("/"))
	}
	st, ok := deref(so.Typ).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	bound, named := false, false
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		v := s.fieldNow(so, f)
		if v == nil {
			continue
		}
		if types.Identical(deref(f.Type()), x.sockT) && v.strip() == sock {
			bound = true
		}
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && is(v) {
			named = true
		}
	}
	return bound && named
}

// sent recognises the encoding of a packet to be sent.
func (x *sio) sent(e *Event) (q *Val, ok bool) {
	if !x.ifaceCall(e, "Encoder", "Encode") || len(e.Args) == 0 {
		return nil, false
	}
	return e.Args[len(e.Args)-1], true
}

func (x *sio) describe(ts []int64) string { return fmt.Sprint(ts) }
