package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Dominating-fact analysis of every path of the server's request handler: wherever a transport, a session or the session table "+
		"is used, the conditions on the query and the session lookup are known to hold; a path that uses none answers exactly one 400, and does "+
		"so only for a known reason.", func(c *Check) { c.admissionRules() })
	register("C09", "Provenance and path analysis of origin checks: the check installed in both transports lets a request pass only after the "+
		"loop over all checkers (decided by an index invariant); every Accept calls the check installed, or has the upgrader call it, before "+
		"a connection exists; sessions are made only from connections so accepted.", func(c *Check) { c.originRules() })
}

// --- requests ----------------------------------------------------------------------

// queryKey returns the key of a query value of the request, or "".
func (s *State) queryKey(v *Val) string {
	v = v.strip()
	if !isCallOf(v, "net/url", "Get") || len(v.Args) != 2 || v.Args[0].find(func(x *Val) bool { return isCallOf(x, "net/url", "Query") }) == nil {
		return ""
	}
	k, _ := s.strOf(v.Args[1])
	return k
}

// trackQuery remembers the query values read.
func trackQuery(s *State, e *Event) {
	if e.Kind == EvCall && pkgCall(e, "net/url", "Get") && e.Res != nil {
		if k := s.queryKey(e.Res); k != "" {
			s.SetAdd("q:"+k, e.Res)
		}
	}
}

// queryIs reports whether query value key is known to be (is), or not to be (not) val.
func (s *State) queryIs(key, val string) (is, not bool) {
	for _, v := range s.SetVals("q:" + key) {
		if eq, k := s.Eq(v, s.run.constVal(constant.MakeString(val), v.Typ)); k {
			is = is || eq
			not = not || !eq
		}
	}
	return
}

// httpStatus recognises a response status being written: http.Error, WriteHeader.
func (s *State) httpStatus(e *Event) (w *Val, code *Val, ok bool) {
	if e.Kind != EvCall || e.Inlined {
		return
	}
	switch {
	case pkgCall(e, "net/http", "Error") && e.Recv == nil && len(e.Args) == 3:
		return e.Args[0], e.Args[2], true
	case pkgCall(e, "net/http", "WriteHeader") && e.Recv != nil && len(e.Args) == 1:
		return e.Recv, e.Args[0], true
	}
	return
}

// transportName is the constant the Name method of a transport of type t returns, or "".
func (c *Check) transportName(t types.Type) (name string) {
	k := "tname:" + t.String()
	if v, ok := c.cache[k]; ok {
		return v.(string)
	}
	fn := c.P.method(t, "Name")
	n := 0
	c.probe(&Config{Name: "name", OnEvent: func(s *State, e *Event) {
		if rootExit(e) && len(e.Results) == 1 {
			n++
			name, _ = s.strOf(e.Results[0])
		}
	}}, fn)
	if n != 1 {
		name = ""
	}
	c.cache[k] = name
	return
}

// serverTransports lists the fields of Server that are transports.
func (c *Check) serverTransports() (fs []*types.Var) {
	st, ok := c.P.engineType("Server").Underlying().(*types.Struct)
	if !ok {
		return
	}
	acc := c.P.engineType("Acceptor")
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			continue
		}
		if implements(f.Type(), acc) || implements(types.NewPointer(f.Type()), acc) {
			fs = append(fs, f)
		}
	}
	return
}

// serverTransport returns the field of the server v is (the address or value of), or nil.
func (c *Check) serverTransport(v *Val) *types.Var {
	for v = v.strip(); v != nil; v = v.Args[0].strip() {
		if v.Op == "iface" {
			v = v.Args[0].strip()
		}
		var f *types.Var
		switch {
		case v.Op == "field&" || v.Op == "field":
			f = v.Field
		case v.Op == "load":
		default:
			return nil
		}
		for _, g := range c.serverTransports() {
			if f == g {
				return g
			}
		}
		if len(v.Args) == 0 || v.Args[0] == nil {
			return nil
		}
	}
	return nil
}

func (c *Check) handlerRoot(t string) *ssa.Function {
	return c.P.method(types.NewPointer(c.P.engineType(t)), "ServeHTTP")
}

// --- C08 ---------------------------------------------------------------------------

func (c *Check) admissionRules() {
	p := c.P
	root := c.handlerRoot("Server")
	if root == nil {
		c.undecided("the server's ServeHTTP not found")
		return
	}
	if len(c.serverTransports()) < 2 {
		c.undecided("the server's transports not found")
	}
	version := pkgConst(p.Engine, "Version")
	if version == nil || constant.StringVal(version) != "3" {
		c.fail("version", "engine/protocol.go", "the protocol version is not 3")
	}
	sockT := p.socketType()
	cfg := &Config{Name: "admission", Opaque: p.engineOpaque, Depth: 14}
	cfg.OnEvent = func(s *State, e *Event) {
		if s.run.CurSpawn != nil {
			return
		}
		trackQuery(s, e)
		// what the request is known to name
		valid := func(what string) {
			if is, _ := s.queryIs("EIO", "3"); !is {
				s.Report("version", e, "%s though the request is not known to name the protocol version", what)
			}
			ws, _ := s.queryIs("transport", "websocket")
			po, _ := s.queryIs("transport", "polling")
			if !ws && !po {
				s.Report("transport", e, "%s though the request is not known to name a transport", what)
			}
		}
		session := func(so *Val, what string) {
			s.SetFlag("touched")
			valid(what)
			if so == nil || so != s.Get("found") && so != s.Get("new") {
				s.Report("session", e, "%s of a session that is neither the one the request names nor a new one", what)
			} else if so == s.Get("found") && !s.IsTrue(s.Get("ok")) {
				s.Report("session", e, "%s though the session named is not known to exist", what)
			}
		}
		if e.Kind == EvAlloc && types.Identical(deref(e.Val.Typ), sockT) {
			if is, _ := s.queryIs("sid", ""); !is {
				s.Report("new-session", e, "a session is made though the request may name one")
			}
			if s.Get("new") != nil {
				s.Report("new-session", e, "two sessions are made for a request")
			}
			s.Set("new", e.Val)
			c.site("sessions made", e)
		}
		if so := s.Get("found"); so != nil && (e.Kind == EvNilDeref && e.Val == so || e.Kind == EvLoad && e.Addr.Op == "field&" && e.Addr.Args[0] == so) && !s.IsTrue(s.Get("ok")) {
			s.Report("session", e, "the session looked up is used though it is not known to exist")
		}
		switch {
		case e.Kind == EvLookup && p.isSessionTable(e.Args[0]):
			if k := s.queryKey(e.Args[1]); k != "sid" {
				s.Report("session", e, "a session is looked up by something else than the id in the request")
			}
			c.site("sessions looked up", e)
			s.Set("found", s.res(e, 0))
			s.Set("ok", s.res(e, 1))
		case e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("Acceptor"), "Accept"):
			c.site("connections accepted", e)
			s.SetFlag("touched")
			valid("a connection is accepted")
			f := c.serverTransport(e.Recv)
			if f == nil {
				s.Report("transport", e, "a connection is accepted by something else than a transport of the server (%v)", e.Recv)
				return
			}
			name := c.transportName(types.NewPointer(f.Type()))
			if is, _ := s.queryIs("transport", name); name == "" || !is {
				s.Report("transport", e, "a connection is accepted by another transport than the request names")
			}
			if is, _ := s.queryIs("sid", ""); !is {
				if s.Get("found") == nil || !s.IsTrue(s.Get("ok")) {
					s.Report("session", e, "a connection is accepted though the session named is not known to exist")
				}
			}
			if s.Get("acc") != nil {
				s.Report("transport", e, "two connections are accepted for a request")
			}
			s.Set("acc", s.res(e, 0))
			s.Set("accerr", s.res(e, 1))
		case e.Kind == EvLoad && p.connFieldAddr(e.Addr):
			session(e.Addr.Args[0], "the transport is used")
		case e.Kind == EvStore && p.connFieldAddr(e.Addr) && e.Addr.Args[0] != s.Get("new"):
			session(e.Addr.Args[0], "the transport is replaced")
			c.site("sessions used", e)
		case p.connOp(e, "Pause", "Close", "ReadPacket", "WritePacket") && !e.Inlined && p.isSessionConn(e.Recv):
			_, so := fieldLoad(e.Recv)
			session(so, "the transport is used")
		case e.Kind == EvCall && !e.Inlined && e.Recv != nil && e.Name() == "ServeHTTP":
			c.site("requests served by a session's transport", e)
			r := e.Recv
			if f, so := fieldLoad(r); f != nil && p.isConnField(f) {
				session(so, "the request is passed on")
			} else if so := s.Get("found"); so != nil && r.has(so) || s.Get("new") != nil && r.has(s.Get("new")) {
				valid("the request is passed on")
			} else {
				s.Report("session", e, "a request is passed on to something else than a session's transport (%v)", r)
			}
		case e.Kind == EvMapUpdate && p.isSessionTable(e.Args[0]), e.Kind == EvMapDelete && p.isSessionTable(e.Args[0]):
			s.SetFlag("touched")
			valid("the session table is changed")
			if s.Get("new") == nil {
				s.Report("session", e, "a request changes the session table though it makes no session")
			}
		}
		if ch, v, ok := chanSend(e); ok && chanOf(ch, sockT) && v != s.Get("new") {
			s.Report("session", e, "another session than the one made is handed to the dispatcher")
		}
		if _, code, ok := s.httpStatus(e); ok {
			c.site("requests refused", e)
			s.Inc("answers")
			n, known := s.num(code)
			if !known || n < 400 {
				s.Report("refusal", e, "the server answers a request itself otherwise than with an error")
			}
			if n == 400 {
				if s.Flag("touched") {
					s.Report("refusal", e, "a request is refused after a transport or session was used")
				}
				_, v := s.queryIs("EIO", "3")
				_, ws := s.queryIs("transport", "websocket")
				_, po := s.queryIs("transport", "polling")
				ok := s.Get("ok")
				poll, _ := s.queryIs("transport", "polling")
				switch {
				case v, ws && po, ok != nil && s.IsFalse(ok), ok != nil && s.IsTrue(ok) && poll:
				default:
					s.Report("refusal", e, "a request is refused though nothing is known to be wrong with it")
				}
			} else if !s.Flag("touched") {
				s.Report("refusal", e, "a request that reaches nothing is answered with another status than 400")
			}
			if s.Int("answers") > 1 {
				s.Report("refusal", e, "a request is answered twice")
			}
		}
		if rootExit(e) {
			if !s.Flag("touched") && s.Int("answers") != 1 {
				s.Report("refusal", e, "a request that reaches nothing is not answered")
			}
			if is, _ := s.queryIs("sid", ""); is && s.Flag("touched") && s.Get("new") == nil && !s.NonNil(s.Get("accerr")) {
				s.Report("new-session", e, "a request without an id whose connection was accepted makes no session")
			}
		}
	}
	c.explore(cfg, []*ssa.Function{root}, nil)
	c.need("requests refused", 1)
	c.need("connections accepted", 2)
	c.need("sessions looked up", 1)
	c.need("sessions made", 1)
	c.need("sessions used", 1)
	c.need("requests served by a session's transport", 1)
}

// --- C09 ---------------------------------------------------------------------------

func isCheckFunc(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 1 && sig.Results().Len() == 1 && sig.Params().At(0).Type().String() == "*net/http.Request" &&
		types.Identical(sig.Results().At(0).Type(), types.Typ[types.Bool])
}

// checkField returns what the origin check kept in the struct at addr (of type t) is known to be.
func (s *State) checkField(addr *Val, t types.Type) (v *Val) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if isCheckFunc(f.Type()) {
			return s.fieldNow(addr, f)
		}
		if _, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() {
			var a *Val
			if addr.Op == "struct" {
				a = addr.Args[i]
			} else if x := s.fieldNow(addr, f); x != nil {
				a = x
			} else {
				a = s.fieldAddrOf(addr, f)
			}
			if x := s.checkField(a, f.Type()); x != nil {
				return x
			}
		}
	}
	return nil
}

func (c *Check) originRules() {
	p := c.P
	fn := p.function(p.Engine, "NewServer")
	var list *ssa.Parameter
	idx := -1
	if fn != nil {
		for i, q := range fn.Params {
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), p.engineType("OriginChecker")) {
				list, idx = q, i
			}
		}
	}
	ts := c.serverTransports()
	if list == nil || len(ts) < 2 {
		c.undecided("the origin checkers or the transports of a server not found")
		return
	}
	// the checks installed
	checks := map[*ssa.Function]bool{}
	srvT := p.engineType("Server")
	cfg := &Config{Name: "install", Depth: 12, Opaque: p.engineOpaque}
	cfg.OnEvent = func(s *State, e *Event) {
		if s.run.CurSpawn != nil {
			return
		}
		if e.Kind == EvAlloc && types.Identical(deref(e.Val.Typ), srvT) {
			s.Set("server", e.Val)
		}
		srv := s.Get("server")
		if srv == nil {
			return
		}
		for _, f := range ts {
			a := s.fieldAddrOf(srv, f)
			if x := s.fieldNow(srv, f); x != nil && x.Op == "struct" {
				a = x
			}
			if v := s.checkField(a, f.Type()); v != nil {
				s.Set("check:"+f.Name(), v)
			}
		}
		if rootExit(e) && len(e.Results) == 2 && !s.NonNil(e.Results[1]) {
			c.site("servers made", e)
			for _, f := range ts {
				v := s.Get("check:" + f.Name()).strip()
				if v == nil || v.Op != "closure" && v.Op != "fn" && v.Op != "bound" {
					s.Report("not-installed", e, "the origin check of %s is not known to be installed (%v)", f.Name(), v)
					continue
				}
				checks[v.Fn] = true
				c.site("checks installed", e)
			}
		}
	}
	c.explore(cfg, []*ssa.Function{fn}, nil)
	c.need("servers made", 1)

	// the check itself
	seq := func(s *State) *Val {
		return s.run.in.mk(Val{Op: "param", Leaf: paramLeaf(fn, idx), Typ: list.Type(), Idx: idx})
	}
	cur := cursor{"checkers"}
	cfg = &Config{Name: "check", Depth: 12, Opaque: p.engineOpaque}
	cfg.OnEvent = func(s *State, e *Event) {
		if !checks[s.rootFn()] {
			return
		}
		req := s.param(len(s.rootFn().Params) - 1)
		if !s.Flag("started") {
			s.SetFlag("started")
			cur.start(s, seq(s))
		}
		cur.edge(s, e)
		cleared := func() bool {
			last := s.Get("last")
			if last == nil || s.IsNil(last) {
				return true
			}
			res := s.Get("res")
			return res != nil && s.IsTrue(res)
		}
		switch {
		case e.Kind == EvLoad && types.Identical(e.Val.Typ, p.engineType("OriginChecker")) && e.Addr.Op == "index&" && cur.index(s, e.Addr) != nil:
			if s.Get("last") == e.Val {
				return
			}
			if !cleared() {
				s.Report("not-asked", e, "the check goes on to the next checker though the one before is not known to have approved")
			}
			if !cur.visit(s, e.Addr) {
				s.Report("not-asked", e, "the checkers are not visited one after the other")
			}
			s.Set("last", e.Val)
			s.Del("res")
		case e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("OriginChecker"), "CheckOrigin"):
			c.site("checkers asked", e)
			if e.Recv != s.Get("last") {
				s.Report("not-asked", e, "the checker asked is not the one visited")
			}
			if len(e.Args) != 1 || e.Args[0] != req {
				s.Report("not-asked", e, "a checker is asked about another request")
			}
			s.Set("res", s.res(e, 0))
		case rootExit(e):
			r := e.Results[0]
			c.site("results of the check", e)
			if !s.IsFalse(r) {
				if !(cleared() || r == s.Get("res")) || !cur.done(s) {
					s.Report("not-asked", e, "the check may approve a request though not every checker is known to have approved it")
				}
			}
			if !s.IsTrue(r) {
				if res := s.Get("res"); res == nil || r != res && !s.IsFalse(res) {
					s.Report("refused", e, "the check may refuse a request though no checker refused it")
				}
			}
		}
	}
	c.explore(cfg, []*ssa.Function{fn}, nil)
	c.need("checkers asked", 1)
	c.need("results of the check", 1)

	// Accept
	var accepts []*ssa.Function
	for _, f := range ts {
		if m := p.method(types.NewPointer(f.Type()), "Accept"); m != nil {
			accepts = append(accepts, m)
		} else {
			c.undecided("no Accept method found for %s", f.Name())
		}
	}
	c.acceptRules(accepts)

	// sessions are made from accepted connections only
	cfg = &Config{Name: "use", Depth: 12, Opaque: p.engineOpaque}
	cfg.OnEvent = func(s *State, e *Event) {
		if s.run.CurSpawn != nil {
			return
		}
		switch {
		case e.Kind == EvCall && !e.Inlined && p.methodOn(e, p.engineType("Acceptor"), "Accept"):
			if c.serverTransport(e.Recv) == nil {
				s.Report("unchecked", e, "a connection is accepted by something else than a transport of the server")
			}
			s.Set("conn", s.res(e, 0))
			s.Set("err", s.res(e, 1))
			c.site("connections accepted", e)
		case e.Kind == EvStore && p.connFieldAddr(e.Addr):
			c.site("connections given to sessions", e)
			if e.Val != s.Get("conn") || !s.IsNil(s.Get("err")) {
				s.Report("unchecked", e, "a session is given a connection that is not known to have been accepted")
			}
		}
	}
	if root := c.handlerRoot("Server"); root != nil {
		c.explore(cfg, []*ssa.Function{root}, nil)
	} else {
		c.undecided("the server's ServeHTTP not found")
	}
	c.need("connections accepted", 2)
	c.need("connections given to sessions", 2)
}

// allowsAll reports whether every path of function value v returns true.
func (c *Check) allowsAll(v *Val) bool {
	v = v.strip()
	if v == nil || v.Fn == nil || v.Fn.Blocks == nil {
		return false
	}
	n, ok := 0, true
	c.probe(&Config{Name: "allow", OnEvent: func(s *State, e *Event) {
		if rootExit(e) {
			n++
			ok = ok && len(e.Results) == 1 && s.IsTrue(e.Results[0])
		}
	}}, v.Fn)
	return ok && n > 0
}

// acceptRules checks the Accept methods of the server's transports.
func (c *Check) acceptRules(accepts []*ssa.Function) {
	p := c.P
	cfg := &Config{Name: "accept", Depth: 14}
	cfg.OnEvent = func(s *State, e *Event) {
		if s.run.CurSpawn != nil {
			return
		}
		np := len(s.rootFn().Params)
		self, req := s.param(0), s.param(np-1)
		own := func(v *Val) bool {
			f, _ := fieldLoad(v)
			return f != nil && isCheckFunc(f.Type()) && v.has(self)
		}
		switch {
		case e.Kind == EvLoad && own(e.Val):
			s.Set("check", e.Val)
		case e.Kind == EvAssume && s.Get("check") == nil:
		case e.Kind == EvCall && e.FnVal != nil && !e.Inlined && own(e.FnVal):
			c.site("checks called", e)
			if len(e.Args) != 1 || e.Args[0] != req {
				s.Report("unchecked", e, "the origin check is called for another request")
			}
			s.Set("check", e.FnVal)
			s.Set("res", s.res(e, 0))
		case e.Kind == EvCall && !e.Inlined && pkgCall(e, "github.com/gorilla/websocket", "Upgrade") && e.Recv != nil:
			c.site("upgrades", e)
			if len(e.Args) < 2 || e.Args[1] != req {
				s.Report("unchecked", e, "another request is upgraded")
			}
			v := s.checkField(e.Recv, deref(e.Recv.Typ))
			switch {
			case v != nil && own(v) && s.NonNil(v):
			case v != nil && !own(v) && c.allowsAll(v) && s.Get("check") != nil && s.IsNil(s.Get("check")):
			default:
				s.Report("unchecked", e, "the connection is upgraded with another origin check than the transport's, or with one that may be missing (%v)", v)
			}
			s.SetFlag("upgraded")
			s.Set("ws", s.res(e, 0))
			s.Set("wserr", s.res(e, 1))
		}
		if _, code, ok := s.httpStatus(e); ok {
			s.Inc("answers")
			c.site("refusals", e)
			if n, k := s.num(code); !k || n != 403 {
				s.Report("refusal", e, "a refused request is not answered with 403")
			}
			if r := s.Get("res"); r == nil || !s.IsFalse(r) {
				s.Report("refusal", e, "a request is refused though the origin check is not known to have failed")
			}
		}
		if !rootExit(e) || len(e.Results) != 2 {
			return
		}
		conn, err := e.Results[0], e.Results[1]
		c.site("results of Accept", e)
		if s.Flag("upgraded") {
			if !s.IsNil(conn) && !s.IsNil(s.Get("wserr")) {
				s.Report("unchecked", e, "a connection is returned though the upgrade may have failed")
			}
			if !s.NonNil(err) && (!s.NonNil(conn) || !s.IsNil(s.Get("wserr"))) {
				s.Report("unchecked", e, "success is returned though the upgrade may have failed")
			}
			if s.NonNil(err) && s.IsNil(s.Get("wserr")) {
				s.Report("refused", e, "a request is refused though the upgrade succeeded")
			}
			return
		}
		chk, res := s.Get("check"), s.Get("res")
		passed := chk != nil && s.IsNil(chk) || res != nil && s.IsTrue(res)
		if !s.IsNil(conn) && !passed {
			s.Report("unchecked", e, "a connection is returned though the origin check is not known to have passed")
		}
		switch {
		case s.NonNil(err):
			if !s.IsNil(conn) {
				s.Report("refusal", e, "a connection is returned with an error")
			}
			if res != nil && s.IsFalse(res) {
				if s.Int("answers") != 1 {
					s.Report("refusal", e, "a refused request is not answered once")
				}
			} else {
				s.Report("refused", e, "a request is refused though its origin is not")
			}
		case !s.NonNil(conn):
			s.Report("refusal", e, "neither a connection nor an error is returned")
		}
	}
	c.explore(cfg, accepts, nil)
	c.need("checks called", 1)
	c.need("upgrades", 1)
	c.need("refusals", 1)
	c.need("results of Accept", 3)
	_ = p
}
