package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// changed returns the operation by which the name v was changed on its way from where it was read, passed or stored; nil
// if there is none. Taking a part of a message, converting and unquoting are no changes.
func changed(v *Val) *Val {
	for i := 0; v != nil && i < 40; i++ {
		v = v.strip()
		switch v.Op {
		case "slice":
			if b := v.Args[0]; isStringVal(b) && b.Op != "conv" && !(b.Op == "call" && len(b.Args) > 0 && !isStringVal(b.Args[0])) {
				return v // a part of a name that was complete
			}
			return nil
		case "conv", "iface", "index", "assert", "ext", "res", "field":
			if len(v.Args) == 0 {
				return nil
			}
			v = v.Args[0]
		case "bin":
			if token.Token(v.Idx) == token.ADD && isStringVal(v) {
				return v
			}
			return nil
		case "call":
			if v.Meth == nil || v.Meth.Pkg() == nil {
				return nil
			}
			n := v.Meth.Name()
			switch v.Meth.Pkg().Path() {
			case "strings", "bytes":
				switch {
				case strings.HasPrefix(n, "Trim"):
					if n == "TrimSpace" || n == "TrimFunc" || len(v.Args) < 2 {
						return v
					}
					if c, ok := v.Args[1].str(); ok && strings.Contains(c, `"`) {
						return nil // unquotes
					}
					return v
				case strings.HasPrefix(n, "To"), strings.HasPrefix(n, "Replace"), n == "Title", n == "Map", n == "Repeat", n == "Join":
					return v
				}
			case "path", "path/filepath", "html":
				return v
			case "net/url":
				if strings.HasSuffix(n, "escape") || n == "String" || n == "JoinPath" {
					return v
				}
			case "fmt":
				if strings.HasPrefix(n, "Sprint") {
					return v
				}
			case "regexp":
				if strings.HasPrefix(n, "Replace") {
					return v
				}
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// nameRules: event and namespace names reach the tables and the wire as they were given.
func (c *Check) nameRules(x *sio) {
	p := c.P
	// received
	var roots []*ssa.Function
	for _, n := range []string{"ParseData", "Add"} {
		roots = append(roots, p.impls(p.rootType("Decoder"), n)...)
	}
	c.explore(&Config{Name: "received names", Depth: 40, Opaque: p.rootOpaque, Keep: x.keep, OnEvent: func(s *State, e *Event) {
		if e.Kind == EvStore && e.Addr.Op == "field&" && e.Addr.Field == x.fNsp {
			c.site("namespaces decoded", e)
			if w := changed(e.Val); w != nil {
				s.Report("name", e, "the namespace of a packet received is changed by %s", w)
			}
		}
		if rootExit(e) && s.rootFn().Name() == "ParseData" && len(e.Results) > 0 {
			c.site("event names returned", e)
			if w := changed(e.Results[0]); w != nil {
				s.Report("name", e, "the event name of a packet received is changed by %s", w)
			}
		}
	}}, roots, nil)

	// what the methods named Namespace say
	names := map[string][]*Val{}
	var nms []*ssa.Function
	for _, t := range p.namedTypes() {
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			if implements(tt, p.rootType("Socket")) {
				if m := p.method(t, "Namespace"); m != nil {
					nms = append(nms, m)
				}
				break
			}
		}
	}
	c.explore(&Config{Name: "names of sockets", OnEvent: func(s *State, e *Event) {
		if rootExit(e) && len(e.Results) == 1 {
			k := deref(s.rootFn().Signature.Recv().Type()).String()
			names[k] = append(names[k], e.Results[0])
		}
	}}, nms, nil)

	// registered, looked up and sent
	x.c.explore(&Config{Name: "names", Depth: 40, Opaque: p.rootOpaque, Keep: x.keep, OnEvent: func(s *State, e *Event) {
		x.track(s, e)
		fn := s.rootFn()
		if e.Kind == EvLookup || e.Kind == EvMapUpdate || e.Kind == EvMapDelete {
			m, k := e.Args[0], e.Args[1]
			if m.Typ != nil && isStringVal(k) && (mapTo(m.Typ, x.nspT) || mapTo(m.Typ, x.cbT) || mapTo(m.Typ, x.ackT)) {
				c.site("keys of tables", e)
				if w := changed(k); w != nil {
					s.Report("name", e, "the name that is looked up or stored is changed by %s", w)
				}
			}
		}
		if e.Kind == EvStore && e.Addr.Op == "index&" && e.Val.Op == "iface" && isStringVal(e.Val.Args[0]) && fn.Name() == "Emit" {
			if w := changed(e.Val); w != nil {
				s.Report("name", e, "the name of an event to be sent is changed by %s", w)
			}
		}
		if q, ok := x.sent(e); ok && fn.Signature.Recv() != nil {
			ns := x.field(s, q, x.fNsp)
			c.site("names sent", e)
			rt := fn.Signature.Recv().Type()
			switch {
			case ns == nil:
				s.Report("name", e, "a packet is sent whose namespace is not known")
			case changed(ns) != nil:
				s.Report("name", e, "the namespace of a packet to be sent is changed by %s", changed(ns))
			case implements(rt, p.rootType("Socket")):
				for _, n := range names[deref(rt).String()] {
					if !s.sameName(ns, n) {
						s.Report("name", e, "a packet is sent in namespace %s, while the socket's is %s", ns, n)
					}
				}
			case fn.Name() == "Emit":
				if ns.Op != "param" || ns.Idx != 1 {
					s.Report("name", e, "a packet is sent in namespace %s, not the one given", ns)
				}
			}
		}
	}}, x.entries(), nil)
	c.need("namespaces decoded", 2)
	c.need("event names returned", 2)
	c.need("keys of tables", 4)
	c.need("names sent", 1)
}

// sameName reports whether a is what b, of another exploration, is: the same constant, or the same field of the receiver.
func (s *State) sameName(a, b *Val) bool {
	if x, ok := s.strOf(a); ok {
		y, ok := b.str()
		return ok && x == y
	}
	f, p := fieldLoad(a)
	g, q := fieldLoad(b)
	return f != nil && f == g && p.Op == "param" && q.Op == "param" && p.Idx == q.Idx
}
