package main

import (
	"encoding/json"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "The constants, struct tags and patterns of both protocols have the values the protocols prescribe; every path of every encoder writes, piece by piece, the sequence the format "+
		"prescribes for the packet's type and kind; every path of every decoder takes type, kind and fields from where the format puts them; events become the packet types that stand for them.",
		func(c *Check) {
			c.constants()
			c.tags()
			c.patterns()
			c.emitTable()
			c.dialTable()
			c.payloadTable()
			c.websocketTable()
			c.textTable()
			c.msgpackTable()
		})
}

// --- constants --------------------------------------------------------------

func (c *Check) constants() {
	numbers := func(pkg *types.Package, typ string, want map[string]int64) {
		for _, n := range sortedKeys(want) {
			o, _ := pkg.Scope().Lookup(n).(*types.Const)
			if o == nil {
				c.undecided("constant %s.%s not found", pkg.Name(), n)
				continue
			}
			if typ != "" && !isNamed(o.Type(), pkg.Path(), typ) && !isNamed(o.Type(), c.P.Engine.Path(), typ) {
				c.fail("constant", c.P.pos(o.Pos()), "%s.%s is of type %s", pkg.Name(), n, o.Type())
			}
			if v, ok := constant.Int64Val(constant.ToInt(o.Val())); !ok || v != want[n] {
				c.fail("constant", c.P.pos(o.Pos()), "%s.%s is %s, the protocol says %d", pkg.Name(), n, o.Val(), want[n])
			}
			c.siteAt("constants", c.P.pos(o.Pos()), "")
		}
	}
	numbers(c.P.Engine, "PacketType", map[string]int64{"PacketTypeOpen": 0, "PacketTypeClose": 1, "PacketTypePing": 2, "PacketTypePong": 3, "PacketTypeMessage": 4, "PacketTypeUpgrade": 5, "PacketTypeNoop": 6})
	numbers(c.P.Engine, "MessageType", map[string]int64{"MessageTypeString": 0, "MessageTypeBinary": 1})
	numbers(c.P.Root, "PacketType", map[string]int64{"PacketTypeConnect": 0, "PacketTypeDisconnect": 1, "PacketTypeEvent": 2, "PacketTypeAck": 3, "PacketTypeError": 4, "PacketTypeBinaryEvent": 5, "PacketTypeBinaryAck": 6})
	numbers(c.P.Root, "MessageType", map[string]int64{"MessageTypeString": 0, "MessageTypeBinary": 1})
	texts := func(pkg *types.Package, want map[string]string) {
		for _, n := range sortedKeys(want) {
			o, _ := pkg.Scope().Lookup(n).(*types.Const)
			if o == nil {
				c.undecided("constant %s.%s not found", pkg.Name(), n)
				continue
			}
			if o.Val().Kind() != constant.String || constant.StringVal(o.Val()) != want[n] {
				c.fail("constant", c.P.pos(o.Pos()), "%s.%s is %s, the protocol says %q", pkg.Name(), n, o.Val(), want[n])
			}
			c.siteAt("constants", c.P.pos(o.Pos()), "")
		}
	}
	texts(c.P.Engine, map[string]string{"Version": "3"})
	texts(c.P.Root, map[string]string{"Revision": "4"})
	c.need("constants", 10)
}

// --- struct tags ------------------------------------------------------------

func (c *Check) tags() {
	check := func(t types.Type, key string, want map[string]string) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			c.undecided("%s is no struct", t)
			return
		}
		got := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			w, ok := want[f.Name()]
			if !ok {
				if f.Exported() {
					if n := reflect.StructTag(st.Tag(i)).Get(key); n != "-" {
						c.fail("tag", c.P.pos(f.Pos()), "field %s of %s is not in the protocol", f.Name(), t)
					}
				}
				continue
			}
			got[f.Name()] = true
			n := strings.Split(reflect.StructTag(st.Tag(i)).Get(key), ",")
			if n[0] != w {
				c.fail("tag", c.P.pos(f.Pos()), "field %s of %s is called %q on the wire, the protocol says %q", f.Name(), t, n[0], w)
			}
			for _, o := range n[1:] {
				if o == "string" || o == "omitempty" && w != "id" && w != "data" {
					c.fail("tag", c.P.pos(f.Pos()), "field %s of %s is encoded with option %s", f.Name(), t, o)
				}
			}
			c.siteAt("fields named", c.P.pos(f.Pos()), "")
		}
		for _, n := range sortedKeys(want) {
			if !got[n] {
				c.undecided("%s has no field %s", t, n)
			}
		}
	}
	check(c.P.engineType("Parameters"), "json", map[string]string{"SID": "sid", "Upgrades": "upgrades", "PingInterval": "pingInterval", "PingTimeout": "pingTimeout"})
	check(c.P.rootType("Packet"), "json", map[string]string{"Type": "type", "Namespace": "nsp", "Data": "data", "ID": "id"})
	c.need("fields named", 8)
}

// --- patterns ---------------------------------------------------------------

// patterns evaluates the regular expressions that decoders use, which are constants, on what encoders write.
func (c *Check) patterns() {
	x := c.newSio()
	if x == nil {
		return
	}
	samples := c.placeholderTexts(x)
	cfg := &Config{Name: "patterns", Depth: 40, Keep: x.keep}
	var comma *Violation // a comma is left where the first element was taken
	removed := false
	cfg.OnEvent = func(s *State, e *Event) {
		c.eventNames(x, s, e)
		if e.Kind == EvStore && e.Addr.Op == "field&" && e.Addr.Field == x.fData && !removed {
			r := e.Val.strip().find(func(v *Val) bool {
				return isCallOf(v, "regexp", "ReplaceAll", "ReplaceAllLiteral", "ReplaceAllString", "ReplaceAllLiteralString")
			})
			if v := e.Val.strip(); r != nil && isCallOf(v, "bytes", "Replace", "ReplaceAll") || isCallOf(v, "strings", "Replace", "ReplaceAll") {
				old, k1 := textOf(s, v.Args[1])
				repl, k2 := textOf(s, v.Args[2])
				n := int64(-1)
				if len(v.Args) > 3 {
					n, _ = s.num(v.Args[3])
				}
				if k1 && k2 && (old != "[," || repl != "[" || n != 1) {
					s.Report("placeholder", e, "where the first element was taken, %d times %q is replaced by %q", n, old, repl)
				}
			}
			removed = r != nil && e.Val.strip().find(func(v *Val) bool {
				return v != r && (v.Op == "slice" || v.Op == "append" || v.Op == "call" && v.Meth != nil && v.Meth.Pkg() != nil && (v.Meth.Pkg().Path() == "bytes" || v.Meth.Pkg().Path() == "strings")) && v.find(func(w *Val) bool { return w == r }) != nil
			}) != nil
		}
		if e.Kind != EvCall || e.Meth == nil || e.Meth.Pkg() == nil || e.Meth.Pkg().Path() != "regexp" || e.Recv == nil {
			return
		}
		re := c.P.regexpOf(e.Recv)
		if re == nil {
			return
		}
		name := e.Name()
		if strings.HasPrefix(name, "ReplaceAll") && strings.Contains(re.String(), "placeholder") {
			name = "ReplaceAllLiteral"
		}
		switch name {
		case "FindAllSubmatch", "FindAll", "FindAllIndex", "FindAllSubmatchIndex", "ReplaceAllLiteral", "ReplaceAllLiteralString":
			if !strings.Contains(re.String(), "placeholder") {
				return
			}
			c.site("patterns evaluated", e)
			for _, t := range samples {
				for _, v := range []string{"," + t, " , " + t} {
					if re.FindString(v) != v {
						s.Report("placeholder", e, "placeholder %s, as encoded, is not found by %s", t, re)
						return
					}
				}
				for _, l := range []string{`["a",` + t + `,` + t + `]`, `[` + t + `,` + t + `]`, `[ ` + t + ` ,1, ` + t + `]`} {
					if n := len(re.FindAllString(l, -1)); n != 2 {
						s.Report("placeholder", e, "of 2 placeholders of %s %d are found by %s", l, n, re)
						return
					}
				}
				// a placeholder in a list leaves the rest
				if repl, ok := c.replacement(s, e); ok {
					for l, want := range map[string]string{`["a",` + t + `,1]`: `["a",1]`, `["a",` + t + `]`: `["a"]`, `[` + t + `]`: `[]`, `[1,` + t + `]`: `[1]`} {
						if got := repl(re, l); got != want {
							s.Report("placeholder", e, "taking placeholders from %s leaves %s", l, got)
							return
						}
					}
					l := `[` + t + `,1]`
					switch got := repl(re, l); got {
					case `[1]`:
					case `[,1]`:
						if comma == nil {
							vio := s.run.Vio
							s.run.Vio = newViolations()
							s.Report("placeholder", e, "taking placeholders from %s leaves %s", l, got)
							comma = s.run.Vio.m[s.run.Vio.order[0]]
							s.run.Vio = vio
						}
					default:
						s.Report("placeholder", e, "taking placeholders from %s leaves %s", l, got)
						return
					}
				}
			}
			for _, v := range []string{`["a",1]`, `["a",{"num":0}]`, `["a",{"_placeholder":false,"num":0}]`} {
				if re.MatchString(v) {
					s.Report("placeholder", e, "%s is taken for one with a placeholder", v)
				}
			}
		case "FindSubmatch", "FindStringSubmatch", "ReplaceAll", "ReplaceAllString", "FindSubmatchIndex":
			if strings.Contains(re.String(), "placeholder") {
				return
			}
			c.site("patterns evaluated", e)
			for _, name := range []string{"a", "an event", "é", "1", "x-y.z/", "a<b", `say "hi"`, `back\slash`, `\`, `"`, "a\nb"} {
				for _, rest := range []string{`]`, `,1]`, `,"b",{}]`} {
					q, _ := json.Marshal(name)
					l := `[` + string(q) + rest
					m := re.FindStringSubmatch(l)
					if len(m) < 2 || m[1] != string(q) && m[1] != string(q[1:len(q)-1]) {
						s.Report("event", e, "the name of event %s is not found by %s", l, re)
						return
					}
					if strings.HasPrefix(e.Name(), "ReplaceAll") && len(e.Args) == 2 {
						r, ok := s.strOf(e.Args[1])
						if es := s.elems(e.Args[1]); !ok && es != nil {
							ok = true
							for _, b := range es {
								n, k := s.num(b)
								r, ok = r+string([]byte{byte(n)}), ok && k
							}
						}
						want := "[" + strings.TrimPrefix(rest, ",")
						if got := re.ReplaceAllString(l, r); ok && got != want {
							s.Report("event", e, "the arguments of %s become %s", l, got)
							return
						}
					}
				}
			}
			for _, l := range []string{`[1]`, `[]`, `{"a":1}`, `"a"`, `[["a"]]`} {
				if re.MatchString(l) {
					s.Report("event", e, "%s is taken for an event", l)
				}
			}
		}
	}
	var roots []*ssa.Function
	for _, d := range x.decoders() {
		for _, n := range []string{"Add", "ParseData"} {
			if m := c.P.method(d.t, n); m != nil && d.pending != nil {
				roots = append(roots, m)
			}
		}
	}
	c.explore(cfg, roots, nil)
	if comma != nil && !removed {
		c.Vio.add(comma, "placeholder@comma")
	}
	c.need("names of events taken", 1)
}

// replacement returns what a call of ReplaceAll or the like makes of a text, if the replacement is constant.
func (c *Check) replacement(s *State, e *Event) (func(re *regexp.Regexp, l string) string, bool) {
	if !strings.HasPrefix(e.Name(), "ReplaceAll") || len(e.Args) != 2 {
		return nil, false
	}
	r, ok := textOf(s, e.Args[1])
	literal := strings.Contains(e.Name(), "Literal")
	return func(re *regexp.Regexp, l string) string {
		if literal {
			return re.ReplaceAllLiteralString(l, r)
		}
		return re.ReplaceAllString(l, r)
	}, ok
}

// textOf is the text that v, a string or a slice of bytes, is known to be.
func textOf(s *State, v *Val) (r string, ok bool) {
	if s.IsNil(v) {
		return "", true
	}
	if r, ok = s.strOf(v); ok {
		return
	}
	if r, ok = s.strOf(v.strip()); ok {
		return
	}
	es := s.elems(v)
	ok = es != nil
	for _, b := range es {
		n, k := s.num(b)
		r, ok = r+string([]byte{byte(n)}), ok && k
	}
	return
}

// eventNames checks that the name of an event found in a text is decoded as JSON.
func (c *Check) eventNames(x *sio, s *State, e *Event) {
	submatch := func(v *Val) bool {
		return isCallOf(v, "regexp", "FindSubmatch", "FindStringSubmatch", "FindSubmatchIndex", "FindStringSubmatchIndex")
	}
	if e.Kind == EvCall && pkgCall(e, "encoding/json") && e.Name() == "Unmarshal" && len(e.Args) > 0 && e.Args[0].find(submatch) != nil {
		s.SetFlag("unquoted")
	}
	if rootExit(e) && s.rootFn().Name() == "ParseData" && len(e.Results) == 4 && s.IsNil(e.Results[3]) && e.Results[0].Op != "const" {
		c.site("names of events taken", e)
		if !s.Flag("unquoted") {
			s.Report("event", e, "the name of an event is not decoded as the JSON string it is")
		} else if e.Results[0].find(submatch) != nil {
			s.Report("event", e, "the name of an event is taken as it is encoded, %s", e.Results[0])
		}
	}
}

// placeholderTexts lists what placeholders number 0, 7, 10 and 123 are encoded as.
func (c *Check) placeholderTexts(x *sio) (out []string) {
	for _, t := range c.P.namedTypes() {
		if t.Obj().Pkg() != c.P.Root {
			continue
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok || st.NumFields() == 0 {
			continue
		}
		m := c.P.declared(t, "MarshalJSON")
		if m == nil {
			// encoded by its tags
			names := []string{}
			for i := 0; i < st.NumFields(); i++ {
				names = append(names, strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0])
			}
			if strings.Join(names, ",") == "_placeholder,num" {
				for _, n := range []string{"0", "7", "10", "123"} {
					out = append(out, `{"_placeholder":true,"num":`+n+`}`)
				}
			}
			continue
		}
		c.probe(&Config{Name: "placeholder", Depth: 40, OnEvent: func(s *State, e *Event) {
			s.trackContent(e)
			if !rootExit(e) || len(e.Results) != 2 || !s.IsNil(e.Results[1]) {
				return
			}
			text := ""
			for _, p := range s.resolve(e.Results[0]).Args {
				if l, ok := p.str(); ok {
					text += l
				} else {
					text += "%"
				}
			}
			if strings.Count(text, "%") == 1 && strings.Contains(text, "placeholder") && len(out) == 0 {
				for _, n := range []string{"0", "7", "10", "123"} {
					out = append(out, strings.Replace(text, "%", n, 1))
				}
			}
		}}, m)
	}
	for _, t := range out {
		if !regexp.MustCompile(`^\{"_placeholder":true,"num":\d+\}$`).MatchString(t) {
			c.fail("placeholder", "", "a placeholder is encoded as %s", t)
		}
	}
	if len(out) == 0 {
		c.undecided("what placeholders are encoded as was not found")
	}
	return
}

// --- events -----------------------------------------------------------------

// mapLiteral returns what the literal map a package variable is initialised with holds, if nothing else writes to it.
func (p *Prog) mapLiteral(v *Val) map[string]int64 {
	v = v.strip()
	if v == nil || v.Op != "gval" || v.Glob == nil || v.Glob.Pkg == nil {
		return nil
	}
	init := v.Glob.Pkg.Func("init")
	var made ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == v.Glob {
				made = st.Val
			}
		}
	}
	mk, ok := made.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	out := map[string]int64{}
	for _, ref := range *mk.Referrers() {
		switch ref := ref.(type) {
		case *ssa.MapUpdate:
			k, ok1 := ref.Key.(*ssa.Const)
			n, ok2 := ref.Value.(*ssa.Const)
			if !ok1 || !ok2 || k.Value == nil || n.Value == nil || k.Value.Kind() != constant.String {
				return nil
			}
			out[constant.StringVal(k.Value)] = n.Int64()
		case *ssa.Store:
		default:
			return nil
		}
	}
	return out
}

// emitTable checks which packets the events users emit become.
func (c *Check) emitTable() {
	p := c.P
	want := map[string]int64{"open": 0, "close": 1, "ping": 2, "pong": 3, "message": 4}
	var roots []*ssa.Function
	for _, t := range p.namedTypes() {
		if m := p.declared(t, "Emit"); m != nil && t.Obj().Pkg() == p.Engine && len(m.Params) == 4 {
			roots = append(roots, m)
		}
	}
	got := map[string]bool{}
	cfg := &Config{Name: "emit", Depth: 40}
	cfg.Opaque = func(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
		if fn == nil || fn.Pkg == nil || fn.Pkg.Pkg != p.Engine {
			return false
		}
		for _, pr := range fn.Params[:] {
			if types.Identical(pr.Type(), types.NewPointer(p.engineType("Packet"))) {
				return fn.Signature.Recv() != nil && !types.Identical(deref(fn.Signature.Recv().Type()), p.engineType("Packet"))
			}
		}
		return false
	}
	cfg.OnEvent = func(s *State, e *Event) {
		if !s.Flag("started") {
			s.SetFlag("started")
			for pr, v := range s.Stack[0].Env {
				if _, ok := pr.(*ssa.Parameter); !ok {
					continue
				}
				if b, ok := pr.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					s.Set("ev", v)
				}
				if types.Identical(pr.Type(), p.engineType("MessageType")) {
					s.Set("kind", v)
				}
			}
		}
		if e.Kind != EvCall || e.Inlined {
			return
		}
		for _, a := range e.Args {
			if a == nil || a.Typ == nil || !types.Identical(a.Typ, types.NewPointer(p.engineType("Packet"))) {
				continue
			}
			c.site("packets submitted", e)
			ev, kind := s.Get("ev"), s.Get("kind")
			t := s.fieldNow(a, p.pktType())
			if t == nil {
				s.Report("event", e, "a packet is submitted whose type is not known")
				return
			}
			if k := s.fieldNow(a, p.pktKind()); kind != nil && k != kind {
				s.Report("kind", e, "a message is submitted as %s, not of the kind it was emitted as", k)
			}
			if tt := t.strip(); tt.Op == "ext" || tt.Op == "lookup" {
				l := tt
				if l.Op == "ext" {
					l = l.Args[0]
				}
				if m := p.mapLiteral(l.Args[0]); l.Op == "lookup" && m != nil {
					for _, n := range sortedKeys(m) {
						if w, ok := want[n]; !ok || w != m[n] {
							s.Report("event", e, "event %s becomes packet type %d", n, m[n])
						}
						got[n] = true
					}
					return
				}
			}
			name, known := "", false
			for _, n := range sortedKeys(want) {
				if ev == nil {
					break
				}
				if eq, k := s.Eq(ev, s.run.constVal(constant.MakeString(n), ev.Typ)); k && eq {
					name, known = n, true
				}
			}
			if !known {
				s.Report("event", e, "a packet is submitted for an event that has no packet type")
				return
			}
			if n, ok := s.num(t); !ok || n != want[name] {
				s.Report("event", e, "event %s becomes packet type %s", name, t)
			}
			got[name] = true
		}
	}
	c.explore(cfg, roots, nil)
	for _, n := range sortedKeys(want) {
		if !got[n] {
			c.fail("event", "", "event %s does not become a packet", n)
		}
	}
}

// dialTable checks what clients put in the query of a request.
func (c *Check) dialTable() {
	p := c.P
	var roots []*ssa.Function
	for _, t := range p.namedTypes() {
		if m := p.declared(t, "Dial"); m != nil && t.Obj().Pkg() == p.Engine {
			if n := c.transportName(t); n == "websocket" {
				roots = append(roots, m)
			}
		}
	}
	cfg := &Config{Name: "dial", Depth: 40}
	want := map[string]string{"EIO": "3", "transport": "websocket"}
	cfg.OnEvent = func(s *State, e *Event) {
		if e.Kind == EvCall && pkgCall(e, "net/url", "Set", "Add") && len(e.Args) == 2 {
			k, ok1 := s.strOf(e.Args[0])
			v, ok2 := s.strOf(e.Args[1])
			if w, ok := want[k]; ok1 && ok {
				c.site("query parameters set", e)
				if !ok2 || v != w {
					s.Report("query", e, "parameter %s is set to %s", k, e.Args[1])
				}
				s.SetFlag("q." + k)
			}
		}
		if e.Kind == EvCall && !e.Inlined && (e.Name() == "Dial" || e.Name() == "DialContext") && e.Meth != nil && e.Meth.Pkg() != nil && strings.Contains(e.Meth.Pkg().Path(), "websocket") {
			for _, k := range sortedKeys(want) {
				if !s.Flag("q." + k) {
					s.Report("query", e, "a server is dialled without parameter %s", k)
				}
			}
			c.site("servers dialled", e)
		}
	}
	c.explore(cfg, roots, nil)
	c.need("servers dialled", 1)
}

// --- spelling ---------------------------------------------------------------

// spell returns the pieces, bytes and values, that a byte slice, string or byte is made of.
func (s *State) spell(v *Val) (out []*Val) {
	if es := s.elems(v); es != nil && isBytesVal(v) {
		for _, b := range es {
			out = append(out, s.byteOf(b))
		}
		return
	}
	if v != nil && v.Typ != nil {
		if b, ok := v.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return []*Val{s.byteOf(v)}
		}
	}
	for _, p := range s.resolve(v).Args {
		l, ok := p.str()
		if !ok {
			if isBytesVal(p) && p.Op == "slice" && s.elems(p) != nil {
				out = append(out, s.spell(p)...)
				continue
			}
			out = append(out, p)
			continue
		}
		for i := 0; i < len(l); i++ {
			out = append(out, s.run.strVal(l[i:i+1]))
		}
	}
	return
}

func isBytesVal(v *Val) bool {
	return v != nil && v.Typ != nil && types.Identical(v.Typ.Underlying(), bytesType)
}

// byteOf returns a byte as a piece.
func (s *State) byteOf(v *Val) *Val {
	if v == nil {
		return s.run.in.mk(Val{Op: "unknown"})
	}
	if n, ok := s.num(v); ok && n >= 0 && n < 256 {
		return s.run.strVal(string([]byte{byte(n)}))
	}
	for _, p := range s.SetVals("sums") {
		if p.Args[0] == v {
			return p.Args[1]
		}
	}
	return v
}

// trackSpelling follows what slices, strings and buffers are made of.
func (s *State) trackSpelling(e *Event) {
	remember := func(v *Val, ps ...*Val) {
		if v = v.strip(); v == nil {
			return
		}
		for _, p := range s.SetVals("strings") {
			if p.Args[0] == v {
				s.SetDel("strings", p)
			}
		}
		s.SetAdd("strings", s.pair(v, s.content(ps...)))
	}
	switch {
	case e.Kind == EvStore && e.Sum != nil && e.Val != nil:
		for _, p := range s.SetVals("sums") {
			if p.Args[0] == e.Val {
				s.SetDel("sums", p)
			}
		}
		s.SetAdd("sums", s.pair(e.Val, e.Sum))
	case isAppend(e) && e.Res != nil && types.Identical(e.Res.Typ.Underlying(), bytesType):
		base, elems, spread := s.appended(e)
		ps := s.start(base)
		for _, b := range elems {
			b = s.byteOf(b)
			if n := len(ps); n > 0 && isIntVal(b) && (ps[n-1].Op == "digits" || isIntVal(ps[n-1])) {
				ps[n-1] = s.run.in.mk(Val{Op: "digits"}) // two in a row
				continue
			}
			ps = append(ps, b)
		}
		if spread != nil {
			ps = append(ps, s.spell(spread)...)
		}
		if len(ps) > 12 {
			ps = []*Val{s.run.in.mk(Val{Op: "unknown"})}
		}
		remember(e.Res, ps...)
	case e.Kind == EvCall && pkgCall(e, "strconv", "AppendInt", "AppendUint") && len(e.Args) >= 2 && e.Res != nil:
		remember(e.Res, append(s.start(e.Args[0]), s.decimalOf(e.Args[1]))...)
	case e.Kind == EvCall && pkgCall(e, "strconv", "FormatInt", "FormatUint", "Itoa") && e.Res != nil:
		if len(e.Args) == 2 {
			if n, ok := s.num(e.Args[1]); !ok || n != 10 {
				return
			}
		}
		remember(e.Res, s.decimalOf(e.Args[0]))
	case e.Kind == EvCall && pkgCall(e, "encoding/base64", "Encode") && len(e.Args) == 2:
		remember(e.Args[0], s.run.in.mk(Val{Op: "b64", Args: []*Val{e.Args[1], e.Recv}}))
	case e.Kind == EvCall && pkgCall(e, "encoding/base64", "EncodeToString") && e.Res != nil:
		remember(e.Res, s.run.in.mk(Val{Op: "b64", Args: []*Val{e.Args[0], e.Recv}}))
	default:
		s.trackContent(e)
	}
}

// start returns the pieces of what something is appended to.
func (s *State) start(v *Val) []*Val {
	if v == nil || v.isNil() || s.IsNil(v) {
		return nil
	}
	if n, ok := s.num(s.run.lenOf(s, nil, "len", v.strip(), types.Typ[types.Int])); ok && n == 0 {
		return nil
	}
	return s.spell(v)
}

func (s *State) decimalOf(v *Val) *Val {
	for v.Op == "conv" && isIntVal(v.Args[0]) {
		v = v.Args[0]
	}
	return s.run.in.mk(Val{Op: "dec", Args: []*Val{v}})
}

// wrote returns what e writes, and to what.
func (s *State) wrote(e *Event) (dst *Val, ps []*Val, ok bool) {
	if e.Kind != EvCall || e.Inlined || e.Meth == nil {
		return
	}
	switch name := e.Name(); {
	case (name == "Write" || name == "WriteString" || name == "WriteByte") && e.Recv != nil && len(e.Args) == 1:
		return e.Recv.strip(), s.spell(e.Args[0]), true
	case pkgCall(e, "io", "WriteString") && e.Recv == nil:
		return e.Args[0].strip(), s.spell(e.Args[1]), true
	}
	dst, cont, ok := s.output(e)
	if ok {
		for _, p := range cont.Args {
			if b := p; b.Typ != nil && isIntVal(b) { // %d
				ps = append(ps, s.decimalOf(b))
				continue
			}
			ps = append(ps, s.spell(p)...)
		}
	}
	return
}

// code takes v apart: field f of the packet at base, plus off.
func (s *State) code(v *Val, f *types.Var) (base *Val, off int64, ok bool) {
	for v != nil {
		switch {
		case v.Op == "conv":
			v = v.Args[0]
			continue
		case v.Op == "bin" && (token.Token(v.Idx) == token.ADD || token.Token(v.Idx) == token.SUB):
			n, k := v.Args[1].int64()
			if !k {
				if n, k = v.Args[0].int64(); !k || token.Token(v.Idx) == token.SUB {
					return
				}
				off += n
				v = v.Args[1]
				continue
			}
			if token.Token(v.Idx) == token.SUB {
				n = -n
			}
			off += n
			v = v.Args[0]
			continue
		}
		break
	}
	if f == nil {
		return v, off, v != nil
	}
	g, b := fieldLoad(v)
	if g != f {
		return nil, 0, false
	}
	return s.packetOf(b), off, true
}

// packetOf identifies the packet a field is loaded from, seen through copies.
func (s *State) packetOf(b *Val) *Val {
	for i := 0; b != nil && i < 4; i++ {
		b = b.strip()
		if a := loadedFrom(b); a != nil && b.Typ != nil {
			if _, ok := b.Typ.Underlying().(*types.Struct); ok {
				b = a
				continue
			}
		}
		break
	}
	return b
}

// isByte reports whether piece p is byte b.
func isByte(p *Val, b byte) bool {
	l, ok := p.str()
	return ok && l == string([]byte{b})
}

// factOn returns what field f, a number, of the packet at base is known to be.
func (s *State) factOn(base *Val, f *types.Var) (n int64, known bool) {
	for _, k := range sortedKeys(s.Facts) {
		ft := s.Facts[k]
		if ft.op != "eq" || !ft.val {
			continue
		}
		for _, p := range [][2]*Val{{ft.a, ft.b}, {ft.b, ft.a}} {
			if v, ok := p[1].int64(); ok {
				if b, off, ok := s.code(p[0], f); ok && off == 0 && b == base {
					return v, true
				}
			}
		}
	}
	return 0, false
}

// declared returns the method called name that type t itself declares.
func (p *Prog) declared(t *types.Named, name string) *ssa.Function {
	for i := 0; i < t.NumMethods(); i++ {
		if t.Method(i).Name() == name {
			return p.SSA.FuncValue(t.Method(i))
		}
	}
	return nil
}

// --- engine.io --------------------------------------------------------------

// speller checks the pieces of one packet after the other.
type speller struct {
	c               *Check
	kind, pkt, data *types.Var
}

func (w *speller) reset(s *State) {
	for _, k := range []string{"t.pos", "t.base", "t.len", "t.k", "t.b", "t.digits", "t.lenok"} {
		s.Del(k)
	}
}

// isData reports whether p is the data of the packet.
func (w *speller) isData(s *State, p *Val) bool {
	f, b := fieldLoad(p)
	return f == w.data && s.packetOf(b) == s.Get("t.base")
}

// empty reports whether the packet is known to have no data.
func (w *speller) empty(s *State) bool {
	for _, k := range sortedKeys(s.Facts) {
		f := s.Facts[k]
		for _, v := range []*Val{f.a, f.b} {
			if v != nil && v.Op == "len" && w.isData(s, v.Args[0]) {
				if n, ok := s.num(v); ok && n == 0 || s.Le(v, s.run.intVal(0)) {
					return true
				}
			}
		}
	}
	return false
}

// isLen reports whether v is the length of the data of the packet (as base64 if enc) plus k.
func (w *speller) isLen(s *State, v *Val, k int64, enc bool) bool {
	f := s.form(v, 0)
	if len(f.c) != 1 || f.k != k {
		return false
	}
	for a, n := range f.c {
		switch {
		case n != 1:
		case a.Op == "len" && !enc:
			return w.isData(s, a.Args[0])
		case a.Op == "len":
			ps := s.resolve(a.Args[0]).Args
			return len(ps) == 1 && ps[0].Op == "b64" && w.isData(s, ps[0].Args[0])
		case isCallOf(a, "encoding/base64", "EncodedLen") && enc:
			g := s.form(a.Args[len(a.Args)-1], 0)
			for b, m := range g.c {
				return len(g.c) == 1 && m == 1 && g.k == 0 && b.Op == "len" && w.isData(s, b.Args[0])
			}
		}
	}
	return false
}

// piece takes the next piece of a packet; it returns what is wrong with it.
func (w *speller) piece(s *State, p *Val, mode string) string {
	pos := s.Int("t.pos")
	next := func(n int) { s.SetInt("t.pos", int64(n)) }
	typ := func(off int64) bool {
		b, o, ok := s.code(p, w.pkt)
		if !ok || o != off {
			return false
		}
		if x := s.Get("t.base"); x != nil && x != b {
			return false
		}
		s.Set("t.base", b)
		return true
	}
	kind := func() (int64, bool) { return s.factOn(s.Get("t.base"), w.kind) }
	switch mode {
	case "text":
		switch {
		case pos == 4 && w.empty(s):
			w.reset(s)
			return w.piece(s, p, mode)
		case pos == 0 && p.Op == "dec":
			s.Set("t.len", p.Args[0])
			next(1)
		case pos == 1 && isByte(p, ':'):
			next(2)
		case pos == 2 && isByte(p, 'b'):
			s.SetFlag("t.b")
			next(3)
		case (pos == 2 || pos == 3) && typ('0'):
			k, known := kind()
			if b := s.Flag("t.b"); !known || b != (k == 1) {
				return "the kind of the packet is not known to be that written"
			}
			if !w.isLen(s, s.Get("t.len"), map[bool]int64{false: 1, true: 2}[s.Flag("t.b")], s.Flag("t.b")) {
				return "the length written is " + s.Get("t.len").String() + ", not that of what follows"
			}
			next(4)
		case pos == 4 && !s.Flag("t.b") && w.isData(s, p):
			w.reset(s)
		case pos == 4 && s.Flag("t.b") && p.Op == "b64" && w.isData(s, p.Args[0]):
			g := p.Args[1].strip()
			if a := loadedFrom(g); a != nil {
				g = a
			}
			if g == nil || g.Glob == nil || g.Glob.Name() != "StdEncoding" {
				return "data are encoded by another encoding than base64's standard one"
			}
			w.reset(s)
		default:
			return "it does not follow the format"
		}
	case "binary":
		switch {
		case pos == 3 && w.empty(s):
			w.reset(s)
			return w.piece(s, p, mode)
		case pos == 0:
			if b, off, ok := s.code(p, w.kind); ok && off == 0 {
				s.Set("t.base", b)
			} else if isByte(p, 0) || isByte(p, 1) {
				s.Set("t.k", p)
			} else {
				return "it does not start with the kind of the packet"
			}
			next(1)
		case pos == 1 && isByte(p, 0xFF) && s.Flag("t.lenok"):
			next(2)
		case pos == 1:
			if _, known := p.str(); known {
				return "it does not follow the format"
			}
			s.SetFlag("t.digits")
		case pos == 2:
			if s.Get("t.base") == nil {
				b, _, ok := s.code(p, w.pkt)
				if !ok {
					return "it does not follow the format"
				}
				s.Set("t.base", b)
			}
			k, known := kind()
			if x := s.Get("t.k"); x != nil && (!known || isByte(x, 1) != (k == 1)) {
				return "the kind of the packet is not known to be that written"
			}
			if !known {
				if v := s.kindNot(s.Get("t.base"), w.kind, 0); v {
					k, known = 1, true
				}
			}
			if !known || !typ(map[bool]int64{true: '0', false: 0}[k == 0]) {
				return "the type of the packet is not encoded as its kind requires"
			}
			next(3)
		case pos == 3 && w.isData(s, p):
			if !s.Flag("t.lenok") {
				return "the length written is not that of what follows"
			}
			w.reset(s)
		default:
			return "it does not follow the format"
		}
	case "websocket":
		switch {
		case pos == 0:
			if s.Get("t.base") == nil {
				b, _, ok := s.code(p, w.pkt)
				if !ok {
					return "it does not start with the type of the packet"
				}
				s.Set("t.base", b)
			}
			k, known := kind()
			if m, ok := s.num(s.Get("t.k")); !known || !ok || m != k+1 {
				return "the kind of the packet is not known to be that of the message"
			}
			if !typ(map[bool]int64{true: '0', false: 0}[k == 0]) {
				return "the type of the packet is not encoded as its kind requires"
			}
			next(1)
		case pos == 1 && w.isData(s, p):
			next(2)
		default:
			return "it does not follow the format"
		}
	}
	return ""
}

// kindNot reports whether the kind of the packet at base is known not to be n.
func (s *State) kindNot(base *Val, f *types.Var, n int64) bool {
	for _, k := range sortedKeys(s.Facts) {
		ft := s.Facts[k]
		if ft.op != "eq" || ft.val {
			continue
		}
		for _, p := range [][2]*Val{{ft.a, ft.b}, {ft.b, ft.a}} {
			if v, ok := p[1].int64(); ok && v == n {
				if b, off, ok := s.code(p[0], f); ok && off == 0 && b == base {
					return true
				}
			}
		}
	}
	return false
}

// ended reports whether nothing is missing.
func (w *speller) ended(s *State, mode string) bool {
	pos := s.Int("t.pos")
	switch mode {
	case "text":
		return pos == 0 || pos == 4 && w.empty(s)
	case "binary":
		return pos == 0 || pos == 3 && w.empty(s)
	}
	return pos == 2 || pos == 1 && w.empty(s)
}

func (c *Check) speller() *speller {
	return &speller{c, c.P.pktKind(), c.P.pktType(), c.P.pktData()}
}

// modeOf tells how the payload explored is encoded.
func (s *State) modeOf(mode *types.Var) string {
	for _, k := range sortedKeys(s.Facts) {
		f := s.Facts[k]
		if g, _ := fieldLoad(f.a); f.op == "true" && g == mode {
			if f.val {
				return "binary"
			}
			return "text"
		}
	}
	return ""
}

func (c *Check) payloadTable() {
	p := c.P
	pay, _ := p.engineType("Payload").(*types.Named)
	if pay == nil {
		c.undecided("type Payload not found")
		return
	}
	mode := fieldOfType(pay, types.Typ[types.Bool])
	enc, dec := p.declared(pay, "WriteTo"), p.declared(pay, "ReadFrom")
	if mode == nil || enc == nil || dec == nil {
		c.undecided("the encoding of payloads could not be identified")
		return
	}
	w := c.speller()
	// the functions that write one packet, and the modes they do it in
	st := p.engineType("Packet").Underlying()
	single := func(fn *ssa.Function) bool {
		writer, packet := false, false
		for _, pr := range fn.Params {
			writer = writer || isNamed(pr.Type(), "io", "Writer")
			packet = packet || types.Identical(deref(pr.Type()).Underlying(), st)
		}
		return writer && packet
	}
	modes := map[*ssa.Function]map[string]bool{}
	outer := &Config{Name: "payload", Depth: 40}
	outer.Opaque = func(fn *ssa.Function, meth *types.Func, recv types.Type) bool { return fn != nil && single(fn) }
	outer.OnEvent = func(s *State, e *Event) {
		if e.Kind == EvCall && e.Fn != nil && single(e.Fn) {
			if modes[e.Fn] == nil {
				modes[e.Fn] = map[string]bool{}
			}
			modes[e.Fn][s.modeOf(mode)] = true
			c.site("packets written", e)
		}
	}
	c.explore(outer, []*ssa.Function{enc}, nil)
	var roots []*ssa.Function
	for _, fn := range p.Funcs {
		if modes[fn] != nil {
			roots = append(roots, fn)
		}
	}
	if len(roots) == 0 {
		roots = append(roots, enc)
	}
	modeAt := func(s *State) string {
		if m := modes[s.Stack[0].F.Fn]; m != nil {
			if len(m) != 1 {
				return ""
			}
			return sortedKeys(m)[0]
		}
		return s.modeOf(mode)
	}
	cfg := &Config{Name: "payload", Depth: 40, Bounds: true}
	cfg.OnEvent = func(s *State, e *Event) {
		if s.Get("dst") == nil {
			for pr, v := range s.Stack[0].Env {
				if _, ok := pr.(*ssa.Parameter); ok && isNamed(pr.Type(), "io", "Writer") {
					s.Set("dst", v)
				}
			}
		}
		s.trackSpelling(e)
		// the length that is taken apart
		if m := modeAt(s); m == "binary" && s.Get("t.base") != nil {
			look := func(v *Val) {
				for v != nil && v.Op == "conv" {
					v = v.Args[0]
				}
				if v != nil && (v.Op == "bin" && token.Token(v.Idx) == token.REM) && w.isLen(s, v.Args[0], 1, false) {
					if n, ok := v.Args[1].int64(); ok && n == 10 {
						s.SetFlag("t.lenok")
					}
				}
				if v != nil && v.Op == "dec" && w.isLen(s, v.Args[0], 1, false) {
					s.SetFlag("t.lenok")
				}
			}
			switch {
			case e.Kind == EvStore:
				look(e.Val)
			case isAppend(e):
				_, es, _ := s.appended(e)
				for _, v := range es {
					look(v)
				}
			case e.Kind == EvCall && pkgCall(e, "strconv", "FormatInt", "Itoa", "AppendInt", "FormatUint", "AppendUint"):
				for _, a := range e.Args {
					if isIntVal(a) {
						look(s.decimalOf(a))
					}
				}
			}
		}
		if dst, ps, ok := s.wrote(e); ok && dst != nil && dst == s.Get("dst").strip() {
			m := modeAt(s)
			if m == "" {
				s.Report("mode", e, "something is written whatever the mode of the payload")
				return
			}
			c.site("pieces written", e)
			for _, q := range ps {
				if msg := w.piece(s, q, m); msg != "" {
					s.Report("format", e, "%s is written at place %d of a packet in %s mode: %s", q, s.Int("t.pos"), m, msg)
					w.reset(s)
					return
				}
			}
		}
		if rootExit(e) && len(e.Results) > 0 && !s.NonNil(e.Results[len(e.Results)-1]) {
			if m := modeAt(s); m != "" && !w.ended(s, m) {
				s.Report("format", e, "a packet is written only in part")
			}
		}
	}
	c.explore(cfg, roots, nil)
	c.need("pieces written", 1)
	c.divisors(enc)

	// decoding
	rd := &Config{Name: "payload", Bounds: true, Depth: 40}
	read := func(v *Val) *Val { // the byte read, or nil
		v = v.strip()
		if v != nil && v.Op == "ext" && v.Idx == 0 && v.Args[0].Op == "call" && v.Args[0].Meth != nil && v.Args[0].Meth.Name() == "ReadByte" {
			return v.Args[0]
		}
		return nil
	}
	fact := func(s *State, b int64) *Val { // a byte known to be b
		for _, k := range sortedKeys(s.Facts) {
			f := s.Facts[k]
			if f.op != "eq" || !f.val {
				continue
			}
			for _, q := range [][2]*Val{{f.a, f.b}, {f.b, f.a}} {
				if n, ok := q[1].int64(); ok && n == b && read(q[0]) != nil {
					return q[0]
				}
			}
		}
		return nil
	}
	rd.OnEvent = func(s *State, e *Event) {
		if v := fact(s, ':'); v != nil {
			s.Set("colon", v)
		}
		if v := fact(s, 0xFF); v != nil {
			s.Set("ff", v)
		}
		if v := fact(s, 'b'); v != nil {
			s.Set("b", v)
		}
		switch {
		case e.Kind == EvCall && e.Name() == "ReadByte" && e.Res != nil:
			if !s.Flag("read") {
				s.Set("first", e.Res)
				s.SetFlag("read")
			}
			s.Set("last", e.Res)
		case e.Kind == EvCall && pkgCall(e, "io", "CopyN", "ReadFull", "ReadAtLeast", "NewSectionReader", "LimitReader") && !s.Flag("body"):
			var n *Val
			for _, a := range e.Args {
				if isIntVal(a) {
					n = a
				} else if isBytesVal(a) {
					n = s.run.lenOf(s, nil, "len", a, types.Typ[types.Int])
				}
			}
			if n == nil {
				break
			}
			s.SetFlag("body")
			s.Set("k", s.run.intVal(99))
			l := n
			k := int64(0)
			for l.Op == "conv" || l.Op == "bin" {
				if l.Op == "bin" {
					d, ok := l.Args[1].int64()
					switch {
					case ok && token.Token(l.Idx) == token.SUB:
						k -= d
					case ok && token.Token(l.Idx) == token.ADD:
						k += d
					default:
						return
					}
				}
				l = l.Args[0]
			}
			s.Set("k", s.run.intVal(k))
			if l.Op == "const" {
				s.Set("k", nil)
				s.Del("k")
			}
		case isAppend(e):
			base, es, _ := s.appended(e)
			if base == nil || len(es) != 1 || !types.Identical(base.Typ.Underlying(), types.NewSlice(p.engineType("Packet"))) {
				return
			}
			c.site("packets decoded", e)
			m := s.modeOf(mode)
			kind, typ := s.part(es[0], w.kind), s.part(es[0], w.pkt)
			defer func() {
				for _, k := range []string{"colon", "ff", "b", "read", "first", "last", "body", "k"} {
					s.Del(k)
				}
			}()
			if kind == nil || typ == nil || m == "" {
				s.Report("decode", e, "a packet is delivered whose kind and type are not known")
				return
			}
			at, off, ok := s.code(typ, nil)
			if !ok || read(at) == nil || read(at) != s.Get("last") {
				s.Report("decode", e, "the type of a packet becomes %s, not the byte before the data", typ)
				return
			}
			k, known := s.num(kind)
			want := int64(-1)
			switch m {
			case "text":
				b := s.Get("b")
				bin := b != nil && read(b) != read(at)
				if !known || k != map[bool]int64{true: 1, false: 0}[bin] {
					s.Report("decode", e, "a packet becomes one of kind %s though 'b' was read: %v", kind, bin)
				}
				if !bin {
					if eq, kn := s.Eq(at, s.run.constVal(constInt('b'), at.Typ)); !kn || eq {
						s.Report("decode", e, "'b' may be taken for the type of a packet")
					}
				} else {
					want = -2
				}
				if off != -'0' {
					s.Report("decode", e, "the type of a packet becomes %s", typ)
				}
				if s.Get("colon") == nil {
					s.Report("decode", e, "the length of a packet is not known to end in a colon")
				}
			case "binary":
				kv, koff, kok := s.code(kind, nil)
				if known && kok && kv.Op == "const" {
					// the kind was told from the first byte
					f := s.res(&Event{Res: s.Get("first")}, 0)
					n, nk := s.num(f)
					if !nk || n != k {
						s.Report("decode", e, "a packet becomes one of kind %s, not what its first byte says", kind)
					}
				} else if !kok || koff != 0 || read(kv) == nil || read(kv) != s.Get("first") {
					s.Report("decode", e, "a packet becomes one of kind %s, not what its first byte says", kind)
				} else if eq, kn := s.Eq(kind, s.run.constVal(constInt(0), kind.Typ)); kn {
					known, k = true, map[bool]int64{true: 0, false: 1}[eq]
				} else if eq, kn := s.Eq(kv, s.run.constVal(constInt(0), kv.Typ)); kn {
					known, k = true, map[bool]int64{true: 0, false: 1}[eq]
				}
				if !known || off != map[bool]int64{true: -'0', false: 0}[k == 0] {
					s.Report("decode", e, "the type of a packet becomes %s, which is not as its kind requires", typ)
				}
				if s.Get("ff") == nil {
					s.Report("decode", e, "the length of a packet is not known to end in 0xFF")
				}
			}
			if n := s.Get("k"); n != nil {
				if v, _ := n.int64(); v != want {
					s.Report("decode", e, "the data of a packet are taken to be as long as announced and %d bytes", v)
				}
			}
		}
	}
	c.explore(rd, []*ssa.Function{dec}, nil)
	c.need("packets decoded", 1)
}

// part returns field f of struct v.
func (s *State) part(v *Val, f *types.Var) *Val {
	for v != nil && v.Op == "conv" {
		v = v.Args[0]
	}
	if v == nil || v.Typ == nil {
		return nil
	}
	st, ok := v.Typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) != f {
			continue
		}
		if v.Op == "struct" && i < len(v.Args) {
			return v.Args[i]
		}
		if a := loadedFrom(v); a != nil {
			return s.fieldNow(a, f)
		}
	}
	return nil
}

// divisors checks that numbers are taken apart in base 10.
func (c *Check) divisors(fn *ssa.Function) {
	fns := c.P.below(fn)
	fns[fn] = true
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if o, ok := in.(*ssa.BinOp); ok && (o.Op == token.REM || o.Op == token.QUO) {
					if k, ok := o.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() != 10 {
						c.fail("digits", c.P.pos(o.Pos()), "a number is taken apart in base %d", k.Int64())
					}
				}
			}
		}
	}
}

func (c *Check) websocketTable() {
	p := c.P
	var encs, decs []*ssa.Function
	for _, t := range p.namedTypes() {
		if t.Obj().Pkg() != p.Engine {
			continue
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isNamed(deref(st.Field(i).Type()), "github.com/gorilla/websocket", "Conn") {
					if m := p.declared(t, "WritePacket"); m != nil {
						encs = append(encs, m)
					}
					if m := p.declared(t, "ReadPacket"); m != nil {
						decs = append(decs, m)
					}
				}
			}
		}
	}
	w := c.speller()
	ws := func(e *Event, names ...string) bool {
		if e.Kind != EvCall || e.Meth == nil || e.Meth.Pkg() == nil || e.Meth.Pkg().Path() != "github.com/gorilla/websocket" {
			return false
		}
		for _, n := range names {
			if n == e.Name() {
				return true
			}
		}
		return false
	}
	cfg := &Config{Name: "websocket", Bounds: true, Depth: 40}
	cfg.OnEvent = func(s *State, e *Event) {
		s.trackSpelling(e)
		put := func(ps []*Val) {
			for _, q := range ps {
				c.site("pieces sent", e)
				if msg := w.piece(s, q, "websocket"); msg != "" {
					s.Report("format", e, "%s is written at place %d of a websocket message: %s", q, s.Int("t.pos"), msg)
					return
				}
			}
		}
		switch {
		case ws(e, "NextWriter"):
			if s.Get("wc") != nil {
				s.Report("format", e, "a packet is sent as two messages")
			}
			s.Set("t.k", e.Args[0])
			s.Set("wc", s.res(e, 0))
		case ws(e, "WriteMessage") && len(e.Args) == 2:
			s.Set("t.k", e.Args[0])
			s.Set("wc", e.Res)
			put(s.spell(e.Args[1]))
		default:
			if dst, ps, ok := s.wrote(e); ok && dst != nil && s.Get("wc") != nil && dst == s.Get("wc").strip() {
				put(ps)
			}
		}
		if rootExit(e) && len(e.Results) > 0 && s.Get("wc") != nil && !s.NonNil(e.Results[len(e.Results)-1]) && !w.ended(s, "websocket") {
			s.Report("format", e, "a packet is sent only in part")
		}
	}
	c.explore(cfg, encs, nil)
	c.need("pieces sent", 1)

	rd := &Config{Name: "websocket", Bounds: true, Depth: 40}
	rd.OnEvent = func(s *State, e *Event) {
		switch {
		case ws(e, "NextReader", "ReadMessage") && e.Res != nil:
			s.Set("m", s.res(e, 0))
		case rootExit(e) && len(e.Results) == 2 && !s.NonNil(e.Results[1]):
			pk := e.Results[0].strip()
			if pk == nil || s.IsNil(pk) {
				return
			}
			c.site("messages decoded", e)
			kind, typ := s.fieldOr(pk, w.kind), s.fieldOr(pk, w.pkt)
			m := s.Get("m")
			if kind == nil || typ == nil || m == nil {
				s.Report("decode", e, "a packet is returned whose kind and type are not known")
				return
			}
			k, known := s.num(kind)
			n, nk := s.num(m)
			if !known || !nk || n != k+1 {
				s.Report("decode", e, "a packet of kind %s is made of a message of type %s", kind, m)
				return
			}
			at, off, ok := s.code(typ, nil)
			a := at
			if ok && a.Op == "load" {
				a = a.Args[0]
			}
			if !ok || a.Op != "index&" || !isZero(a.Args[1]) {
				if r := at.strip(); r == nil || r.Op != "ext" {
					s.Report("decode", e, "the type of a packet becomes %s, not the first byte of the message", typ)
					return
				}
			}
			if off != map[bool]int64{true: -'0', false: 0}[k == 0] {
				s.Report("decode", e, "the type of a packet becomes %s, which is not as its kind requires", typ)
			}
		}
	}
	c.explore(rd, decs, nil)
	c.need("messages decoded", 1)
}

// fieldOr returns what field f of the struct at ptr holds, zero if it was made here and not written.
func (s *State) fieldOr(ptr *Val, f *types.Var) *Val {
	if v := s.fieldNow(ptr, f); v != nil {
		return v
	}
	if ptr.Op == "alloc" {
		return s.run.zero(f.Type())
	}
	return nil
}

// --- socket.io, text ----------------------------------------------------------

// textTable checks the text format of package socketio: encoders whose Encode writes text, and decoders that wait for attachments.
func (c *Check) textTable() {
	x := c.newSio()
	if x == nil {
		return
	}
	p := c.P
	pkt := x.pkt.Underlying().(*types.Struct)
	var att, bufs *types.Var
	for i := 0; i < pkt.NumFields(); i++ {
		f := pkt.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && f != x.fType {
			att = f
		}
		if types.Identical(f.Type(), types.NewSlice(types.NewSlice(types.Typ[types.Byte]))) {
			bufs = f
		}
	}
	if att == nil || bufs == nil {
		c.undecided("packets have no number of attachments, or no list of them")
		return
	}
	ph := c.placeholderType()
	var roots []*ssa.Function
	for _, t := range p.concrete(p.rootType("Encoder")) {
		if m := p.method(t, "Encode"); m != nil && ph != nil && p.makes(m, ph) {
			roots = append(roots, m)
		}
	}
	cfg := &Config{Name: "text", Depth: 40, Keep: x.keep}
	cfg.OnEvent = func(s *State, e *Event) {
		s.trackSpelling(e)
		if s.Get("pkt") == nil {
			for pr, v := range s.Stack[0].Env {
				if _, ok := pr.(*ssa.Parameter); ok && types.Identical(pr.Type(), types.NewPointer(x.pkt)) {
					s.Set("pkt", v)
				}
			}
		}
		pk := s.Get("pkt")
		if pk == nil {
			return
		}
		now := func(f *types.Var) *Val { return s.fieldNow(pk, f) }
		if f, b := addrParts(e.Addr); e.Kind == EvStore && f == x.fType && b == pk {
			// events with attachments become binary ones
			old := now(x.fType)
			n, ok := s.num(e.Val)
			was := map[int64]int64{5: 2, 6: 3}[n]
			if eq, k := s.Eq(old, s.run.constVal(constInt(was), e.Val.Typ)); !ok || was == 0 || old == nil || !k || !eq {
				s.Report("type", e, "the type of a packet becomes %s, where it is not known to be the one this stands for", e.Val)
			}
			if a := now(att); a == nil || !s.positive(a) {
				s.Report("type", e, "a packet becomes a binary one where it is not known to have attachments")
			}
		}
		if !rootExit(e) || len(e.Results) != 3 || !s.IsNil(e.Results[2]) {
			return
		}
		c.site("packets encoded as text", e)
		ps := s.spell(e.Results[0])
		fail := func(what string) { s.Report("format", e, "%s (what is written: %s)", what, showPieces(ps)) }
		take := func() *Val {
			if len(ps) == 0 {
				return nil
			}
			q := ps[0]
			ps = ps[1:]
			return q
		}
		is := func(i int, b byte) bool { return i < len(ps) && isByte(ps[i], b) }
		typ, q := now(x.fType), take()
		if q == nil {
			fail("nothing is written")
			return
		}
		if n, ok := s.num(typ); ok && isByte(q, byte('0'+n)) {
		} else if b, off, ok := s.code(q, x.fType); !ok || off != '0' || b != pk {
			if b, off, ok := s.code(q, nil); !ok || off != '0' || b != typ {
				fail("a packet does not start with its type")
				return
			}
		}
		a := now(att)
		if n, ok := s.num(typ); ok && n >= 5 {
			// binary
		} else {
			for _, n := range []int64{2, 3} {
				if eq, k := s.Eq(typ, s.run.constVal(constInt(n), typ.Typ)); a != nil && s.positive(a) && (!k || eq) {
					fail("a packet with attachments may be of a type without")
				}
			}
		}
		if len(ps) > 0 && ps[0].Op == "dec" && a != nil && s.sameNum(ps[0].Args[0], a) && is(1, '-') {
			ps = ps[2:]
			if !s.positive(a) {
				fail("a number of attachments is written that may be none")
			}
		} else if a == nil || !s.Le(a, s.run.intVal(0)) {
			fail("the number of attachments does not follow the type, though there may be some")
			return
		}
		nsp := now(x.fNsp)
		name := []*Val{}
		if nsp != nil {
			name = s.spell(nsp)
		}
		match := len(name) > 0 && len(ps) >= len(name)
		for i, q := range name {
			match = match && ps[i].strip() == q.strip()
		}
		if match {
			if !is(len(name), ',') {
				fail("the namespace does not end in a comma")
				return
			}
			ps = ps[len(name)+1:]
		} else if nsp != nil && !s.isText(nsp, "", "/") {
			fail("the namespace is missing, though it may not be /")
			return
		}
		id := now(x.fID)
		if len(ps) > 0 && ps[0].Op == "dec" && id != nil && loadedFrom(ps[0].Args[0]) == id {
			ps = ps[1:]
		} else if id != nil && !s.IsNil(id) {
			fail("the id is missing, though there may be one")
			return
		}
		data := now(x.fData)
		if len(ps) > 0 && ps[0].Op == "json" {
			d := ps[0].Args[0]
			if d.Op == "content" && len(d.Args) == 1 {
				d = d.Args[0]
			}
			if data != nil && d.strip() != data.strip() {
				fail("something else than the data is written as such")
			}
			ps = ps[1:]
			if is(0, '\n') {
				ps = ps[1:]
			}
		} else if data == nil || !s.IsNil(data) {
			fail("the data are missing, though there may be some")
			return
		}
		if len(ps) > 0 {
			fail("something follows the data")
		}
	}
	c.explore(cfg, roots, nil)
	c.need("packets encoded as text", 1)

	// placeholders
	num := &Config{Name: "placeholders", Depth: 40, Keep: x.keep}
	num.OnEvent = func(s *State, e *Event) {
		f, b := (*types.Var)(nil), (*Val)(nil)
		if e.Kind == EvStore {
			f, b = addrParts(e.Addr)
		}
		settle := func() {
			if !s.Flag("made") && !s.Flag("counted") && !s.Flag("kept") {
				return
			}
			if s.Flag("made") && s.Flag("kept") && !s.Flag("counted") && !rootExit(e) {
				s.SetFlag("uncounted") // may be counted at the end
			} else if !s.Flag("made") || !s.Flag("counted") || !s.Flag("kept") {
				s.Report("number", e, "an attachment is not known to have been replaced by a placeholder, counted and kept: %v, %v, %v", s.Flag("made"), s.Flag("counted"), s.Flag("kept"))
			}
			for _, k := range []string{"made", "counted", "kept"} {
				s.Del(k)
			}
		}
		once := func(k string) {
			if s.Flag(k) {
				settle()
			}
			s.SetFlag(k)
		}
		switch {
		case f != nil && b != nil && b.Typ != nil && types.Identical(deref(b.Typ), ph) && isIntVal(e.Val):
			c.site("placeholders made", e)
			once("made")
			// numbers count from zero: that of attachments, or of those kept, so far
			ok, any := false, false
			for _, k := range sortedKeys(s.Mem) {
				m := s.Mem[k]
				g, pk := addrParts(m.addr)
				if pk == nil || g != att && g != bufs {
					continue
				}
				any = true
				n, done := m.val, s.Flag("counted")
				if done && s.Get("attsum") != nil {
					n = s.Get("attsum") // what was stored
				}
				if g == bufs {
					n, done = s.run.lenOf(s, nil, "len", m.val, types.Typ[types.Int]), s.Flag("kept")
				}
				d, found := s.apart(e.Sum, n)
				ok = ok || found && d == map[bool]int64{true: -1, false: 0}[done]
				if v, k := s.num(e.Sum); k && v == 0 && !s.Flag("later") {
					ok = true
				}
			}
			if any && !ok {
				s.Report("number", e, "a placeholder gets number %s, not known to be that of attachments before it", e.Sum)
			}
			s.SetFlag("later")
		case f == att && e.Val != nil:
			if n, ok := s.num(e.Sum); ok && n == 0 {
				return
			}
			old := s.fieldNow(b, att)
			if old == nil {
				return
			}
			d, found := s.apart(e.Sum, old)
			if found && d == 0 {
				return
			}
			if !found || d != 1 {
				// counted at once: the length of what is kept
				if l := s.fieldNow(b, bufs); l == nil || e.Sum.strip() != s.run.lenOf(s, nil, "len", l, types.Typ[types.Int]).strip() {
					s.Report("number", e, "the number of attachments becomes %s", e.Sum)
				}
				s.SetFlag("atonce")
				return
			}
			once("counted")
			s.Set("attsum", e.Sum)
		case isAppend(e) && types.Identical(e.Res.Typ, bufs.Type()):
			if base, es, spread := s.appended(e); base != nil && len(es) == 1 && spread == nil {
				once("kept")
				c.site("attachments kept", e)
			}
		case rootExit(e) && len(e.Results) == 3 && s.IsNil(e.Results[2]) && !s.Flag("atonce"):
			settle()
			if s.Flag("uncounted") {
				s.Report("number", e, "attachments are kept that are not counted")
			}
		}
	}
	c.explore(num, roots, nil)
	c.need("placeholders made", 1)

	// decoding
	var decs []*ssa.Function
	for _, d := range x.decoders() {
		if m := p.method(d.t, "Add"); m != nil && d.pending != nil {
			decs = append(decs, m)
		}
	}
	rd := &Config{Name: "text", Depth: 40, Keep: x.keep, Bounds: true}
	type form struct {
		typ           int64
		nsp, id, data bool
	}
	forms := map[form]bool{}
	rd.OnEvent = func(s *State, e *Event) {
		if rootExit(e) && len(e.Results) > 0 && !s.NonNil(e.Results[len(e.Results)-1]) {
			if t := s.Get("ptyp"); t != nil {
				for n := int64(0); n <= 6; n++ {
					if eq, k := s.Eq(t, s.run.constVal(constInt(n), t.Typ)); !k || eq {
						if (n == 2 || n == 3 || n >= 5) && s.Flag("hasdata") && !s.Flag("rawdata") {
							s.Report("decode", e, "the data of a packet of type %d are not kept as they are for its handler to decode", n)
						}
						forms[form{n, s.Flag("hasnsp"), s.Flag("hasid"), s.Flag("hasdata")}] = true
					}
				}
			}
		}
		if e.Kind == EvCall {
			for _, a := range e.Args {
				if f, b := addrParts(a); f == x.fData && b != nil && b.Typ != nil && types.Identical(deref(b.Typ), x.pkt) {
					s.SetFlag("hasdata") // decoded into it
					s.Del("rawdata")
				}
			}
		}
		c.unread(s, e)
		if rootExit(e) && len(e.Results) > 0 && !s.NonNil(e.Results[len(e.Results)-1]) && s.Get("ptyp") != nil && !s.Flag("hasdata") && !s.Flag("ended") && !s.Flag("past") {
			s.Report("decode", e, "a packet is accepted though what follows in the text was not looked at")
		}
		if s.Get("data") == nil {
			for pr, v := range s.Stack[0].Env {
				if _, ok := pr.(*ssa.Parameter); ok && types.Identical(pr.Type(), bytesType) {
					s.Set("data", v)
				}
			}
		}
		if e.Kind != EvStore {
			return
		}
		f, b := addrParts(e.Addr)
		if b == nil || b.Typ == nil || !types.Identical(deref(b.Typ), x.pkt) {
			return
		}
		switch f {
		case x.fID:
			if !s.IsNil(e.Val) {
				s.SetFlag("hasid")
			}
		case x.fData:
			if !s.IsNil(e.Val) {
				s.SetFlag("hasdata")
				s.Del("rawdata")
				if v := e.Val.strip(); v != nil && v.Typ != nil && types.Identical(v.Typ, bytesType) {
					s.SetFlag("rawdata")
				}
			}
		case x.fType:
			s.Set("ptyp", e.Val)
			c.site("packets decoded from text", e)
			at, off, ok := s.code(e.Val, nil)
			if a := loadedFrom(at); !ok || off != -'0' || a == nil || a.Op != "index&" || a.Args[0].strip() != s.Get("data") || !isZero(a.Args[1]) {
				s.Report("decode", e, "the type of a packet becomes %s, which is not what its first byte says", e.Val)
			}
		case att, bufs:
			if n, ok := s.num(e.Val); ok && n == 0 || s.IsNil(e.Val) || s.Flag("binary") {
				return
			}
			t := s.fieldNow(b, x.fType)
			bin := false
			for _, n := range []int64{5, 6} {
				if t != nil {
					if eq, k := s.Eq(t, s.run.constVal(constInt(n), t.Typ)); k && eq {
						bin = true
					}
				}
			}
			if b.Op == "alloc" && !bin {
				s.Report("decode", e, "a packet gets attachments that is not known to be of a type that has them")
			}
		case x.fNsp:
			if _, ok := s.strOf(e.Val); !ok {
				s.SetFlag("hasnsp")
			}
			// where it ends
			for _, v := range s.slicesOf(e.Val, s.Get("data"), 0) {
				c.ends(s, e, v, ',', "the namespace of a packet")
			}
		}
	}
	c.explore(rd, decs, nil)
	c.need("packets decoded from text", 1)
	c.binaries()
	for n := int64(0); n <= 6 && len(decs) > 0; n++ {
		for _, nsp := range []bool{false, true} {
			for _, id := range []bool{false, true} {
				want := form{n, nsp, id, true}
				if n < 2 {
					want.data = false
				}
				if (n < 2 || n == 4) && id {
					continue
				}
				c.siteAt("forms of packets decoded", p.pos(decs[0].Pos()), "")
				if !forms[want] {
					c.fail("form", p.pos(decs[0].Pos()), "no path accepts a packet of type %d with namespace: %v, id: %v, data: %v", n, nsp, id, want.data)
				}
			}
		}
	}
	for _, d := range decs {
		c.decimals(d)
	}
}

// unread follows how far the text given was looked at: state "ended" once there is no more of it.
func (c *Check) unread(s *State, e *Event) {
	data := s.Get("data")
	if data == nil {
		return
	}
	of := func(v *Val) bool { return v != nil && v.strip() == data }
	skips := func(at *Val) {
		if last := s.Get("lastread"); last != nil && at != nil && !s.Flag("ended") {
			if d, ok := s.apart(at, last); ok && d > 1 {
				s.Report("decode", e, "a byte of the text is skipped without being looked at")
			}
		}
	}
	switch {
	case e.Kind == EvLoad && e.Addr.Op == "index&" && of(e.Addr.Args[0]):
		if d, ok := s.apart(e.Addr.Args[1], s.run.lenOf(s, nil, "len", data, types.Typ[types.Int])); ok && d >= 0 {
			s.SetFlag("past") // cannot be, whatever the facts known
		}
		skips(e.Addr.Args[1])
		s.Set("lastread", e.Addr.Args[1])
		s.Del("ended")
	case e.Kind == EvSlice && of(e.Args[0]):
		skips(e.Args[1])
		if e.Args[2] == nil {
			s.SetFlag("ended") // the rest is taken as it is
		}
	case e.Kind == EvAssume && e.Val != nil && e.Val.Op == "bin" && len(e.Val.Args) == 2:
		size := func(v *Val) bool {
			return v != nil && v.find(func(q *Val) bool { return q.Op == "len" && len(q.Args) > 0 && derivedFrom(q.Args[0], data) }) != nil
		}
		l, r := size(e.Val.Args[0]), size(e.Val.Args[1])
		if !l && !r {
			return
		}
		op := token.Token(e.Val.Idx)
		if r && !l { // turned round
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		end := map[token.Token]bool{token.LEQ: true, token.EQL: true, token.LSS: true}[op]
		if op == token.GTR || op == token.NEQ || op == token.GEQ {
			end = !e.Cond
		} else {
			end = end && e.Cond
		}
		if end {
			s.SetFlag("ended")
		}
	}
}

// binaries checks the types of binary data: each gives out the bytes it was given.
func (c *Check) binaries() {
	p := c.P
	var roots []*ssa.Function
	for _, t := range p.namedTypes() {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || t.Obj().Pkg() != p.Root || st.NumFields() != 1 || !types.Identical(st.Field(0).Type(), bytesType) {
			continue
		}
		ptr := types.NewPointer(t)
		if p.method(ptr, "MarshalBinary") == nil || p.method(ptr, "UnmarshalBinary") == nil {
			continue
		}
		for _, n := range []string{"MarshalBinary", "UnmarshalBinary", "MarshalBinaryTo"} {
			for _, m := range p.Funcs {
				if r := m.Signature.Recv(); r != nil && m.Name() == n && m.Synthetic == "" && types.Identical(deref(r.Type()), t) {
					roots = append(roots, m)
				}
			}
		}
	}
	c.explore(&Config{Name: "binary", Depth: 12, OnEvent: func(s *State, e *Event) {
		fn := s.rootFn()
		if !s.Flag("start") {
			s.SetFlag("start")
			s.Set("recv", s.param(0))
			if len(fn.Params) > 1 {
				s.Set("given", s.param(1))
			}
		}
		// kept reports whether v is all of what the receiver holds
		kept := func(v *Val) bool {
			v = wholeBytes(v)
			if v == nil {
				return false
			}
			f, b := fieldLoad(v)
			if f == nil && v.Op == "field" {
				f, b = v.Field, v.Args[0]
			}
			return f != nil && b.strip() == s.Get("recv") || v.find(func(q *Val) bool { return q == s.Get("recv") }) != nil && types.Identical(v.Typ, bytesType) && v.Op != "slice"
		}
		given := func(v *Val) bool { return wholeBytes(v) == s.Get("given") }
		switch {
		case e.Kind == EvBuiltin && e.Builtin == "copy" && len(e.Args) == 2:
			s.Set("copied", e.Args[0])
			s.Set("from", e.Args[1])
		case e.Kind == EvStore && e.Addr.Op == "field&" && e.Addr.Args[0].strip() == s.Get("recv"):
			s.Set("kept", e.Val)
		}
		if e.Kind == EvBuiltin && e.Builtin == "append" {
			if base, _, spread := s.appended(e); spread != nil && (s.IsNil(e.Args[0]) || base != nil && (s.IsNil(base) || base.Op == "makeslice" && isZero(base.Args[0]) || base.Op == "slice" && base.Args[2] != nil && isZero(base.Args[2]))) {
				s.Set("copied", e.Res)
				s.Set("from", spread)
			}
		}
		if !rootExit(e) || len(e.Results) == 0 || s.NonNil(e.Results[len(e.Results)-1]) {
			return
		}
		c.site("binary data converted", e)
		from, to := s.Get("from"), wholeBytes(s.Get("copied"))
		switch fn.Name() {
		case "MarshalBinary":
			if r := e.Results[0]; !kept(r) && !(to != nil && wholeBytes(r) == to && kept(from)) {
				s.Report("binary", e, "what binary data are sent as is not known to be the data")
			}
		case "UnmarshalBinary":
			k := s.Get("kept")
			if !(k != nil && given(k)) && !(to != nil && from != nil && given(from) && (k != nil && wholeBytes(k) == to || kept(to))) {
				s.Report("binary", e, "what is kept of binary data is not known to be what was received")
			}
		case "MarshalBinaryTo":
			if !(to != nil && given(to) && kept(from)) {
				s.Report("binary", e, "binary data are not known to be copied whole")
			}
		}
	}}, roots, nil)
	c.need("binary data converted", 2)
}

// wholeBytes strips conversions and slicings of everything.
func wholeBytes(v *Val) *Val {
	for v = v.strip(); v != nil && v.Op == "slice" && (v.Args[1] == nil || isZero(v.Args[1])) && v.Args[2] == nil; {
		v = v.Args[0].strip()
	}
	return v
}

// slicesOf lists the slices of data v is made of.
func (s *State) slicesOf(v, data *Val, depth int) (out []*Val) {
	if v == nil || depth > 12 {
		return
	}
	if v.Op == "slice" && v.Args[0] != nil && v.Args[0].strip() == data {
		return []*Val{v}
	}
	for _, a := range v.Args {
		out = append(out, s.slicesOf(a, data, depth+1)...)
	}
	return
}

// ends reports slices that end before another byte than b.
func (c *Check) ends(s *State, e *Event, v *Val, b byte, what string) {
	hi := v.Args[2]
	if hi == nil {
		return
	}
	for _, k := range sortedKeys(s.Facts) {
		f := s.Facts[k]
		if f.op != "eq" || !f.val {
			continue
		}
		for _, q := range [][2]*Val{{f.a, f.b}, {f.b, f.a}} {
			n, ok := q[1].int64()
			a := loadedFrom(q[0])
			if ok && a != nil && a.Op == "index&" && a.Args[0].strip() == v.Args[0].strip() && a.Args[1] == hi {
				c.site("ends found", e)
				if n != int64(b) {
					s.Report("decode", e, "%s ends before %q, not %q", what, rune(n), rune(b))
				}
			}
		}
	}
}

// decimals checks that digits are put together in base 10.
func (c *Check) decimals(fn *ssa.Function) {
	fns := c.P.below(fn)
	fns[fn] = true
	isDigit := func(v ssa.Value) bool {
		for i := 0; i < 4; i++ {
			switch o := v.(type) {
			case *ssa.Convert:
				v = o.X
				continue
			case *ssa.BinOp:
				if k, ok := o.Y.(*ssa.Const); ok && o.Op == token.SUB && k.Value != nil && k.Value.Kind() == constant.Int {
					if k.Int64() != '0' {
						c.fail("digits", c.P.pos(o.Pos()), "a digit is taken to be its code less %d", k.Int64())
					}
					return true
				}
			}
			break
		}
		return false
	}
	for f := range fns {
		if !c.P.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				o, ok := in.(*ssa.BinOp)
				if !ok || o.Op != token.ADD {
					continue
				}
				m, ok := o.X.(*ssa.BinOp)
				if !ok || m.Op != token.MUL || !isDigit(o.Y) {
					continue
				}
				for _, k := range []ssa.Value{m.X, m.Y} {
					if k, ok := k.(*ssa.Const); ok && k.Value != nil && k.Int64() != 10 {
						c.fail("digits", c.P.pos(o.Pos()), "a number is put together in base %d", k.Int64())
					}
				}
				c.siteAt("numbers read", c.P.pos(o.Pos()), "")
			}
		}
	}
}

func showPieces(ps []*Val) string {
	out := []string{}
	for _, q := range ps {
		out = append(out, q.String())
	}
	return strings.Join(out, " ")
}

// positive reports whether v is known to be more than zero.
func (s *State) positive(v *Val) bool {
	l, _ := s.interval(v, 0)
	lt, known := s.Lt(s.run.constVal(constInt(0), v.Typ), v)
	return l >= 1 || known && lt
}

func (s *State) sameNum(a, b *Val) bool {
	for a.Op == "conv" {
		a = a.Args[0]
	}
	return a.strip() == b.strip()
}

// isText reports whether v is known to be one of the texts.
func (s *State) isText(v *Val, texts ...string) bool {
	for _, t := range texts {
		if eq, k := s.Eq(v, s.run.constVal(constant.MakeString(t), v.Typ)); k && eq {
			return true
		}
		if t == "" {
			if n, ok := s.num(s.run.lenOf(s, nil, "len", v.strip(), types.Typ[types.Int])); ok && n == 0 {
				return true
			}
		}
	}
	return false
}

// placeholderType returns the type that stands for attachments.
func (c *Check) placeholderType() types.Type {
	for _, t := range c.P.namedTypes() {
		st, ok := t.Underlying().(*types.Struct)
		if t.Obj().Pkg() != c.P.Root || !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0] == "_placeholder" {
				return t
			}
		}
		if m := c.P.declared(t, "MarshalJSON"); m != nil && st.NumFields() == 1 {
			if b, ok := st.Field(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return t
			}
		}
	}
	c.undecided("no type of placeholders found")
	return nil
}

// makes reports whether fn, or something it calls, makes a t.
func (p *Prog) makes(fn *ssa.Function, t types.Type) bool {
	fns := p.below(fn)
	fns[fn] = true
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(deref(a.Type()), t) {
					return true
				}
			}
		}
	}
	return false
}

// --- socket.io, MessagePack -----------------------------------------------------

func (c *Check) msgpackTable() {
	x := c.newSio()
	if x == nil {
		return
	}
	p := c.P
	const msgp = "github.com/tinylib/msgp/msgp"
	fields := map[string]*types.Var{"type": x.fType, "nsp": x.fNsp, "data": x.fData, "id": x.fID}
	param := func(s *State) *Val {
		if s.Get("pkt") == nil {
			for pr, v := range s.Stack[0].Env {
				if _, ok := pr.(*ssa.Parameter); ok && types.Identical(pr.Type(), types.NewPointer(x.pkt)) {
					s.Set("pkt", v)
				}
			}
		}
		return s.Get("pkt")
	}
	var encs, decs []*ssa.Function
	for _, n := range []string{"MarshalMsg", "EncodeMsg"} {
		if m := p.declared(namedOf(x.pkt), n); m != nil {
			encs = append(encs, m)
		}
	}
	for _, n := range []string{"UnmarshalMsg", "DecodeMsg"} {
		if m := p.declared(namedOf(x.pkt), n); m != nil {
			decs = append(decs, m)
		}
	}
	cfg := &Config{Name: "msgpack", Depth: 40}
	cfg.OnEvent = func(s *State, e *Event) {
		pk := param(s)
		if pk == nil {
			return
		}
		// what is written is the sequence out; bytes one by one, values as pairs of what writes them and of themselves
		put := func(v *Val) {
			n := s.Int("n")
			s.Set("o"+strconv.FormatInt(n+100, 10), v)
			s.SetInt("n", n+1)
		}
		lit := func(t string) {
			for i := 0; i < len(t); i++ {
				put(s.run.strVal(t[i : i+1]))
			}
		}
		str := func(v *Val) {
			if l, ok := s.strOf(v); ok && len(l) < 32 {
				lit(string([]byte{byte(0xa0 + len(l))}) + l)
				return
			}
			put(s.pair(s.run.strVal("String"), v))
		}
		call := e.Kind == EvCall && !e.Inlined && e.Meth != nil && e.Meth.Pkg() != nil && e.Meth.Pkg().Path() == msgp
		switch name := e.Name(); {
		case isAppend(e) && types.Identical(e.Res.Typ.Underlying(), bytesType):
			_, es, spread := s.appended(e)
			for _, b := range es {
				put(s.byteOf(b))
			}
			if spread != nil {
				for _, q := range s.spell(spread) {
					put(q)
				}
			}
		case call && name == "Append" && len(e.Args) == 1:
			es := s.elems(e.Args[0])
			if es == nil {
				put(e.Args[0])
			}
			for _, b := range es {
				put(s.byteOf(b))
			}
		case call && (strings.HasPrefix(name, "Append") && len(e.Args) >= 1 || strings.HasPrefix(name, "Write") && e.Recv != nil):
			as, what := e.Args, strings.TrimPrefix(strings.TrimPrefix(name, "Append"), "Write")
			if strings.HasPrefix(name, "Append") {
				as = as[1:]
			}
			switch {
			case what == "Nil":
				lit("\xc0")
			case what == "String":
				str(as[0])
			case what == "MapHeader":
				if n, ok := s.num(as[0]); ok && n < 16 {
					lit(string([]byte{byte(0x80 + n)}))
				}
			case len(as) == 1:
				put(s.pair(s.run.strVal(what), as[0]))
			}
		case rootExit(e) && len(e.Results) > 0 && s.IsNil(e.Results[len(e.Results)-1]):
			c.site("packets encoded", e)
			var ps []*Val
			for i := int64(0); i < s.Int("n"); i++ {
				ps = append(ps, s.Get("o"+strconv.FormatInt(i+100, 10)))
			}
			fail := func(f string, a ...interface{}) { s.Report("format", e, f, a...) }
			h := ""
			if len(ps) > 0 {
				h, _ = ps[0].str()
			}
			if len(h) != 1 || h[0] < 0x80 || h[0] > 0x8f {
				fail("a packet does not start as a map")
				return
			}
			keys := map[string]bool{}
			i := 1
			for n := int(h[0] - 0x80); n > 0; n-- {
				k, l := "", -1
				for ; i < len(ps) && (l < 0 || len(k) < l); i++ {
					b, ok := ps[i].str()
					if !ok || len(b) != 1 || l < 0 && (b[0] < 0xa0 || b[0] > 0xbf) {
						break
					}
					if l < 0 {
						l = int(b[0] - 0xa0)
						continue
					}
					k += b
				}
				f := fields[k]
				if len(k) != l || f == nil || keys[k] {
					fail("a packet has a key %q that is cut short, unknown or given twice", k)
					return
				}
				keys[k] = true
				if i >= len(ps) {
					fail("the value of %s is missing", k)
					return
				}
				v := ps[i]
				i++
				now := s.fieldNow(pk, f)
				if isByte(v, 0xc0) {
					if now == nil || !s.IsNil(now) {
						fail("%s is written as nil, though it may not be", k)
					}
					continue
				}
				if v.Op != "pair" {
					fail("the value of %s is %s", k, v)
					return
				}
				how, _ := v.Args[0].str()
				want := map[string][]string{"type": {"Byte", "Uint8", "Uint", "Uint64", "Int", "Int64", "Int8"}, "nsp": {"String"}, "data": {"Intf"}, "id": {"Uint64", "Uint"}}[k]
				okHow := false
				for _, w := range want {
					okHow = okHow || w == how
				}
				val := v.Args[1]
				for val.Op == "conv" {
					val = val.Args[0]
				}
				okVal := now != nil && (val.strip() == now.strip() || isFieldOf(val, pk, f))
				if k == "id" {
					okVal = now != nil && loadedFrom(val) == now && s.NonNil(now)
				}
				if !okHow || !okVal {
					fail("%s is written as %s %s", k, how, v.Args[1])
				}
			}
			if i < len(ps) {
				fail("a packet of %d keys goes on after them", len(keys))
			}
			for _, k := range sortedKeys(fields) {
				if now := s.fieldNow(pk, fields[k]); !keys[k] && (k != "id" && k != "data" || now == nil || !s.IsNil(now)) {
					fail("%s is not written", k)
				}
			}
		}
	}
	c.explore(cfg, encs, nil)
	c.need("packets encoded", 1)

	// a packet travels in the form its kind has: control packets as one JSON text, all others as one binary frame
	var roots []*ssa.Function
	ph := c.placeholderType()
	for _, t := range p.concrete(p.rootType("Encoder")) {
		if m := p.method(t, "Encode"); m != nil && (ph == nil || !p.makes(m, ph)) {
			roots = append(roots, m)
		}
	}
	marshals := func(fn *ssa.Function) bool {
		for _, m := range encs {
			if m == fn {
				return true
			}
		}
		return false
	}
	form := &Config{Name: "msgpack", Depth: 40, Keep: x.keep}
	form.Opaque = func(fn *ssa.Function, meth *types.Func, recv types.Type) bool { return fn != nil && marshals(fn) }
	form.OnEvent = func(s *State, e *Event) {
		pk := param(s)
		if pk == nil {
			return
		}
		typ := s.Get("typ")
		if f, b := addrParts(e.Addr); e.Kind == EvLoad && f == x.fType && b == pk && typ == nil {
			s.Set("typ", e.Val)
		}
		if e.Kind == EvCall && !e.Inlined && e.Res != nil {
			var a *Val
			if len(e.Args) > 0 {
				a = e.Args[0].strip()
			}
			switch {
			case pkgCall(e, "encoding/json", "Marshal") && a == pk:
				s.Set("json", s.res(e, 0))
			case e.Fn != nil && marshals(e.Fn) && e.Recv == pk:
				s.Set("msgp", s.res(e, 0))
			}
		}
		if !rootExit(e) || len(e.Results) != 3 || s.NonNil(e.Results[2]) {
			return
		}
		c.site("packets framed", e)
		text, els := e.Results[0], s.elems(e.Results[1])
		js, mp := s.Get("json"), s.Get("msgp")
		none := s.IsNil(e.Results[1]) || els != nil && len(els) == 0
		isText := js != nil && text.strip() == js && none
		isBin := mp != nil && s.IsNil(text) && len(els) == 1 && els[0] == mp
		for n, control := range []bool{true, true, false, false, true, false, false} {
			if typ != nil {
				if eq, k := s.Eq(typ, s.run.constVal(constInt(int64(n)), typ.Typ)); k && !eq {
					continue
				}
			}
			switch {
			case control && !isText:
				s.Report("form", e, "a control packet (type %d) may be sent as something else than its JSON text alone", n)
			case !control && !isBin:
				s.Report("form", e, "an event or acknowledgement (type %d) may be sent as something else than one binary frame", n)
			}
		}
	}
	c.explore(form, roots, nil)
	c.need("packets framed", 1)

	got := map[string]bool{}
	rd := &Config{Name: "msgpack", Depth: 40}
	rd.OnEvent = func(s *State, e *Event) {
		pk := param(s)
		if pk == nil {
			return
		}
		if e.Kind == EvCall && !e.Inlined && !strings.HasPrefix(e.Name(), "ReadMapKey") {
			for _, n := range []string{"Read", "Skip", "Decode", "Unmarshal"} {
				if strings.HasPrefix(e.Name(), n) {
					s.Del("unread")
				}
			}
		}
		if rootExit(e) && len(e.Results) > 0 && s.Flag("unread") && s.IsNil(e.Results[len(e.Results)-1]) {
			s.Report("decode", e, "a packet is decoded though the value of its last key was not read")
		}
		if e.Kind == EvCall && e.Meth != nil && e.Meth.Pkg() != nil && e.Meth.Pkg().Path() == msgp && e.Res != nil {
			if strings.HasPrefix(e.Name(), "ReadMapKey") {
				if s.Flag("unread") {
					s.Report("decode", e, "a key is read though the value of the one before was not")
				}
				s.SetFlag("unread")
				s.Set("key", e.Res)
			} else if b, ok := e.Res.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.String && s.Get("key") != nil && derivedFrom(e.Res, s.Get("key")) {
				s.Set("name", e.Res)
			}
		}
		if e.Kind != EvStore {
			return
		}
		f, b := addrParts(e.Addr)
		if b != pk {
			f = nil
		}
		if l := e.Addr.strip(); f == nil && l != nil {
			if a := s.fieldNow(pk, x.fID); a != nil && a.strip() == l {
				f = x.fID
			}
		}
		want := ""
		for k, g := range fields {
			if f != nil && f == g {
				want = k
			}
		}
		if want == "" {
			return
		}
		c.site("values decoded", e)
		key := s.Get("key")
		for _, k := range sortedKeys(s.Facts) {
			ft := s.Facts[k]
			if ft.op != "eq" || !ft.val || key == nil {
				continue
			}
			for _, q := range [][2]*Val{{ft.a, ft.b}, {ft.b, ft.a}} {
				if l, ok := q[1].str(); ok && derivedFrom(q[0], key) {
					if l != want {
						s.Report("decode", e, "what key %q says becomes the %s of a packet", l, want)
					}
					s.Del("unknown")
					got[l] = true
					return
				}
			}
		}
		s.Report("decode", e, "the %s of a packet is set where the key read is not known to be that", want)
	}
	c.explore(rd, decs, nil)
	if len(decs) > 0 {
		for _, k := range sortedKeys(fields) {
			if !got[k] {
				c.fail("decode", "", "key %s of a packet is not decoded", k)
			}
		}
	}
	c.need("values decoded", 4)
}

// addrParts takes the address of a field apart.
func addrParts(a *Val) (*types.Var, *Val) {
	if a = a.strip(); a == nil || a.Op != "field&" {
		return nil, nil
	}
	return a.Field, a.Args[0].strip()
}

// apart returns how much more a is than b.
func (s *State) apart(a, b *Val) (int64, bool) {
	base := func(v *Val) (*Val, int64) {
		b, k, _ := s.code(v, nil)
		if b == nil {
			return v, 0
		}
		return b, k
	}
	if a == nil || b == nil {
		return 0, false
	}
	x, i := base(a)
	y, j := base(b)
	if x.strip() == y.strip() {
		return i - j, true
	}
	m, ok1 := s.num(a)
	n, ok2 := s.num(b)
	return m - n, ok1 && ok2
}
