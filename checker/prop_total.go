package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "Every path of the decoder that assembles packets from several frames (and of what it calls): nothing can panic, sizes are bounded, numbers do not overflow; "+
		"a rejected frame leaves no trace; the number of attachments announced is read digit by digit and must equal the number of placeholders; frame after frame fills the attachments in order, "+
		"and the packet is handed out exactly when none is missing; the arguments take them in order.",
		func(c *Check) { c.defaultDecoder() })
	register("C25", "Every path of the msgpack decoder (and of what it calls): nothing can panic, reflection is used on values of the right kind only, sizes come from headers of data found to be "+
		"well-formed, recursive functions get data of bounded depth only, and the error of each step is known nil or returned.",
		func(c *Check) { c.msgpackDecoder() })
}

// decoder describes an implementation of Decoder.
type decoder struct {
	t       *types.Named
	pending *types.Var // the packet that lacks attachments, nil if frames are decoded one by one
	packets *types.Var // the channel of decoded packets
}

func (x *sio) decoders() (ds []*decoder) {
	for _, t := range x.p.concrete(x.p.rootType("Decoder")) {
		d := &decoder{t: t}
		d.pending = fieldOfType(t, types.NewPointer(x.pkt))
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if ch, ok := st.Field(i).Type().Underlying().(*types.Chan); ok && types.Identical(deref(ch.Elem()), x.pkt) {
					d.packets = st.Field(i)
				}
			}
		}
		if d.packets == nil {
			x.c.undecided("decoder %s has no channel of packets", t)
			continue
		}
		ds = append(ds, d)
	}
	return
}

// errors follows the errors of the calls explored: each must be known nil, or returned.
func (c *Check) trackErrors(s *State, e *Event, skip func(*Event) bool) {
	clean := func() {
		for _, v := range s.SetVals("errs") {
			if s.IsNil(v) {
				s.SetDel("errs", v)
			}
		}
	}
	switch {
	case e.Kind == EvCall && !e.Inlined && !e.IsDefer && e.Meth != nil:
		if v := s.errResult(e); v != nil && !skip(e) {
			c.site("errors followed", e)
			clean()
			s.SetAdd("errs", v)
		}
	case e.Kind == EvEdge && e.To.Dominates(e.From):
		clean()
	case rootExit(e):
		clean()
		c.site("returns checked", e)
		var ret *Val
		if n := len(e.Results); n > 0 && isErrorType(s.rootFn().Signature.Results().At(n-1).Type()) {
			ret = e.Results[n-1]
		}
		for _, v := range s.SetVals("errs") {
			if ret == nil || ret != v && !s.NonNil(ret) {
				s.Report("dropped", e, "the error %s is not returned", v)
			}
		}
	}
}

// regexpOf returns the regular expression of package variable v, if it is compiled from a constant.
func (p *Prog) regexpOf(v *Val) *regexp.Regexp {
	if v == nil || (v.Op != "gval" && v.Op != "global") || v.Glob == nil || v.Glob.Pkg == nil {
		return nil
	}
	init := v.Glob.Pkg.Func("init")
	if init == nil {
		return nil
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != v.Glob {
				continue
			}
			call, ok := st.Val.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) != 1 {
				continue
			}
			fn := call.Call.StaticCallee()
			k, ok := call.Call.Args[0].(*ssa.Const)
			if !ok || fn.Pkg == nil || fn.Pkg.Pkg.Path() != "regexp" || fn.Name() != "MustCompile" && fn.Name() != "MustCompilePOSIX" {
				continue
			}
			if k.Value != nil && k.Value.Kind() == constant.String {
				if re, err := regexp.Compile(constant.StringVal(k.Value)); err == nil {
					return re
				}
			}
		}
	}
	return nil
}

// submatches returns the least length of v, the non-nil result of FindSubmatch and the like or one of the matches
// found by FindAllSubmatch and the like, or -1.
func (s *State) submatches(v *Val) int {
	if len(v.Args) == 0 {
		return -1
	}
	call, n := v, -1
	switch {
	case isCallOf(v, "regexp", "FindSubmatch", "FindStringSubmatch"):
		if s.NonNil(v) {
			n = 1
		}
	case isCallOf(v, "regexp", "FindAll", "FindAllString", "FindAllIndex", "FindAllStringIndex", "FindAllSubmatch", "FindAllStringSubmatch"):
		if s.NonNil(v) {
			return 1 // there is no empty list of matches
		}
	case v.Op == "load" && v.Args[0].Op == "index&" && isCallOf(v.Args[0].Args[0], "regexp", "FindAllSubmatch", "FindAllStringSubmatch"):
		call, n = v.Args[0].Args[0], 1
	case v.Op == "load" && v.Args[0].Op == "index&" && isCallOf(v.Args[0].Args[0], "regexp", "FindAllIndex", "FindAllStringIndex"):
		return 2
	}
	if n < 0 || len(call.Args) == 0 {
		return -1
	}
	if re := s.run.P.regexpOf(call.Args[0].strip()); re != nil {
		return 1 + re.NumSubexp()
	}
	return -1
}

// --- C24 -----------------------------------------------------------------------------

func (c *Check) defaultDecoder() {
	x := c.newSio()
	if x == nil {
		return
	}
	p := c.P
	fAtt := fieldOfType(x.pkt, types.Typ[types.Int])
	fBuf := fieldOfType(x.pkt, types.NewSlice(bytesType))
	if fAtt == nil || fBuf == nil {
		c.undecided("the fields of Packet for attachments could not be identified")
		return
	}
	text := p.engineConst("MessageTypeString")
	for _, d := range x.decoders() {
		if d.pending == nil {
			continue
		}
		d := d
		c.adds(x, d, fAtt, fBuf, text)
		c.parses(x, d, fBuf)
		c.args(x, d)
		c.outlets(x, d)
	}
	c.need("frames added", 2)
	c.need("packets parsed", 1)
	c.need("attachments taken", 1)
}

// of reports whether v is a copy of part of x: a slice of it, or an element, or computed from these.
func derivedFrom(v, x *Val) bool {
	if v == nil || x == nil {
		return v != nil && v == x
	}
	seen := map[*Val]bool{}
	var visit func(v *Val) bool
	visit = func(v *Val) bool {
		if v == x {
			return true
		}
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		args := v.Args
		if v.Op == "call" && len(args) == 3 && v.Meth != nil && v.Meth.Pkg() != nil && v.Meth.Pkg().Path() == "regexp" && strings.HasPrefix(v.Meth.Name(), "Replace") {
			args = args[1:2] // not what it is replaced by
		}
		for _, a := range args {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

func (c *Check) adds(x *sio, d *decoder, fAtt, fBuf *types.Var, text int64) {
	p := c.P
	add := c.P.method(d.t, "Add")
	if add == nil {
		c.undecided("%s has no method Add", d.t)
		return
	}
	// the packet pending when Add is called
	old := func(s *State, v *Val) bool {
		f, b := fieldLoad(v)
		return f != nil && f == d.pending && b == s.Get("dec")
	}
	cfg := &Config{Name: "add", Bounds: true, Keep: x.keep}
	cfg.OnEvent = func(s *State, e *Event) {
		if !s.Flag("start") {
			s.SetFlag("start")
			fn := s.rootFn()
			for i, pr := range fn.Params {
				v := s.Stack[0].Env[pr]
				switch {
				case i == 0:
					s.Set("dec", v)
				case types.Identical(pr.Type(), c.P.engineType("MessageType")):
					s.Set("kind", v)
				case types.Identical(pr.Type(), bytesType):
					s.Set("frame", v)
				}
			}
		}
		c.digits(s, e)
		dec, frame := s.Get("dec"), s.Get("frame")
		if dec == nil || frame == nil || s.Get("kind") == nil {
			s.Report("shape", e, "the parameters of Add are not known")
			return
		}
		c.numberEnds(x, s, e, fAtt)
		switch e.Kind {
		case EvLoad:
			// what holds between frames: something is missing, and there is room for it
			if e.Addr.Op == "field&" && old(s, e.Addr.Args[0]) && e.Val != nil && e.Val.Op == "load" {
				switch e.Addr.Field {
				case fAtt:
					s.Set("missing", e.Val)
					s.addFact("lt", e.Val, s.run.intVal(1), false)
				case fBuf:
					s.Set("room", e.Val)
				}
				if m, b := s.Get("missing"), s.Get("room"); m != nil && b != nil {
					s.addFact("lt", s.run.lenOf(s, nil, "len", b, types.Typ[types.Int]), m, false)
				}
			}
		case EvStore:
			x.stored(s, e, d, fAtt, fBuf, old)
		}
		c.total(s, e)
		if (e.Kind == EvLoad || e.Kind == EvStore) && e.Addr.Op == "field&" && old(s, e.Addr.Args[0]) && !s.NonNil(e.Addr.Args[0]) {
			s.Report("nil", e, "the packet pending is used though there may be none")
		}
		c.trackErrors(s, e, x.infallible)
		if ch, v, ok := chanSend(e); ok {
			f, b := fieldLoad(ch)
			if f != d.packets || b != dec {
				s.Report("channel", e, "something is sent on another channel")
				return
			}
			s.Inc("sent")
			s.Set("out", v)
			if s.Int("sent") > 1 {
				s.Report("twice", e, "a second packet is handed out for one frame")
			}
		}
		if e.Kind == EvRecv || e.Kind == EvSelect && e.Chosen < 0 {
			s.Report("blocks", e, "decoding waits, or drops the packet")
		}
		if !rootExit(e) {
			return
		}
		c.site("frames added", e)
		sent := s.Int("sent") > 0
		now := s.fieldNow(dec, d.pending)
		if len(e.Results) == 0 {
			return
		}
		err := e.Results[len(e.Results)-1]
		if !s.IsNil(err) {
			if sent {
				s.Report("rejected", e, "a frame is rejected for which a packet was handed out")
			}
			if now != nil && !s.IsNil(now) && !old(s, now) {
				s.Report("rejected", e, "a rejected frame leaves a packet pending")
			}
			if s.Flag("filled") && !(now != nil && s.IsNil(now)) {
				s.Report("rejected", e, "a rejected frame becomes an attachment")
			}
			if s.NonNil(err) {
				return
			}
		}
		isText, known := s.Eq(s.Get("kind"), s.run.constVal(constInt(text), s.Get("kind").Typ))
		if !known {
			s.Report("kind", e, "a frame is accepted whatever its kind")
			return
		}
		var pk *Val
		if isText {
			pk = now
			if sent {
				pk = s.Get("out")
			}
			if pk == nil || pk.Op != "alloc" {
				s.Report("fresh", e, "a text frame is accepted without making a packet of its own")
				return
			}
			if s.Flag("filled") {
				s.Report("filled", e, "a text frame becomes an attachment")
			}
			if t := s.fieldNow(pk, x.fType); t == nil || !s.typeKnown(t, p.rootConst("PacketTypeBinaryAck")) {
				s.Report("type", e, "a packet of a type that may not exist is accepted")
			}
			att, buf := s.fieldOr0(pk, fAtt), s.fieldOr0(pk, fBuf)
			n := s.run.lenOf(s, nil, "len", buf, types.Typ[types.Int])
			if eq, k := s.Eq(att, n); !k || !eq {
				s.Report("placeholders", e, "a packet is accepted though the number of attachments announced may not be that of its placeholders")
			}
		} else {
			pk = s.Get("out")
			if pk == nil {
				pk = now
			}
			if pk != nil && pk.Op == "alloc" {
				s.Report("fresh", e, "a binary frame makes a packet")
				return
			}
			if !s.Flag("filled") || !s.Flag("counted") {
				s.Report("attachment", e, "a binary frame is accepted that does not become an attachment, or is not counted")
				return
			}
			if pk == nil {
				for _, v := range s.SetVals("pks") {
					pk = v
				}
			}
		}
		if pk == nil {
			s.Report("lost", e, "the packet is lost")
			return
		}
		missing := s.fieldOr0(pk, fAtt)
		if sent {
			if !s.Le(missing, s.run.intVal(0)) {
				s.Report("incomplete", e, "a packet is handed out while attachments may be missing")
			}
			if now == nil || !s.IsNil(now) {
				s.Report("handed", e, "a packet that is handed out stays pending")
			}
		} else {
			if eq, k := s.Eq(missing, s.run.intVal(0)); (!k || eq) && !s.Le(s.run.intVal(1), missing) {
				s.Report("held", e, "a complete packet is held back")
			}
			if now != nil && s.IsNil(now) {
				s.Report("lost", e, "the packet is lost")
			}
		}
	}
	c.explore(cfg, []*ssa.Function{add}, nil)
}

// fieldOr0 returns what field f of the packet at ptr holds: if it was not written, zero, or what it held between frames.
func (s *State) fieldOr0(ptr *Val, f *types.Var) *Val {
	if v := s.fieldNow(ptr, f); v != nil {
		return v
	}
	if ptr.Op == "alloc" {
		return s.run.zero(f.Type())
	}
	if types.Identical(f.Type(), types.Typ[types.Int]) {
		return s.Get("missing")
	}
	return s.Get("room")
}

// typeKnown reports whether v is known to be at most last.
func (s *State) typeKnown(v *Val, last int64) bool {
	if s.Le(v, s.run.constVal(constInt(last), v.Typ)) {
		return true
	}
	for _, k := range sortedKeys(s.Facts) {
		f := s.Facts[k]
		if f.op != "eq" || !f.val {
			continue
		}
		for _, p := range [][2]*Val{{f.a, f.b}, {f.b, f.a}} {
			if n, ok := p[1].int64(); ok && p[0] == v && n >= 0 && n <= last {
				return true
			}
		}
	}
	// '0' <= b && b <= '0'+last
	x, off := v, int64(0)
	for {
		if x.Op == "conv" && isIntVal(x.Args[0]) {
			x = x.Args[0]
			continue
		}
		if x.Op == "bin" && token.Token(x.Idx) == token.SUB && off == 0 {
			if n, ok := x.Args[1].int64(); ok {
				x, off = x.Args[0], n
				continue
			}
		}
		break
	}
	l, h := s.interval(x, 0)
	return l >= off && h <= off+last
}

// stored checks what is written to the fields of packets.
func (x *sio) stored(s *State, e *Event, d *decoder, fAtt, fBuf *types.Var, old func(*State, *Val) bool) {
	c := x.c
	a := e.Addr
	switch {
	case a.Op == "field&" && a.Field == fAtt:
		v := e.Val
		if e.Sum != nil {
			v = e.Sum
		}
		if old(s, a.Args[0]) {
			m := s.Get("missing")
			l, ok := linearOf(v, func(y *Val) bool { return y == m })
			if s.Flag("counted") || m == nil || !ok || l.a != 1 || l.b != 0 || l.k != -1 {
				s.Report("count", e, "the number of attachments missing becomes %s", v)
			}
			s.SetFlag("counted")
			s.SetAdd("pks", a.Args[0])
			return
		}
		c.site("numbers of attachments read", e)
		if !x.decimal(s, v, s.fieldOr0(a.Args[0], fAtt)) {
			s.Report("announced", e, "the number of attachments becomes %s, which is not read from the frame digit by digit", v)
		}
	case a.Op == "field&" && a.Field == fBuf:
		if old(s, a.Args[0]) {
			s.Report("attachments", e, "the attachments of a packet are replaced")
			return
		}
		if v := e.Val; !s.IsNil(v) && !(v.Op == "make" && s.placeholders(v)) {
			s.Report("placeholders", e, "the attachments become %s, not one for each placeholder", v)
		}
	case a.Op == "index&" && a.Args[0].Typ != nil && types.Identical(a.Args[0].Typ.Underlying(), types.NewSlice(bytesType)):
		b := s.Get("room")
		if f, pk := fieldLoad(a.Args[0]); b == nil || a.Args[0] != b || f != fBuf || !old(s, pk) {
			return
		}
		m := s.Get("missing")
		n := s.run.lenOf(s, nil, "len", b, types.Typ[types.Int])
		l, ok := linearOf(a.Args[1], func(y *Val) bool { return y == n }, func(y *Val) bool { return y == m })
		if s.Flag("filled") || !ok || l.a != 1 || l.b != -1 || l.k != 0 {
			s.Report("order", e, "a frame becomes attachment %s", a.Args[1])
		}
		if e.Val != s.Get("frame") {
			s.Report("attachment", e, "%s becomes an attachment, not the frame", e.Val)
		}
		s.SetFlag("filled")
		s.SetAdd("pks", fieldBase(a.Args[0]))
	}
}

func fieldBase(v *Val) *Val {
	_, b := fieldLoad(v)
	return b
}

type lin struct{ a, b, k int64 }

// linearOf writes v as a*x + b*y + k.
func linearOf(v *Val, is ...func(*Val) bool) (l lin, ok bool) {
	for i, f := range is {
		if f(v) {
			if i == 0 {
				return lin{a: 1}, true
			}
			return lin{b: 1}, true
		}
	}
	if n, k := v.int64(); k {
		return lin{k: n}, true
	}
	if v.Op != "bin" {
		return
	}
	p, okp := linearOf(v.Args[0], is...)
	q, okq := linearOf(v.Args[1], is...)
	if !okp || !okq {
		return
	}
	switch token.Token(v.Idx) {
	case token.ADD:
		return lin{p.a + q.a, p.b + q.b, p.k + q.k}, true
	case token.SUB:
		return lin{p.a - q.a, p.b - q.b, p.k - q.k}, true
	}
	return
}

// decimal reports whether v is read from the frame as a decimal number.
func (x *sio) decimal(s *State, v, old *Val) bool {
	frame := s.Get("frame")
	for v.Op == "conv" {
		v = v.Args[0]
	}
	if n, ok := v.int64(); ok {
		return n == 0
	}
	if v.Op == "ext" && v.Idx == 0 && isCallOf(v.Args[0], "strconv", "Atoi", "ParseUint", "ParseInt") {
		call := v.Args[0]
		if call.Meth.Name() != "Atoi" {
			if n, ok := call.Args[1].int64(); !ok || n != 10 {
				return false
			}
		}
		return s.IsNil(s.resOf(call, 1)) && derivedFrom(call.Args[0], frame)
	}
	if v.Op == "phi" || v.Op == "acc" {
		if ph, ok := v.Instr.(*ssa.Phi); ok {
			return decimalPhi(ph)
		}
	}
	digit := func(d *Val) bool {
		lo, hi := s.interval(d, 0)
		return lo >= 0 && hi <= 9 && derivedFrom(d, frame)
	}
	if n, ok := old.int64(); ok && n == 0 && digit(v) { // the first digit
		return true
	}
	if v.Op != "bin" || token.Token(v.Idx) != token.ADD {
		return false
	}
	m, dg := v.Args[0], v.Args[1]
	if !(m.Op == "bin" && token.Token(m.Idx) == token.MUL) {
		m, dg = dg, m
	}
	if !(m.Op == "bin" && token.Token(m.Idx) == token.MUL) {
		return false
	}
	o, ten := m.Args[0], m.Args[1]
	if o.isConst() {
		o, ten = ten, o
	}
	if n, ok := ten.int64(); !ok || n != 10 {
		return false
	}
	return digit(dg)
}

// digits checks that what a loop variable gathers as a decimal number are digits.
func (c *Check) digits(s *State, e *Event) {
	if e.Kind != EvEdge {
		return
	}
	for i, b := range e.To.Preds {
		if b != e.From {
			continue
		}
		for _, in := range e.To.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := s.run.val(s, ph.Edges[i])
			if v == nil || !isIntVal(v) {
				continue
			}
			d, sofar := v, (*Val)(nil)
			if v.Op == "bin" && token.Token(v.Idx) == token.ADD {
				mul := func(w *Val) bool { return w.Op == "bin" && token.Token(w.Idx) == token.MUL }
				switch {
				case mul(v.Args[0]):
					d, sofar = v.Args[1], v.Args[0]
				case mul(v.Args[1]):
					d, sofar = v.Args[0], v.Args[1]
				}
			}
			last := d
			for d.Op == "conv" {
				d = d.Args[0]
			}
			if d.Op != "bin" || token.Token(d.Idx) != token.SUB {
				continue
			}
			if n, ok := d.Args[1].int64(); !ok || n != '0' {
				continue
			}
			c.site("digits gathered", e)
			s.SetFlag("gathered")
			s.Del("large")
			if lo, _ := s.interval(v, 0); lo >= 1<<20 {
				s.SetFlag("large")
			}
			if lo, hi := s.interval(d, 0); lo < 0 || hi > 9 {
				s.Report("digits", e, "something else than a digit may be taken for one")
			}
			if b, ok := v.Typ.Underlying().(*types.Basic); ok && sofar != nil && b.Info()&types.IsUnsigned != 0 {
				for i, k := range sofar.Args {
					if isNum(k, 10) && !s.fits(v, sofar.Args[1-i], last) {
						s.Report("overflow", e, "a number that is too large may be taken for another")
					}
				}
			}
		}
	}
}

// fits reports whether v, which is ten times o plus digit d, is known not to overflow its unsigned type.
func (s *State) fits(v, o, d *Val) bool {
	_, h := s.interval(o, 0)
	if h <= (maxInf-9)/10 {
		_, th := typeRange(v.Typ, s.run.P)
		if th >= maxInf || h <= (th-9)/10 {
			return true
		}
	}
	if b := v.Typ.Underlying().(*types.Basic); b.Kind() != types.Uint64 && b.Kind() != types.Uint && b.Kind() != types.Uintptr {
		return false
	}
	var most uint64 = math.MaxUint64
	if b := v.Typ.Underlying().(*types.Basic); b.Kind() != types.Uint64 && s.run.P.wordSize() == 4 {
		most = math.MaxUint32
	}
	num := func(v *Val) (uint64, bool) {
		if v == nil || !v.isConst() || v.isNil() || v.C == nil || v.C.Kind() != constant.Int {
			return 0, false
		}
		return constant.Uint64Val(v.C)
	}
	bound := func(x *Val, strict bool) bool {
		if k, ok := num(x); ok {
			if strict {
				if k == 0 {
					return true
				}
				k--
			}
			if k <= (most-9)/10 {
				return true
			}
			_, hd := s.interval(plain(d), 0)
			if _, h := s.interval(d, 0); h < hd {
				hd = h
			}
			if hd >= 0 && hd <= 9 && k <= (most-uint64(hd))/10 {
				return true
			}
			if k == most/10 {
				eq, known := s.Eq(o, x)
				return known && !eq
			}
			return false
		}
		x = plain(x)
		if x.Op != "bin" || token.Token(x.Idx) != token.QUO || !isNum(x.Args[1], 10) {
			return false
		}
		n := plain(x.Args[0])
		if n.Op != "bin" || token.Token(n.Idx) != token.SUB || plain(n.Args[1]) != plain(d) {
			return false
		}
		k, ok := num(n.Args[0])
		return ok && k <= most
	}
	for _, k := range sortedKeys(s.Facts) {
		switch f := s.Facts[k]; f.op {
		case "lt":
			if f.b == o && !f.val && bound(f.a, false) || f.a == o && f.val && bound(f.b, true) {
				return true
			}
		case "eq":
			// undone, it gives what there was
			for _, p := range [][2]*Val{{f.a, f.b}, {f.b, f.a}} {
				if f.val && p[0] == o && p[1].isConst() && bound(p[1], false) {
					return true
				}
				if x := p[1]; f.val && p[0] == o && x.Op == "bin" && token.Token(x.Idx) == token.QUO && x.Args[0] == v {
					return true
				}
			}
		}
	}
	return false
}

// notDigit reports whether byte b is known to be no decimal digit.
func (s *State) notDigit(b *Val) bool {
	for n := int64('0'); n <= '9'; n++ {
		if eq, k := s.Eq(b, s.run.constVal(constInt(n), b.Typ)); !k || eq {
			return s.overNine(b)
		}
	}
	return true
}

// overNine reports whether b less '0', as a byte, is known to be more than nine.
func (s *State) overNine(b *Val) bool {
	for _, k := range sortedKeys(s.Facts) {
		for _, v := range []*Val{s.Facts[k].a, s.Facts[k].b} {
			if x := plain(v); x != nil && x.Op == "bin" && token.Token(x.Idx) == token.SUB && plain(x.Args[0]) == b && isNum(x.Args[1], '0') {
				if lt, k := s.Lt(s.run.constVal(constInt(9), v.Typ), v); k && lt {
					return true
				}
			}
		}
	}
	return false
}

// numberEnds: the numbers a text frame has end only where the next byte is no digit; so a frame is refused for a
// character of a number only if that is no digit, or the number is too large.
func (c *Check) numberEnds(x *sio, s *State, e *Event, fAtt *types.Var) {
	frame := s.Get("frame")
	if frame == nil {
		return
	}
	last := s.Get("lastbyte")
	dash := func() bool {
		if last != nil {
			if eq, k := s.Eq(last, s.run.constVal(constInt('-'), last.Typ)); k && eq {
				return true
			}
		}
		return s.Flag("dash")
	}
	ended := func() bool {
		return last == nil || s.notDigit(last) || s.Flag("atend") || s.Flag("large")
	}
	switch {
	case e.Kind == EvEdge && e.To.Dominates(e.From):
		s.Del("atend")
	case e.Kind == EvAssume && e.Val != nil && e.Val.Op == "bin":
		// the end of the frame, or of what a number may be
		switch token.Token(e.Val.Idx) {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			for _, a := range e.Val.Args {
				if l := plain(a); l.Op == "len" && derivedFrom(l, frame) && s.Le(a, other(e.Val, a)) || isLarge(a) || e.Val.Op == "bin" && l.Op == "bin" && token.Token(l.Idx) == token.QUO && isNum(l.Args[1], 10) {
					s.SetFlag("atend")
				}
			}
		}
	case e.Kind == EvLoad && e.Val != nil && e.Addr.Op == "index&" && isByteVal(e.Val) && derivedFrom(e.Addr, frame):
		if dash() && !s.Flag("dash") {
			s.SetFlag("dash")
			s.Del("gathered")
		}
		if last != nil && s.notDigit(last) {
			// the number has ended: what follows is something else
			s.Del("gathered")
		}
		if !isZero(e.Addr.Args[1]) || e.Addr.Args[0] != frame {
			if e.Val != last {
				s.Del("atend")
			}
			s.Set("lastbyte", e.Val)
		}
	case e.Kind == EvStore && e.Addr.Op == "field&" && e.Addr.Field == fAtt && e.Sum != nil && last != nil && derivedFrom(e.Sum, last):
		s.SetFlag("gathered")
	case e.Kind == EvStore && e.Addr.Op == "field&" && e.Addr.Field == x.fID && !s.IsNil(e.Val) && s.Flag("gathered"):
		c.site("ends of ids", e)
		if !ended() {
			s.Report("number-end", e, "the id of a packet ends though another digit may follow")
		}
		s.Del("gathered")
	case rootExit(e) && len(e.Results) > 0 && s.NonNil(e.Results[len(e.Results)-1]) && s.Flag("gathered") && !dash():
		c.site("numbers refused", e)
		if !ended() {
			s.Report("number-end", e, "a frame is refused for a character that may be a digit of a number")
		}
	}
}

// isLarge reports whether v is computed from a large constant.
func isLarge(v *Val) bool {
	big := constant.MakeInt64(1 << 20)
	return v != nil && v.find(func(x *Val) bool {
		return x.isConst() && !x.isNil() && x.C != nil && x.C.Kind() == constant.Int && constant.Compare(x.C, token.GEQ, big)
	}) != nil
}

func other(v, a *Val) *Val {
	if v.Args[0] == a {
		return v.Args[1]
	}
	return v.Args[0]
}

func isByteVal(v *Val) bool {
	b, ok := v.Typ.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// decimalPhi reports whether loop variable ph accumulates decimal digits.
func decimalPhi(ph *ssa.Phi) bool {
	steps := 0
	for _, ed := range ph.Edges {
		if k, ok := ed.(*ssa.Const); ok {
			if k.Value == nil || k.Int64() != 0 {
				return false
			}
			continue
		}
		if ed == ph {
			continue
		}
		a, ok := ed.(*ssa.BinOp)
		if !ok || a.Op != token.ADD {
			return false
		}
		for _, o := range []ssa.Value{a.X, a.Y} {
			if m, ok := o.(*ssa.BinOp); ok && m.Op == token.MUL {
				k, ok := m.Y.(*ssa.Const)
				if ok && m.X == ssa.Value(ph) && k.Int64() == 10 {
					steps++
				}
			}
		}
	}
	return steps > 0
}

// placeholders reports whether the length of v, which was made, is the number of matches of a regular expression in the frame.
func (s *State) placeholders(v *Val) bool {
	n := s.run.lenOf(s, nil, "len", v, types.Typ[types.Int])
	return n.Op == "len" && isCallOf(n.Args[0], "regexp", "FindAllSubmatch", "FindAll", "FindAllIndex", "FindAllSubmatchIndex") && s.allMatches(n.Args[0])
}

func (s *State) allMatches(call *Val) bool {
	a := call.Args[len(call.Args)-1]
	n, ok := a.int64()
	return ok && n < 0 && derivedFrom(call, s.Get("frame")) && s.run.P.regexpOf(call.Args[0].strip()) != nil
}

// parses checks ParseData: what it makes of a packet comes from that packet.
func (c *Check) parses(x *sio, d *decoder, fBuf *types.Var) {
	m := c.P.method(d.t, "ParseData")
	if m == nil {
		c.undecided("%s has no method ParseData", d.t)
		return
	}
	cfg := &Config{Name: "parse", Bounds: true, Depth: 40, Keep: x.keep}
	cfg.OnEvent = func(s *State, e *Event) {
		if !s.Flag("start") {
			s.SetFlag("start")
			for pr, v := range s.Stack[0].Env {
				if _, ok := pr.(*ssa.Parameter); ok && types.Identical(deref(pr.Type()), x.pkt) {
					s.Set("pk", v)
				}
			}
		}
		pk := s.Get("pk")
		if pk == nil {
			s.Report("shape", e, "the parameter of ParseData is not known")
			return
		}
		if e.Kind == EvLoad && e.Addr.Op == "field&" && e.Addr.Args[0] == pk {
			switch e.Addr.Field {
			case x.fType:
				s.Set("pk.Type", e.Val)
			case x.fData:
				s.Set("pk.Data", e.Val)
			}
		}
		c.total(s, e)
		c.trackErrors(s, e, x.infallible)
		if e.Kind == EvCall && pkgCall(e, "encoding/json") && e.Name() == "Unmarshal" && len(e.Args) == 2 && s.Get("pk.Data") != nil && derivedFrom(e.Args[0], s.Get("pk.Data")) {
			s.Set("into", e.Args[1].strip())
		}
		if !rootExit(e) || len(e.Results) != 4 {
			return
		}
		if err := e.Results[3]; !s.IsNil(err) && s.NonNil(err) {
			return
		}
		c.site("packets parsed", e)
		event, data, bin := e.Results[0], e.Results[1], e.Results[2]
		typ, src := s.Get("pk.Type"), s.Get("pk.Data")
		for _, n := range []string{"Event", "BinaryEvent", "Ack", "BinaryAck"} {
			if typ != nil {
				if eq, k := s.Eq(typ, s.run.constVal(constInt(c.P.rootConst("PacketType"+n)), typ.Typ)); k && !eq {
					continue
				}
			}
			binary, ev := n[0] == 'B', n[len(n)-1] == 't'
			if binary && fBuf != nil && !isFieldOf(bin, pk, fBuf) {
				s.Report("attachments", e, "the attachments of a packet of type %s become %s", n, bin)
			}
			from := func(v *Val) bool { return src != nil && derivedFrom(v, src) }
			if into := s.Get("into"); into != nil && event.strip().Op == "load" && event.strip().Args[0] == into {
				from = func(*Val) bool { return true } // decoded from it
			}
			if ev && !from(event) {
				s.Report("event", e, "the event of a packet of type %s becomes %s", n, event)
			}
			if src == nil || !derivedFrom(data, src) {
				s.Report("data", e, "the data of a packet of type %s become %s", n, data)
			}
		}
	}
	c.explore(cfg, []*ssa.Function{m}, nil)
}

// args checks UnmarshalArgs: attachments go to the arguments that take them, in order.
func (c *Check) args(x *sio, d *decoder) {
	m := c.P.method(d.t, "UnmarshalArgs")
	if m == nil {
		c.undecided("%s has no method UnmarshalArgs", d.t)
		return
	}
	cur := cursor{"bins"}
	cfg := &Config{Name: "arguments", Bounds: true, Depth: 40, Keep: x.keep}
	cfg.OnEvent = func(s *State, e *Event) {
		if !s.Flag("start") {
			s.SetFlag("start")
			for pr, v := range s.Stack[0].Env {
				if _, ok := pr.(*ssa.Parameter); ok && types.Identical(pr.Type(), types.NewSlice(bytesType)) {
					cur.start(s, v)
				}
			}
			if !cur.active(s) {
				s.Report("shape", e, "the parameters of UnmarshalArgs are not known")
				return
			}
		}
		cur.edge(s, e)
		c.total(s, e)
		c.trackErrors(s, e, x.infallible)
		if e.Kind == EvCall && e.Name() == "UnmarshalBinary" && !e.Inlined {
			c.site("attachments taken", e)
			if len(e.Args) != 1 || !cur.visit(s, e.Args[0]) {
				s.Report("order", e, "an argument takes an attachment that is not the next one")
			}
		}
	}
	c.explore(cfg, []*ssa.Function{m}, nil)
}

// outlets checks that decoded packets find room, and are handed out by Decoded.
func (c *Check) outlets(x *sio, d *decoder) {
	if m := c.P.method(d.t, "Decoded"); m != nil {
		c.explore(&Config{Name: "outlet", OnEvent: func(s *State, e *Event) {
			if rootExit(e) {
				c.site("outlets", e)
				v := e.Results[0].strip()
				for v.Op == "conv" {
					v = v.Args[0]
				}
				if f, _ := fieldLoad(v); f != d.packets {
					s.Report("channel", e, "Decoded returns %s", v)
				}
			}
		}}, []*ssa.Function{m}, nil)
	}
	c.explore(&Config{Name: "constructors", Depth: 40, OnEvent: func(s *State, e *Event) {
		if !rootExit(e) || len(e.Results) != 1 {
			return
		}
		v := e.Results[0].strip()
		for v.Op == "conv" || v.Op == "iface" {
			v = v.Args[0].strip()
		}
		if v.Typ == nil || !types.Identical(deref(v.Typ), d.t) {
			return
		}
		c.site("decoders made", e)
		ch := s.fieldNow(v, d.packets)
		if v.Op != "alloc" || ch == nil || ch.Op != "make" {
			s.Report("shared", e, "a decoder is handed out that has no channel of its own")
			return
		}
		if lo, _ := s.interval(ch.Args[0], 0); lo < 1 {
			s.Report("capacity", e, "the channel of a decoder has no room for a packet: adding it blocks")
		}
	}}, c.P.impls(c.P.rootType("Parser"), "Decoder"), nil)
}

// --- C25 -----------------------------------------------------------------------------

// walkers are the functions of msgp that call themselves as deep as the data they get is nested.
func (p *Prog) walkers() map[*types.Func]bool {
	if p.Msgp == nil {
		return nil
	}
	succ := map[*types.Func][]*types.Func{}
	for _, f := range p.Msgp.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			from, ok := p.Msgp.TypesInfo.Defs[fd.Name].(*types.Func)
			if !ok {
				continue
			}
			succ[from] = nil
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if to, ok := p.Msgp.TypesInfo.Uses[id].(*types.Func); ok && to.Pkg() == p.Msgp.Types {
						succ[from] = append(succ[from], to)
					}
				}
				return true
			})
		}
	}
	reach := func(from, to *types.Func) bool {
		seen := map[*types.Func]bool{}
		var dfs func(f *types.Func) bool
		dfs = func(f *types.Func) bool {
			for _, g := range succ[f] {
				if g == to {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if dfs(g) {
						return true
					}
				}
			}
			return false
		}
		return dfs(from)
	}
	rec := map[*types.Func]bool{}
	for f := range succ {
		if reach(f, f) {
			rec[f] = true
		}
	}
	w := map[*types.Func]bool{}
	for f := range succ {
		w[f] = rec[f]
		for g := range rec {
			w[f] = w[f] || reach(f, g)
		}
	}
	return w
}

// depthGuard reports whether fn walks over msgpack data, without recursion, and compares the nesting with a constant.
func (c *Check) depthGuard(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || !c.P.inModule(fn) {
		return false
	}
	data, errs := false, fn.Signature.Results().Len() > 0 && isErrorType(fn.Signature.Results().At(fn.Signature.Results().Len()-1).Type())
	for _, pr := range fn.Params {
		data = data || types.Identical(pr.Type(), bytesType)
	}
	for i := 0; i < fn.Signature.Results().Len()-1; i++ {
		switch r := fn.Signature.Results().At(i).Type(); r.Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			if !types.Identical(r, bytesType) {
				return false
			}
		default:
			// what it returns is decoded
			return false
		}
	}
	if !data || !errs {
		return false
	}
	arr, mp, limit := false, false, false
	seen, open := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if c.P.decodesInto(f) {
			return false
		}
		seen[f], open[f] = true, true
		defer delete(open, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					if g == nil {
						continue
					}
					if open[g] {
						return false
					}
					if g.Pkg != nil && g.Pkg.Pkg.Path() == msgpPath {
						arr = arr || g.Name() == "ReadArrayHeaderBytes"
						mp = mp || g.Name() == "ReadMapHeaderBytes"
					}
					if c.P.inModule(g) && !seen[g] && !visit(g) {
						return false
					}
				case *ssa.BinOp:
					switch in.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ:
						for _, o := range []ssa.Value{in.X, in.Y} {
							if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Int64() > 0 && k.Int64() <= 1<<17 {
								limit = true
							}
						}
					}
				}
			}
		}
		return true
	}
	return visit(fn) && arr && mp && limit
}

// under returns the array a slice is of.
func under(v *Val) *Val {
	for v != nil && v.Op == "slice" && (v.Args[1] == nil || isZero(v.Args[1])) {
		v = v.Args[0]
	}
	return v
}

func isNum(v *Val, n int64) bool { m, ok := v.int64(); return ok && m == n }

// plain undoes conversions.
func plain(v *Val) *Val {
	for v != nil && v.Op == "conv" {
		v = v.Args[0]
	}
	return v
}

// levels: where a depth guard keeps the numbers of objects left at each level in a slice, a level is left only when
// none is, and every non-empty list or map opens one with the number of objects it announces.
func (c *Check) levels(s *State, e *Event) {
	stack := func(t types.Type) bool {
		if t == nil {
			return false
		}
		var el types.Type
		if sl, ok := t.Underlying().(*types.Slice); ok {
			el = sl.Elem()
		} else if at, ok := deref(t).Underlying().(*types.Array); ok {
			el = at.Elem()
		} else {
			return false
		}
		b, ok := el.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Byte
	}
	settle := func() {
		h := s.Get("header")
		if h == nil {
			return
		}
		for _, n := range s.SetVals("opened") {
			for n.Op == "conv" {
				n = n.Args[0]
			}
			if s.Flag("map") {
				if n.Op == "bin" && (token.Token(n.Idx) == token.MUL && (plain(n.Args[0]) == h && isNum(n.Args[1], 2) || plain(n.Args[1]) == h && isNum(n.Args[0], 2)) ||
					token.Token(n.Idx) == token.ADD && plain(n.Args[0]) == h && plain(n.Args[1]) == h || token.Token(n.Idx) == token.SHL && plain(n.Args[0]) == h && isNum(n.Args[1], 1)) {
					return
				}
			} else if n == h {
				return
			}
		}
		if s.zeroOf(h) {
			return
		}
		s.Report("levels", e, "the objects of a list or map are not counted as those of a level of their own")
	}
	switch {
	case isAppend(e) && stack(e.Args[0].Typ):
		_, els, _ := s.appended(e)
		for _, v := range els {
			if v != nil {
				s.SetAdd("opened", v)
			}
		}
	case e.Kind == EvLoad && e.Addr.Op == "index&" && stack(e.Addr.Args[0].Typ):
		s.Set("top", e.Val)
		s.Set("topat", e.Addr)
	case e.Kind == EvStore && e.Addr.Op == "index&" && stack(e.Addr.Args[0].Typ):
		s.Del("top")
	case e.Kind == EvSlice && isSliceOrMap(e.Args[0].Typ) && stack(e.Args[0].Typ) && len(e.Args) > 2 && e.Args[2] != nil:
		c.site("levels left", e)
		top, at := s.Get("top"), s.Get("topat")
		n, k := s.num(top)
		if top == nil || !k || n != 0 || at.Args[0] != under(e.Args[0]) || at.Args[1] != e.Args[2] {
			s.Report("levels", e, "a level is left though objects of it may be left to read")
		}
	case e.Kind == EvCall && e.Meth != nil && !e.Inlined && e.Meth.Pkg() != nil && e.Meth.Pkg().Path() == msgpPath:
		if h := s.Get("header"); h != nil && strings.HasPrefix(e.Name(), "NextType") {
			if !s.zeroOf(h) {
				c.nested = true
			}
		}
		settle()
		s.Del("header")
		s.Del("map")
		s.DelPrefix("opened")
		if n := e.Meth.Name(); n == "ReadArrayHeaderBytes" || n == "ReadMapHeaderBytes" {
			s.Set("header", s.res(e, 0))
			if n == "ReadMapHeaderBytes" {
				s.SetFlag("map")
			}
		}
	case rootExit(e) && len(e.Results) == 1 && !s.NonNil(e.Results[0]):
		settle()
	}
}

// zeroOf reports whether the number h, or something computed of it, is known to be zero.
func (s *State) zeroOf(h *Val) bool {
	if n, k := s.num(h); k && n == 0 {
		return true
	}
	for _, f := range s.Facts {
		for _, v := range []*Val{f.a, f.b} {
			if v != nil && v.find(func(x *Val) bool { return x == h }) != nil {
				if n, k := s.num(v); k && n == 0 {
					return true
				}
			}
		}
	}
	return false
}

func (c *Check) msgpackDecoder() {
	x := c.newSio()
	if x == nil {
		return
	}
	p := c.P
	walk := p.walkers()
	if len(walk) == 0 {
		c.undecided("the functions of msgp were not found")
		return
	}
	str := p.engineConst("MessageTypeString")
	guards := map[*ssa.Function]bool{}
	for _, d := range x.decoders() {
		if d.pending != nil {
			continue
		}
		d := d
		var roots []*ssa.Function
		for _, n := range []string{"Add", "ParseData", "UnmarshalArgs"} {
			m := p.method(d.t, n)
			if m == nil {
				c.undecided("%s has no method %s", d.t, n)
				return
			}
			roots = append(roots, m)
		}
		if m := p.method(x.pkt, "DecodeMsg"); m != nil {
			roots = append(roots, m)
		}
		cfg := &Config{Name: "msgpack", Bounds: true, Depth: 40, Keep: x.keep}
		cfg.Opaque = func(fn *ssa.Function, meth *types.Func, recv types.Type) bool {
			if fn == nil {
				return false
			}
			if _, ok := guards[fn]; !ok {
				guards[fn] = c.depthGuard(fn)
			}
			return guards[fn] || p.decodesInto(fn)
		}
		for _, fn := range p.Funcs { // explored on their own, with a pointer
			if p.decodesInto(fn) && fn.Pkg != nil && fn.Pkg.Pkg == p.Root {
				for _, pr := range fn.Params {
					if types.Identical(pr.Type(), bytesType) {
						roots = append(roots, fn)
						break
					}
				}
			}
		}
		cfg.OnEvent = func(s *State, e *Event) { c.msgpackRules(x, d, s, e, walk, guards, str) }
		c.explore(cfg, roots, nil)
		for _, fn := range p.Funcs {
			if ok, listed := c.listed[fn]; listed && !ok {
				c.fail("elements", p.pos(fn.Pos()), fn.Name()+" accepts no list, map or packet that has elements")
			}
		}
		var gs []*ssa.Function
		for _, fn := range c.P.Funcs {
			if guards[fn] {
				gs = append(gs, fn)
			}
		}
		gcfg := *cfg
		gcfg.Name, gcfg.Opaque = "guards", func(fn *ssa.Function, meth *types.Func, recv types.Type) bool { return p.decodesInto(fn) }
		gcfg.OnEvent = c.levels
		c.nested = len(gs) == 0
		c.explore(&gcfg, gs, nil)
		if !c.nested {
			c.fail("levels", p.pos(gs[0].Pos()), "no list or map that has elements is let through")
		}
		c.parses(x, d, nil)
		c.outlets(x, d)
	}
	c.need("returns checked", 4)
	c.need("errors followed", 10)
	c.need("lists and maps decoded", 1)
}

// decodesInto reports whether fn decodes data into a reflect.Value it is given, and is where the recursion over values is entered.
func (p *Prog) decodesInto(fn *ssa.Function) bool {
	if r, ok := p.into[fn]; ok {
		return r
	}
	v, d := false, false
	for _, pr := range fn.Params {
		v = v || isNamed(pr.Type(), "reflect", "Value")
		d = d || types.Identical(pr.Type(), bytesType)
	}
	r := false
	if v && d && p.inModule(fn) {
		down := p.below(fn)
		for _, f := range p.Funcs {
			if !down[f] && f != fn && p.calls(f)[fn] {
				r = true
			}
		}
	}
	if p.into == nil {
		p.into = map[*ssa.Function]bool{}
	}
	p.into[fn] = r
	return r
}

// calls returns the functions of the module fn calls itself.
func (p *Prog) calls(fn *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && p.inModule(g) {
					r[g] = true
				}
			}
		}
	}
	return r
}

// below returns the functions of the module fn calls, directly or not.
func (p *Prog) below(fn *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for g := range p.calls(f) {
			if !r[g] {
				r[g] = true
				visit(g)
			}
		}
	}
	visit(fn)
	return r
}

// whole undoes the splitting of a struct into its fields.
func whole(v *Val) *Val {
	v = v.strip()
	if v == nil || v.Op != "struct" || len(v.Args) == 0 || v.Args[0] == nil || v.Args[0].Op != "field" {
		return v
	}
	b := v.Args[0].Args[0]
	for i, a := range v.Args {
		if a == nil || a.Op != "field" || a.Idx != i || a.Args[0] != b {
			return v
		}
	}
	return b
}

// sources lists where slice v of frame f comes from: parameters of the function explored, and values not followed.
func sources(f *Frame, v ssa.Value) (out []ssa.Value) {
	type at struct {
		f *Frame
		v ssa.Value
	}
	seen := map[at]bool{}
	var visit func(f *Frame, v ssa.Value)
	visit = func(f *Frame, v ssa.Value) {
		if seen[at{f, v}] {
			return
		}
		seen[at{f, v}] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(f, e)
			}
		case *ssa.Extract:
			visit(f, x.Tuple)
		case *ssa.Slice:
			visit(f, x.X)
		case *ssa.ChangeType:
			visit(f, x.X)
		case *ssa.Call: // what is left of the data given
			n := 0
			for _, a := range x.Call.Args {
				if types.Identical(a.Type(), bytesType) {
					n++
					visit(f, a)
				}
			}
			if n == 0 {
				out = append(out, v)
			}
		case *ssa.Const:
		case *ssa.Parameter:
			if f.Parent == nil || f.Site == nil {
				out = append(out, v)
				return
			}
			ci, ok := f.Site.(ssa.CallInstruction)
			for i, p := range f.Fn.Params {
				if p == x && ok && !ci.Common().IsInvoke() && i < len(ci.Common().Args) {
					visit(f.Parent, ci.Common().Args[i])
					return
				}
			}
			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	visit(f, v)
	return
}

// given reports whether all data of argument i of call e come from a parameter of the function explored.
func given(s *State, e *Event, arg *Val) bool {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	found := false
	for _, a := range ci.Common().Args {
		if s.run.val(s, a) != arg {
			continue
		}
		for _, src := range sources(s.top().F, a) {
			p, ok := src.(*ssa.Parameter)
			if !ok || !types.Identical(p.Type(), bytesType) {
				return false
			}
		}
		found = true
	}
	return found
}

// kind reports whether reflect.Value or reflect.Type v is known to be of one of the kinds.
func (s *State) kind(v *Val, kinds ...reflect.Kind) bool {
	is := func(k *Val) bool {
		for _, w := range kinds {
			if eq, known := s.Eq(k, s.run.constVal(constInt(int64(w)), k.Typ)); known && eq {
				return true
			}
		}
		return false
	}
	v = whole(v)
	for _, pr := range s.SetVals("kinds") {
		if whole(pr.Args[0]) == v && is(pr.Args[1]) {
			return true
		}
	}
	if isCallOf(v, "reflect", "Type") && len(v.Args) == 1 { // of a value
		return s.kind(v.Args[0], kinds...)
	}
	return false
}

// pointer reports whether reflect.Value v is a pointer that is not nil.
func (s *State) pointer(v *Val) bool {
	v = whole(v)
	if v.Op == "param" && s.run.P.decodesInto(s.rootFn()) {
		return true
	}
	return isCallOf(v, "reflect", "New", "Addr") || s.kind(v, reflect.Ptr)
}

// elements checks that a list or map is accepted only if as many elements as its header announces were decoded and kept:
// "elems" and "elems-left" count them up and down.
func (c *Check) elements(x *sio, s *State, e *Event, guards map[*ssa.Function]bool) {
	fn := s.rootFn()
	into := c.P.decodesInto(fn)
	if guards[fn] || !into && fn.Name() != "Add" && fn.Name() != "DecodeMsg" {
		return
	}
	up, same, down := cursor{"elems"}, cursor{"elems-same"}, cursor{"elems-left"} // counted as int, as what the header is read into, and down
	curs := []cursor{up, same, down}
	all := func() bool {
		if s.Flag("elems.all") {
			return true
		}
		l, zero := down.next(s), s.run.intVal(0)
		for ; l != nil; l = l.Args[0] {
			if eq, k := s.Eq(l, s.run.constVal(constInt(0), l.Typ)); k && eq || s.Le(l, zero) {
				return true
			}
			if l.Op != "conv" {
				break
			}
		}
		n := s.Get("elems-n")
		ns := []*Val{n, s.run.in.mk(Val{Op: "conv", Args: []*Val{n}, Typ: types.Typ[types.Int]})}
		for _, pr := range s.SetVals("lens") {
			if m := pr.Args[0]; isCallOf(m, "reflect", "MakeSlice") && (m.Args[1] == ns[0] || m.Args[1] == ns[1]) {
				ns = append(ns, pr.Args[1])
			}
		}
		for _, n := range ns {
			if s.Le(n, up.next(s)) || s.Le(n, same.next(s)) {
				return true
			}
		}
		return false
	}
	if up.active(s) {
		if all() {
			s.SetFlag("elems.all")
		}
		for _, cu := range curs {
			cu.edge(s, e)
			if e.Kind == EvEdge && e.To.Dominates(e.From) && s.Flag("elems-stepped") && s.Get(cu.name+".phi") == nil {
				s.Set(cu.name+".next", s.run.in.mk(Val{Op: "lost", Typ: types.Typ[types.Int]})) // the loop counts otherwise
			}
		}
		if e.Kind == EvEdge && e.To.Dominates(e.From) {
			s.Del("elems-stepped")
		}
	}
	if rootExit(e) && len(e.Results) > 0 && up.active(s) {
		if c.listed == nil {
			c.listed = map[*ssa.Function]bool{}
		}
		c.listed[fn] = c.listed[fn] || false
		if err := e.Results[len(e.Results)-1]; s.NonNil(err) {
			return
		}
		c.listed[fn] = c.listed[fn] || s.Flag("elems.some")
		c.site("lists and maps decoded", e)
		if !all() {
			s.Report("elements", e, "a list or map is accepted though not all its elements are known to have been decoded")
		}
		if s.Get("elems-open") != nil {
			s.Report("elements", e, "an element of a map is decoded but not put into it")
		}
		if s.Get("elems-made") != nil {
			s.Report("elements", e, "a list or map is decoded but not handed over")
		}
	}
	if e.Kind != EvCall || e.Meth == nil || e.Inlined {
		return
	}
	step := func() {
		s.Set("elems-stepped", s.run.intVal(1))
		s.SetFlag("elems.some")
		for _, cu := range curs {
			d := int64(1)
			if cu == down {
				d = -1
			}
			if cu.next(s).Op == "lost" {
				continue
			}
			s.Set(cu.name+".next", s.add(cu.next(s), d))
			s.Del(cu.name + ".phi")
		}
	}
	switch {
	case pkgCall(e, msgpPath, "ReadArrayHeaderBytes", "ReadMapHeaderBytes", "ReadMapHeader", "ReadArrayHeader") && !up.active(s):
		n := s.res(e, 0)
		if n == nil {
			return
		}
		s.Set("elems-n", n)
		for _, cu := range curs {
			cu.start(s, s.run.in.mk(Val{Op: "elements", Leaf: cu.name, Args: []*Val{n}, Typ: bytesType}))
		}
		s.Set(up.name+".next", s.run.constVal(constInt(0), types.Typ[types.Int]))
		s.Set(same.name+".next", s.run.constVal(constInt(0), n.Typ))
		s.Set(down.name+".next", n)
		if strings.Contains(e.Name(), "Map") {
			s.SetFlag("elems.map")
		}
	case !up.active(s):
	case !into && strings.HasPrefix(e.Name(), "ReadMapKey"):
		step()
	case into && e.Fn != nil && c.P.decodesInto(e.Fn):
		if s.Flag("elems.map") {
			if s.Get("elems-open") != nil {
				s.Report("elements", e, "an element of a map is decoded but not put into it")
			}
			s.Set("elems-open", s.run.intVal(1))
			step()
			return
		}
		for _, a := range e.Args {
			if a.Typ == nil || !isNamed(a.Typ, "reflect", "Value") {
				continue
			}
			a = whole(a)
			if isCallOf(a, "reflect", "Addr") && isCallOf(whole(a.Args[0]), "reflect", "Index") {
				i := whole(a.Args[0]).Args[1]
				if eq, k := s.Eq(i, up.next(s)); i != up.next(s) && !(eq && k) {
					s.Report("elements", e, "the elements of a list are not decoded one after the other")
				}
			}
		}
		step()
	case pkgCall(e, "reflect", "SetMapIndex"):
		s.Del("elems-open")
	case pkgCall(e, "reflect", "MakeSlice", "MakeMap", "MakeMapWithSize") && into && e.Res != nil:
		s.Set("elems-made", whole(e.Res))
	case pkgCall(e, "reflect", "Set") && len(e.Args) == 1 && whole(e.Args[0]) == s.Get("elems-made"):
		s.Del("elems-made")
	}
}

func (c *Check) msgpackRules(x *sio, d *decoder, s *State, e *Event, walk map[*types.Func]bool, guards map[*ssa.Function]bool, text int64) {
	c.total(s, e)
	c.elements(x, s, e, guards)
	c.trackErrors(s, e, x.infallible)
	fn := s.rootFn()
	add := fn.Name() == "Add"
	if !s.Flag("start") {
		s.SetFlag("start")
		for i, pr := range fn.Params {
			v := s.Stack[0].Env[pr]
			switch {
			case i == 0:
				s.Set("dec", v)
			case types.Identical(pr.Type(), bytesType):
				s.Set("data", v)
			case types.Identical(pr.Type(), c.P.engineType("MessageType")):
				s.Set("kind", v)
			case types.Identical(deref(pr.Type()), x.pkt):
				s.Set("pk", v)
			}
		}
	}
	if e.Kind == EvCall && add {
		given, pkt := false, false
		for _, a := range append([]*Val{e.Recv}, e.Args...) {
			given = given || a != nil && s.Get("data") != nil && derivedFrom(a, s.Get("data"))
			if a = a.strip(); a != nil && a.Op == "iface" {
				a = a.Args[0].strip()
			}
			pkt = pkt || a != nil && a.Typ != nil && types.Identical(a.Typ, types.NewPointer(x.pkt))
		}
		if e.Fn != nil {
			for i := 0; i < e.Fn.Signature.Results().Len(); i++ {
				pkt = pkt || types.Identical(deref(e.Fn.Signature.Results().At(i).Type()), x.pkt)
			}
		}
		if given && pkt {
			s.SetFlag("filled")
		}
	}
	if rootExit(e) && fn != nil && c.P.decodesInto(fn) && len(e.Results) == 2 && !s.NonNil(e.Results[1]) && e.Results[0] == s.Get("data") {
		s.Report("unread", e, "a value is reported as decoded though nothing was read")
	}
	if ch, v, ok := chanSend(e); ok {
		f, b := fieldLoad(ch)
		if f != d.packets || b != s.Get("dec") {
			s.Report("channel", e, "something is sent on another channel")
		}
		other := func(n string) bool {
			k := s.Get("kind")
			if k == nil {
				return false
			}
			eq, known := s.Eq(k, s.run.constVal(constInt(c.P.engineConst(n)), k.Typ))
			return known && !eq
		}
		if !s.Flag("filled") && !(other("MessageTypeString") && other("MessageTypeBinary")) {
			s.Report("empty", e, "a packet is handed out that was not decoded from the frame")
		}
		if pk := v.strip(); s.Flag("filled") && x.fNsp != nil {
			ns := s.fieldNow(pk, x.fNsp)
			c.site("namespaces of packets", e)
			if ns == nil {
				s.Report("namespace", e, "the namespace of a packet is not known")
			} else if eq, k := s.Eq(ns, s.run.strVal("")); !k || eq {
				s.Report("namespace", e, "a packet may be handed out without a namespace, which stands for /")
			}
		}
		if s.Inc("sent"); s.Int("sent") > 1 {
			s.Report("twice", e, "a second packet is handed out for one frame")
		}
		if v.Op != "alloc" {
			s.Report("fresh", e, "a packet is handed out that was not made for this frame")
		}
	}
	if e.Kind == EvRecv || e.Kind == EvSelect && e.Chosen < 0 {
		s.Report("blocks", e, "decoding waits, or drops the packet")
	}
	if rootExit(e) && add && len(e.Results) == 1 {
		sent := s.Int("sent") > 0
		if err := e.Results[0]; sent && !s.IsNil(err) {
			s.Report("rejected", e, "a frame is rejected for which a packet was handed out")
		} else if !sent && !s.NonNil(err) {
			s.Report("lost", e, "a frame is accepted for which no packet is handed out")
		}
	}
	// what goes into a packet as raw data
	if e.Kind == EvStore && e.Addr.Op == "field&" && e.Addr.Field == x.fData && e.Val != nil {
		v := e.Val.strip()
		for v.Op == "conv" || v.Op == "iface" {
			v = v.Args[0].strip()
		}
		if v.Typ != nil && isStringOrBytes(v.Typ) {
			c.site("raw data checked", e)
			ok := false
			for _, pr := range s.SetVals("raws") {
				ok = ok || pr.Args[0] == loadedFrom(v) && s.IsNil(pr.Args[1])
			}
			if !ok {
				s.Report("raw", e, "data of a packet, %s, are not known to be well-formed", v)
			}
		}
	}
	if e.Kind != EvCall || e.Meth == nil || e.Inlined {
		return
	}
	// recursion
	switch {
	case guards[e.Fn]:
		if v := s.errResult(e); v != nil {
			for _, a := range e.Args {
				if a.Typ != nil && types.Identical(a.Typ, bytesType) {
					s.SetAdd("vetted", s.pair(a, v))
				}
			}
		}
		return
	case walk[e.Meth] && fn.Name() != "DecodeMsg":
		c.site("recursive functions called", e)
		for _, a := range e.Args {
			if a.Typ == nil || !types.Identical(a.Typ, bytesType) {
				continue
			}
			ok := !add && !guards[fn] && given(s, e, a) // of packets, which have been accepted
			for _, pr := range s.SetVals("vetted") {
				ok = ok || s.IsNil(pr.Args[1]) && pr.Args[0] == s.Get("data") && given(s, e, a)
			}
			for _, pr := range s.SetVals("types") {
				leaf := pr.Args[0] == a
				for _, n := range []string{"ArrayType", "MapType"} {
					k := pkgConst(e.Meth.Pkg(), n)
					eq, known := s.Eq(pr.Args[1], s.run.constVal(k, pr.Args[1].Typ))
					leaf = leaf && known && !eq
				}
				ok = ok || leaf
			}
			if !ok {
				s.Report("recursion", e, "%s calls itself as deep as the data received are nested, which nothing bounds", e.Name())
			}
		}
	case e.Fn != nil && c.P.inModule(e.Fn) && e.Fn.Pkg == s.rootFn().Pkg:
		for _, a := range e.Args { // explored with a pointer
			if a.Typ != nil && isNamed(a.Typ, "reflect", "Value") {
				c.site("recursive calls checked", e)
				if !s.pointer(a) {
					s.Report("kind", e, "%s is called with a value that may not be a pointer", e.Fn.Name())
				}
			}
		}
	}
	if e.Meth.Pkg() == nil {
		return
	}
	switch e.Meth.Pkg().Path() {
	case msgpPath:
		switch e.Name() {
		case "NextType":
			if len(e.Args) == 1 && e.Res != nil {
				s.SetAdd("types", s.pair(e.Args[0], e.Res))
			}
		case "UnmarshalMsg", "DecodeMsg":
			if e.Recv != nil && e.Recv.Typ != nil && isNamed(deref(e.Recv.Typ), msgpPath, "Raw") {
				if v := s.errResult(e); v != nil {
					s.SetAdd("raws", s.pair(e.Recv, v))
				}
			}
		case "AppendArrayHeader", "AppendMapHeader":
			// what is read later has as many elements
			c.site("headers written", e)
			n := e.Args[len(e.Args)-1]
			h := n.find(func(v *Val) bool {
				return v.Op == "ext" && v.Idx == 0 && isCallOf(v.Args[0], msgpPath, "ReadArrayHeaderBytes")
			})
			l, ok := linearOf(n, func(v *Val) bool { return v == h })
			if h == nil || !ok || l.a != 1 || l.k != -1 {
				s.Report("header", e, "data are announced to have %s elements", n)
			}
		}
	case "reflect":
		c.reflection(x, s, e)
	}
}

// reflection checks that operations get values and types of a kind they are made for.
func (c *Check) reflection(x *sio, s *State, e *Event) {
	r := whole(e.Recv)
	args := make([]*Val, len(e.Args))
	for i, a := range e.Args {
		args[i] = whole(a)
	}
	value := r != nil && r.Typ != nil && isNamed(deref(r.Typ), "reflect", "Value")
	typeOf := func(v *Val) *Val { // the type of a value that is made here
		switch {
		case isCallOf(v, "reflect", "MakeSlice", "MakeMapWithSize", "MakeMap"):
			return v.Args[0]
		}
		return nil
	}
	size := func(n *Val) bool {
		if _, hi := s.interval(n, 0); hi <= 1<<10 {
			return true
		}
		for n.Op == "conv" {
			n = n.Args[0]
		}
		return n.Op == "ext" && n.Idx == 0 && isCallOf(n.Args[0], msgpPath, "ReadArrayHeaderBytes", "ReadMapHeaderBytes") && s.IsNil(s.resOf(n.Args[0], 2))
	}
	switch e.Name() {
	case "Kind":
		if r != nil && e.Res != nil {
			s.SetAdd("kinds", s.pair(r, e.Res))
		}
		return
	case "Type", "NumIn", "In", "Interface", "ValueOf", "TypeOf", "String", "New", "IsZero", "IsValid", "CanSet", "CanAddr", "CanInterface":
		return
	}
	c.site("uses of reflection", e)
	bad := func(what string) { s.Report("kind", e, "%s may panic: %s", e.Name(), what) }
	switch e.Name() {
	case "Elem":
		switch {
		case value && !s.pointer(r) && !s.kind(r, reflect.Interface):
			bad("the value may not be a pointer")
		case !value && !s.kind(r, reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map, reflect.Chan):
			bad("the type may have no elements")
		}
	case "Key":
		if !s.kind(r, reflect.Map) {
			bad("the type may be no map")
		}
	case "Len":
		if !s.kind(r, reflect.Array, reflect.Slice, reflect.Map, reflect.String, reflect.Chan) && !isCallOf(r, "reflect", "MakeSlice") {
			bad("the value may have no length")
		}
		if e.Res != nil {
			s.SetAdd("lens", s.pair(r, e.Res))
		}
	case "Addr":
		if !isCallOf(r, "reflect", "Index", "Elem", "Field") {
			bad("the value may not be addressable")
		}
	case "Index":
		i := args[0]
		lo, _ := s.interval(i, 0)
		in := false
		if isCallOf(r, "reflect", "MakeSlice") {
			lt, k := s.Lt(i, r.Args[1])
			in = k && lt
		}
		for _, pr := range s.SetVals("lens") {
			if pr.Args[0] == r {
				in = in || s.below(i, pr.Args[1])
			}
		}
		if lo < 0 || !in {
			bad("index " + i.String() + " may be out of range")
		}
		if !s.kind(r, reflect.Array, reflect.Slice, reflect.String) && !isCallOf(r, "reflect", "MakeSlice") {
			bad("the value may have no elements")
		}
	case "MakeSlice":
		if !s.kind(args[0], reflect.Slice) {
			bad("the type may be no slice")
		}
		for _, n := range args[1:] {
			if !size(n) {
				s.Report("allocation", e, "memory for %s elements is allocated, which the data received do not bound", n)
			}
		}
		if len(args) == 3 && args[1] != args[2] && !s.Le(args[1], args[2]) {
			bad("its length may exceed its capacity")
		}
	case "MakeMap", "MakeMapWithSize":
		if !s.kind(args[0], reflect.Map) {
			bad("the type may be no map")
		}
		if len(args) == 2 && !size(args[1]) {
			s.Report("allocation", e, "memory for %s elements is allocated, which the data received do not bound", args[1])
		}
	case "Set":
		v, to := args[0], r
		t := typeOf(v)
		ok := t != nil && isCallOf(t, "reflect", "Type") && t.Args[0] == to
		// a new pointer to what the type points to
		if isCallOf(v, "reflect", "New") {
			el := v.Args[0]
			ok = isCallOf(el, "reflect", "Elem") && isCallOf(el.Args[0], "reflect", "Type") && el.Args[0].Args[0] == to && s.kind(to, reflect.Ptr)
		}
		if !ok {
			bad("the value may be of another type")
		}
		if !isCallOf(to, "reflect", "Elem", "Index", "Field") {
			bad("the value may not be settable")
		}
	case "Convert":
		if !s.kind(args[0], reflect.String) {
			bad("the type may not be that of a string")
		}
	case "SetMapIndex":
		m := typeOf(r)
		if m == nil {
			bad("the value may be no map")
			return
		}
		k, v := args[0], args[1]
		if !(isCallOf(k, "reflect", "Convert") && isCallOf(k.Args[1], "reflect", "Key") && k.Args[1].Args[0] == m) {
			bad("the key may be of another type")
		}
		if !(isCallOf(v, "reflect", "Elem") && isCallOf(whole(v.Args[0]), "reflect", "New") && isCallOf(whole(v.Args[0]).Args[0], "reflect", "Elem") && whole(v.Args[0]).Args[0].Args[0] == m) {
			bad("the element may be of another type")
		}
	default:
		bad("its use is not covered by the rules")
	}
}

// below reports whether i < n, perhaps by way of something between.
func (s *State) below(i, n *Val) bool {
	if lt, k := s.Lt(i, n); k && lt {
		return true
	}
	for _, k := range sortedKeys(s.Facts) {
		if f := s.Facts[k]; f.op == "lt" && f.val && f.a == i && s.Le(f.b, n) {
			return true
		}
	}
	return false
}
