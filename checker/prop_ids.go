package main

import (
	"go/types"
)

func init() {
	register("C17", "Provenance analysis of session ids: bytes read from the cryptographic source are followed through slices and encodings to the key "+
		"under which a session is stored; keys of the session table and announced ids are the id field of the session concerned.",
		func(c *Check) { c.idRules() })
}

// extent returns the array or slice v is a part of, and which part, as far as the indices are constant.
func (s *State) extent(v *Val) (base *Val, lo, hi int64, ok bool) {
	if v.Op == "slice" && v.Args[0] != nil {
		b, l, h, k := s.extent(v.Args[0])
		if !k {
			return v, 0, 0, false
		}
		if v.Args[2] != nil {
			n, k := s.num(v.Args[2])
			if !k {
				return v, 0, 0, false
			}
			h = l + n
		}
		if v.Args[1] != nil {
			n, k := s.num(v.Args[1])
			if !k {
				return v, 0, 0, false
			}
			l += n
		}
		return b, l, h, true
	}
	n := s.run.lenOf(s, nil, "len", v, types.Typ[types.Int])
	hi, ok = s.num(n)
	return v, 0, hi, ok
}

// randomBytes is how many bytes of slice v are known to come from the cryptographic source, at least.
func (s *State) randomBytes(v *Val) (n int64) {
	b, lo, hi, ok := s.extent(v)
	if !ok {
		return 0
	}
	for _, p := range s.SetVals("rand") {
		if p.Args[0] != b || !s.randOK(p.Args[3]) {
			continue
		}
		l, _ := p.Args[1].int64()
		h, _ := p.Args[2].int64()
		if l < lo {
			l = lo
		}
		if h > hi {
			h = hi
		}
		if h-l > n {
			n = h - l
		}
	}
	return
}

// randOK reports whether the read from the source is known to have succeeded.
func (s *State) randOK(call *Val) bool {
	return isCallOf(call, "crypto/rand", "Read") && call.Meth.Type().(*types.Signature).Recv() == nil || s.IsNil(s.errOf(call))
}

// isRandReader recognises the cryptographic source.
func isRandReader(v *Val) bool {
	v = v.strip()
	if v == nil {
		return false
	}
	if v.Op == "load" && len(v.Args) > 0 {
		v = v.Args[0]
	}
	return (v.Op == "global" || v.Op == "gval") && v.Glob.Pkg != nil && v.Glob.Pkg.Pkg.Path() == "crypto/rand" && v.Glob.Name() == "Reader"
}

func (c *Check) idRules() {
	p := c.P
	id := c.idField()
	if id == nil {
		return
	}
	const enough = 10
	params := p.engineType("Parameters")
	cfg := &Config{Name: "ids", Opaque: p.engineOpaque, Depth: 14}
	cfg.OnEvent = func(s *State, e *Event) {
		trackQuery(s, e)
		// random bytes
		random := func(b *Val) {
			c.site("random bytes read", e)
			if base, lo, hi, ok := s.extent(b); ok && lo < hi {
				s.SetAdd("rand", s.run.in.mk(Val{Op: "pair", Args: []*Val{base, s.run.intVal(lo), s.run.intVal(hi), e.Res}}))
			}
		}
		switch {
		case e.Kind == EvCall && !e.Inlined && pkgCall(e, "io", "ReadFull") && e.Recv == nil && isRandReader(e.Args[0]):
			random(e.Args[1])
		case e.Kind == EvCall && !e.Inlined && pkgCall(e, "crypto/rand", "Read") && e.Recv == nil:
			random(e.Args[0])
		case e.Kind == EvStore && e.Addr.Op == "index&":
			for _, q := range s.SetVals("rand") {
				b, lo, _, _ := s.extent(e.Addr.Args[0])
				if b != q.Args[0] && !e.Addr.Args[0].has(q.Args[0]) {
					continue
				}
				if n, _ := q.Args[1].int64(); n <= lo {
					s.Report("overwritten", e, "random bytes of an id are overwritten")
				} else if lt, k := s.Lt(e.Addr.Args[1], s.run.intVal(n-lo)); !(lt && k) {
					s.Report("overwritten", e, "random bytes of an id are overwritten")
				}
			}
		case e.Kind == EvBuiltin && e.Builtin == "copy" && len(e.Args) > 0:
			for _, q := range s.SetVals("rand") {
				if e.Args[0].has(q.Args[0]) {
					s.Report("overwritten", e, "random bytes of an id may be overwritten")
				}
			}
		case e.Kind == EvCall && !e.Inlined && (e.Name() == "EncodeToString" || e.Name() == "Encode") && e.Res != nil && len(e.Args) > 0:
			src := e.Args[len(e.Args)-1]
			for src.Op == "conv" {
				src = src.Args[0]
			}
			if s.randomBytes(src) >= enough {
				c.site("ids encoded", e)
				if e.Name() == "EncodeToString" {
					s.SetAdd("ids", e.Res)
				} else {
					s.SetAdd("ids", e.Args[0])
				}
			}
		case e.Kind == EvCall && !e.Inlined && pkgCall(e, "fmt", "Sprintf") && e.Res != nil:
			if f, ok := s.strOf(e.Args[0]); ok && (f == "%x" || f == "%X") {
				if vs := s.varargs(e.Args[1]); len(vs) == 1 && vs[0] != nil && s.randomBytes(vs[0].strip()) >= enough {
					c.site("ids encoded", e)
					s.SetAdd("ids", e.Res)
				}
			}
		}
		isNew := func(k *Val) bool {
			for k != nil && k.Op == "conv" {
				if s.SetHas("ids", k) {
					return true
				}
				k = k.Args[0]
			}
			return k != nil && (s.SetHas("ids", k) || k.Op == "slice" && k.Args[1] == nil && s.SetHas("ids", k.Args[0]) && k.Args[2] == nil)
		}
		switch {
		case e.Kind == EvMapUpdate && p.isSessionTable(e.Args[0]):
			c.site("sessions stored", e)
			k, so := e.Args[1], e.Args[2]
			now := s.fieldNow(so, id)
			switch {
			case now == nil || now != k:
				s.Report("key", e, "a session is stored under something else than its id")
			case s.SetHas("used", now):
				s.Report("reuse", e, "an id is used for a second session")
			case !isNew(now):
				s.Report("random", e, "a session is stored under an id (%s) not known to contain %d bytes of the cryptographic source", now, enough)
			}
			s.SetAdd("used", now)
			s.SetAdd("stored", so)
		case e.Kind == EvStore && e.Addr.Op == "field&" && e.Addr.Field == id:
			if s.SetHas("stored", e.Addr.Args[0]) || e.Addr.Args[0].Op != "alloc" {
				s.Report("changed", e, "the id of a session is changed")
			}
		case e.Kind == EvMapDelete && p.isSessionTable(e.Args[0]):
			c.site("sessions removed", e)
			f, so := fieldLoad(e.Args[1])
			if e.Args[1].Op != "param" && !(f == id && so != nil) && !s.SetHas("used", e.Args[1]) { // what a helper is given is decided at its calls
				s.Report("key", e, "a session is removed by something else than the id of a session (%s)", e.Args[1])
			}
		case e.Kind == EvLookup && p.isSessionTable(e.Args[0]):
			if s.run.CurSpawn == nil {
				c.site("sessions looked up", e)
			}
			if f, _ := fieldLoad(e.Args[1]); e.Args[1].Op != "param" && s.queryKey(e.Args[1]) != "sid" && f != id {
				s.Report("key", e, "a session is looked up by something else than the id a request names (%s)", e.Args[1])
			}
		case e.Kind == EvCall && !e.Inlined && (e.Name() == "Encode" || e.Name() == "Marshal") && len(e.Args) == 1 && params != nil:
			v := e.Args[0].strip()
			if v == nil || v.Typ == nil || !types.Identical(deref(v.Typ), params) {
				return
			}
			c.site("ids announced", e)
			st := params.Underlying().(*types.Struct)
			var so *Val
			for _, x := range s.SetVals("stored") {
				so = x
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != "SID" {
					continue
				}
				val := s.fieldNow(v, st.Field(i))
				f, b := fieldLoad(val)
				switch {
				case so != nil && !s.idOf(val, so, id), so == nil && (f != id || b == nil):
					s.Report("announced", e, "another id than the session's is announced")
				}
			}
		}
	}
	c.explore(cfg, p.entryPoints(p.Engine), []*types.Package{p.Engine})
	c.need("random bytes read", 1)
	c.need("ids encoded", 1)
	c.need("sessions stored", 1)
	c.need("sessions removed", 1)
	c.need("sessions looked up", 1)
	c.need("ids announced", 1)
}
