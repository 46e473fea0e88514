package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "Lock typestate on every path of every entry point, goroutine and escaping function value (interprocedural, "+
		"path-sensitive): every lock and barrier taken is released on every exit, none is acquired while one of its class is held, "+
		"the acquisition order graph is acyclic, no user code (handlers, callbacks, checkers, unknown function values) runs under a "+
		"lock or barrier, and nothing receives from a peer or waits for the sending goroutine under a lock that goroutine acquires.", runC02)
}

type lockEdge struct{ from, to string }

type lockWait struct {
	pos, what string
	held      []string
	v         *Violation
}

func runC02(c *Check) {
	p := c.P
	edges := map[lockEdge]*Violation{}
	sender := map[string]bool{}
	var waits []lockWait
	cond := func(s *State, rule string, e *Event, format string, args ...interface{}) *Violation {
		vio := s.run.Vio
		s.run.Vio = newViolations()
		s.Report(rule, e, format, args...)
		v := s.run.Vio.m[s.run.Vio.order[0]]
		s.run.Vio = vio
		return v
	}
	barrierImpl := func(s *State) bool { return p.isImplMethod(s.rootFn(), "Barrier") }
	held := func(s *State) (vs []*Val) {
		vs = append(append(vs, s.SetVals("W")...), s.SetVals("R")...)
		return
	}
	classOf := func(s *State, a *Val) string {
		if s.SetHas("B", a) {
			return "Barrier"
		}
		return lockClass(a)
	}
	acquire := func(s *State, e *Event, a *Val, class string) {
		for _, h := range held(s) {
			hc := classOf(s, h)
			if h == a || hc == class && !distinct(h, a) {
				s.Report("lock-reacquired", e, "%s is acquired while it is already held", class)
				continue
			}
			if hc == class {
				s.Report("lock-order", e, "two locks of class %s are nested without an order", class)
				continue
			}
			k := lockEdge{hc, class}
			if edges[k] == nil {
				edges[k] = cond(s, "lock-order", e, "%s is acquired while %s is held, and elsewhere the other way round", class, hc)
			}
		}
		for _, b := range s.SetVals("B") {
			if class == "Barrier" {
				if b == a || !distinct(a, b) {
					s.Report("lock-reacquired", e, "the barrier is waited for or paused by its holder")
				}
				continue
			}
			k := lockEdge{"Barrier", class}
			if edges[k] == nil {
				edges[k] = cond(s, "lock-order", e, "%s is acquired while the barrier is held, and elsewhere the other way round", class)
			}
		}
		if s.Flag("sender") {
			sender[class] = true
		}
	}
	heldNames := func(s *State) (n []string) {
		for _, h := range held(s) {
			n = append(n, lockClass(h))
		}
		for range s.SetVals("B") {
			n = append(n, "Barrier")
		}
		sort.Strings(n)
		return
	}
	senders := c.senderFns()
	cfg := &Config{Name: "locks", Opaque: p.engineOpaque}
	cfg.OnEvent = func(s *State, e *Event) {
		if len(s.Stack) == 1 && !s.Flag("begun") {
			s.SetFlag("begun")
			if senders[s.rootFn()] {
				s.SetFlag("sender")
			}
		}
		if a, what := p.lockOp(e); a != nil {
			c.site("lock operations", e)
			switch what {
			case "Lock", "RLock":
				acquire(s, e, a, lockClass(a))
			default:
				m := "W"
				if what == "RUnlock" {
					m = "R"
				}
				if !s.SetHas(m, a) && !barrierImpl(s) {
					s.Report("lock-not-held", e, "%s of %s, which is not held", what, lockClass(a))
				}
			}
		}
		p.trackLocks(s, e)
		switch {
		case p.barrierOp(e, "Pause"):
			c.site("barrier operations", e)
			acquire(s, e, e.Recv, "Barrier")
			s.SetAdd("B", e.Recv)
		case p.barrierOp(e, "Wait"):
			c.site("barrier operations", e)
			acquire(s, e, e.Recv, "Barrier")
		case p.barrierOp(e, "Resume"):
			c.site("barrier operations", e)
			if !s.SetHas("B", e.Recv) {
				s.Report("lock-not-held", e, "Resume of a barrier that is not paused here")
			}
			s.SetDel("B", e.Recv)
		case e.Kind == EvCall && !e.Inlined && (isUserCall(p, e) || p.methodOn(e, p.engineType("Acceptor"), "Accept")):
			c.site("calls of user code", e)
			if h := heldNames(s); len(h) > 0 {
				s.Report("user-code-under-lock", e, "user code is called while %s is held", strings.Join(h, ", "))
			}
		case e.Kind == EvExit:
			c.count("exits")
			if barrierImpl(s) {
				break
			}
			if h := heldNames(s); len(h) > 0 {
				how := ""
				if e.Panic {
					how = " (by panicking)"
				}
				s.Report("lock-leaked", e, "%s returns%s with %s held", s.rootFn().Name(), how, strings.Join(h, ", "))
			}
		}
		// operations that wait for the sender or the peer
		what := ""
		switch {
		case e.Kind == EvCall && pkgCall(e, "sync", "Wait") && e.Recv != nil && isNamed(e.Recv.Typ, "sync", "WaitGroup"):
			what = "waits for a goroutine"
		case e.Kind == EvSend:
			what = "sends on a channel"
		case e.Kind == EvRecv && !c.timerChan(e.Chan):
			what = "receives from a channel"
		case e.Kind == EvSelect && e.Block:
			what = "waits for a channel"
		case p.connOp(e, "ReadPacket"):
			what = "waits for a peer's packet"
		}
		if what != "" {
			c.site("waits", e)
			var h []string
			for _, n := range heldNames(s) {
				if n == "Barrier" && p.connOp(e, "ReadPacket") {
					continue // the probe; the sender is meant to wait
				}
				h = append(h, n)
			}
			if len(h) > 0 {
				waits = append(waits, lockWait{p.pos(e.Pos()), what, h, cond(s, "wait-under-lock", e, "it %s while holding %s, which the sending goroutine needs", what, strings.Join(h, ", "))})
			}
		}
	}
	c.explore(cfg, c.bothEntries(), c.bothPkgs())
	// the sender needs what it acquires
	for _, w := range waits {
		for _, h := range w.held {
			if sender[h] {
				c.Vio.add(w.v, "wait@"+w.pos)
			}
		}
	}
	// acyclic order
	succ := map[string][]string{}
	for k := range edges {
		succ[k.from] = append(succ[k.from], k.to)
		c.siteAt("lock order edges", k.from+" -> "+k.to, "")
	}
	reach := func(a, b string) bool {
		seen := map[string]bool{}
		st := []string{a}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == b {
				return true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			st = append(st, succ[x]...)
		}
		return false
	}
	var ks []string
	for k := range edges {
		if reach(k.to, k.from) {
			ks = append(ks, k.from+"|"+k.to)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		f := strings.Split(k, "|")
		c.Vio.add(edges[lockEdge{f[0], f[1]}], "cycle "+k)
	}
	for k := range sender {
		c.siteAt("locks the sender acquires", k, "")
	}
	c.barrierContract()
	c.need("lock operations", 20)
	c.need("calls of user code", 6)
	c.need("waits", 5)
	c.need("locks the sender acquires", 2)
}

// timerChan reports whether v is the channel of a timer.
func (c *Check) timerChan(v *Val) bool {
	v = v.strip()
	return v != nil && v.Op == "call" && v.Meth != nil && v.Meth.Pkg() != nil && v.Meth.Pkg().Path() == "time"
}

// senderFns finds the goroutines that write to sessions' transports: functions started by a go statement from which a
// WritePacket call on a session's connection is reached.
func (c *Check) senderFns() map[*ssa.Function]bool {
	p := c.P
	out := map[*ssa.Function]bool{}
	cfg := &Config{Name: "sender", Opaque: p.engineOpaque}
	cfg.OnEvent = func(s *State, e *Event) {
		if p.connOp(e, "WritePacket") && p.isSessionConn(e.Recv) && s.run.CurSpawn != nil && s.run.CurSpawn.Kind == "go" {
			out[s.rootFn()] = true
		}
	}
	sub := &Check{ID: c.ID, P: p, Tier: c.Tier, Vio: newViolations(), Counts: map[string]int{}, Samples: map[string][]string{},
		Fns: map[*ssa.Function]bool{}, MaxState: c.MaxState}
	sub.explore(cfg, p.entryPoints(p.Engine), nil)
	if len(out) == 0 {
		c.undecided("no goroutine writing to a session's transport found")
	}
	return out
}

// barrierContract checks the barriers of the module: Pause leaves exclusive access held that Wait and a second Pause
// need, Resume gives it back, and Wait keeps nothing.
func (c *Check) barrierContract() {
	p := c.P
	for _, t := range p.concrete(p.engineType("Barrier")) {
		if !hasLock(t) {
			continue
		}
		for _, m := range []string{"Pause", "Wait", "Resume"} {
			fn := p.method(t, m)
			if fn == nil || fn.Blocks == nil {
				c.undecided("%s.%s not found", t, m)
				continue
			}
			m := m
			taken := fmt.Sprintf("%s.%s", typeName(t), m)
			cfg := &Config{Name: "barrier", MaxStates: c.MaxState}
			cfg.OnEvent = func(s *State, e *Event) {
				if a, what := p.lockOp(e); a != nil {
					if what == "Lock" || what == "RLock" {
						s.SetFlag("took")
					}
					if what == "Unlock" {
						if !s.SetHas("W", a) {
							s.SetFlag("gave")
						}
					}
				}
				p.trackLocks(s, e)
				if e.Kind != EvExit {
					return
				}
				w, r := len(s.SetVals("W")), len(s.SetVals("R"))
				switch m {
				case "Pause":
					if w != 1 || r != 0 {
						s.Report("barrier-contract", e, "%s returns without exclusive access held: senders are not kept waiting", taken)
					}
				case "Wait":
					if w+r != 0 {
						s.Report("barrier-contract", e, "%s returns with the barrier held", taken)
					}
					if !s.Flag("took") {
						s.Report("barrier-contract", e, "%s does not wait for a paused barrier", taken)
					}
				case "Resume":
					if w+r != 0 || !s.Flag("gave") {
						s.Report("barrier-contract", e, "%s does not release what Pause acquired", taken)
					}
				}
			}
			r := newRun(p, cfg, c.Vio)
			r.Explore(taken, fn, nil, nil, nil, nil)
			c.siteAt("barrier methods", taken, "")
		}
	}
}
