package dec

import (
	"math/rand"
	"reflect"
)

func init() {
	prop("C01", genC01, evalC01)
	prop("C03", genC03, evalC03)
	prop("C18", genC18, evalC18)
	prop("C19", genC19, evalC19)
}

// params sets the constructor parameters of a template so that calls can go through.
func params(r *rand.Rand, s *Scenario, u *Unit, ops int) {
	switch u.Template {
	case "circuitbreaker":
		s.N = pick(r, 1, 2, 3, 1000)
		s.D = pick(r, 10*ms, 50*ms)
		s.Ignore = r.Intn(3)
	case "retry":
		s.N = pick(r, 0, 1, 2, 3, -1)
		s.D = pick(r, 5*ms, 10*ms)
	case "fallback":
		s.Impls = 1 + r.Intn(4)
		s.D = pick(r, 5*ms, 10*ms)
	case "ratelimit":
		s.N = pick(r, 1, 2, 3, 5)
		s.D = pick(r, int64(100e6), int64(70e6))
	case "robinpool", "syncpool":
		s.Impls = 1 + r.Intn(4)
		s.Flags["must"] = r.Intn(2)
	case "timeout":
		s.Timeouts = map[string]int64{}
		for _, m := range u.Methods {
			if m.Ctx {
				switch r.Intn(4) {
				case 0:
				case 1:
					s.Timeouts[m.Name] = -5 * ms
				default:
					s.Timeouts[m.Name] = 1 + lat(r, 10*ms)
				}
			}
		}
	default:
		s.Flags["kit"] = r.Intn(4)
	}
}

func perOp(s *Scenario, u *Unit) int64 {
	t := 100 * ms
	switch u.Template {
	case "retry":
		if s.N > 0 {
			t += 2 * int64(s.N) * s.D
		}
	case "fallback":
		t += int64(s.Impls+1) * s.D
	}
	return t
}

func mixed(r *rand.Rand, id string, u *Unit, stalls bool, maxClients, maxOps int, pErr, pPanic float64) *Scenario {
	s := base(r, id, u, stalls)
	nc := 1 + r.Intn(maxClients)
	ms_ := u.swarm(r, 1+r.Intn(3), nil)
	if u.Template == "fallback" {
		pPanic = 0
	}
	for i := 0; i < nc; i++ {
		var c Client
		for j := 1 + r.Intn(maxOps); j > 0; j-- {
			m := ms_[r.Intn(len(ms_))]
			o := &Op{Method: m.Name}
			if chance(r, 0.4) {
				o.Delay = lat(r, 10*ms)
			}
			if m.Ctx {
				o.Ctx = randCtx(r, 10*ms)
				o.Span = chance(r, 0.7)
			}
			if chance(r, 0.2) {
				o.Nil = m.nilParams(r)
			}
			for k := 1 + r.Intn(4); k > 0; k-- {
				p := randPlan(r, 10*ms, pErr, pPanic)
				if m.Ctx && chance(r, 0.05) {
					p.Cancel = true
				}
				o.Plans = append(o.Plans, p)
			}
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	params(r, s, u, len(s.Ops()))
	if chance(r, 0.2) {
		s.Faults = append(s.Faults, Fault{"wall", lat(r, 20*ms), pick(r, -3600000*ms, 3600000*ms, 15*ms, -15*ms)})
	}
	numberOps(s)
	s.Horizon = total(s, perOp(s, u)) + 200*ms
	if stalls && s.Strategy.StallP > 0 {
		s.Horizon += 4000 * ms
	}
	return s
}

func genC01(r *rand.Rand, u *Unit) *Scenario {
	s := mixed(r, "C01", u, true, 4, 3, 0.35, 0.12)
	// re-entrancy and argument sharing are covered by C03
	return s
}

// refusal reports whether a call without a wrapped call is legitimate for the template.
func (w *World) refusal(c *Call) bool {
	if c.Err == nil || c.Panicked {
		return false
	}
	switch w.U.Template {
	case "circuitbreaker":
		return c.M.Err
	case "ratelimit":
		return c.M.Ctx && c.M.Err && c.CtxEnd >= 0 && c.CtxEnd <= c.EndT
	case "validate", "grpc_validate", "twirp_validate":
		return len(c.Op.Invalid) > 0
	}
	return false
}

func evalC01(w *World) {
	w.checkArgs()
	w.mustReturn(nil)
	for _, c := range w.Calls {
		if !c.Returned {
			continue
		}
		if len(w.Calls) > 1 || len(c.Bases) > 0 {
			w.Antec++
		}
		if w.U.Template == "fallback" {
			w.fallbackOwn(c)
			continue
		}
		n := len(c.Bases)
		if n == 0 && w.refusal(c) {
			continue
		}
		if w.U.Template == "retry" && c.M.Err {
			if n == 0 {
				w.bad("count", "call %d %s returned without a wrapped call", c.Op.ID, c.Op.Method)
				continue
			}
			w.passed(c, c.Bases[n-1], true)
			continue
		}
		if n != 1 {
			w.bad("count", "call %d %s: %d wrapped calls instead of 1", c.Op.ID, c.Op.Method, n)
			continue
		}
		w.passed(c, c.Bases[0], w.U.Template != "twirp_error")
	}
}

// fallbackOwn checks that a fallback call's results are those of one of its own wrapped calls.
func (w *World) fallbackOwn(c *Call) *Base {
	if c.Panicked || c.Goexit {
		w.bad("panic", "call %d %s panicked: %v", c.Op.ID, c.Op.Method, c.Panic)
		return nil
	}
	if c.M.Err && c.Err != nil {
		return nil
	}
	for _, b := range c.Bases {
		if b.Ended && b.End < c.End && b.Err == nil && sameList(b.Results, c.Results) {
			return b
		}
	}
	if !c.M.Err && c.M.Ctx && c.CtxEnd >= 0 && c.CtxEnd <= c.EndT && allZero(c.Results) {
		return nil // gave up; the method has no way to tell
	}
	w.bad("results", "call %d %s returned (%s), which is not what any of its %d wrapped calls returned", c.Op.ID, c.Op.Method, show(c.Results), len(c.Bases))
	return nil
}

func allZero(vs []reflect.Value) bool {
	for _, v := range vs {
		if v.IsValid() && !v.IsZero() {
			return false
		}
	}
	return true
}

// ---- C03

func genC03(r *rand.Rand, u *Unit) *Scenario {
	s := base(r, "C03", u, false)
	ms_ := u.swarm(r, 1+r.Intn(3), nil)
	plan := func(m *Method) Plan {
		p := Plan{Lat: pick(r, 0, 0, 1*ms, 3*ms), Yields: r.Intn(3)}
		return p
	}
	slow := &Op{Method: ms_[0].Name, Plans: []Plan{{Stuck: chance(r, 0.5), Lat: 500 * ms}}}
	if chance(r, 0.3) && ms_[0].Ctx {
		slow.Ctx = CtxSpec{Kind: "cancel"}
	}
	if slow.Plans[0].Stuck {
		slow.Plans[0].Lat = 0
	}
	nslow := 1 + r.Intn(2)
	for i := 0; i < nslow; i++ {
		o := *slow
		o.Plans = append([]Plan(nil), slow.Plans...)
		s.Clients = append(s.Clients, Client{Ops: []*Op{&o}})
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		var c Client
		for j := 1 + r.Intn(3); j > 0; j-- {
			m := ms_[r.Intn(len(ms_))]
			o := &Op{Method: m.Name, Delay: pick(r, 0, 1*ms, 2*ms), Plans: []Plan{plan(m)}}
			if chance(r, 0.3) {
				n := ms_[r.Intn(len(ms_))]
				o.Plans[0].Nested = &Op{Method: n.Name, Delay: pick(r, 0, 0, 1*ms), Plans: []Plan{plan(n)}}
			}
			if m.Ctx && chance(r, 0.3) {
				o.Ctx = CtxSpec{Kind: "cancel"}
			}
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	params(r, s, u, 0)
	n := len(s.Ops())
	switch u.Template {
	case "circuitbreaker":
		// includes an open circuit that stays open only briefly: errors are not planned here
	case "ratelimit":
		s.N = n + 1
		s.D = int64(1e6)
	case "syncpool", "robinpool":
		s.Impls = n
	case "fallback":
		s.D = 2000 * ms
		s.Impls = 1 + r.Intn(2)
	case "timeout":
		for k, v := range s.Timeouts {
			if v > 0 {
				s.Timeouts[k] = 10000 * ms
			}
		}
	}
	numberOps(s)
	s.Horizon = 1500 * ms
	return s
}

func opTime(o *Op) int64 {
	p := o.Plans[0]
	t := p.Lat
	if p.Nested != nil {
		t += p.Nested.Delay + opTime(p.Nested)
	}
	return t
}

func evalC03(w *World) {
	w.foreignPanics()
	for _, c := range w.Calls {
		if hasStuck(c.Op) {
			continue
		}
		if len(c.Bases) == 0 || c.Bases[0].StartT != c.StartT {
			w.bad("held-up", "call %d %s at %d reached the wrapped implementation late or never while another call was in progress", c.Op.ID, c.Op.Method, c.StartT)
			continue
		}
		if want := c.StartT + opTime(c.Op); !c.Returned || c.EndT != want {
			if want >= w.Sc.Horizon {
				continue
			}
			w.bad("held-up", "call %d %s should have returned at %d, returned=%v at %d", c.Op.ID, c.Op.Method, want, c.Returned, c.EndT)
			continue
		}
		w.Antec++
	}
}

// ---- C18

func genC18(r *rand.Rand, u *Unit) *Scenario {
	s := mixed(r, "C18", u, false, 3, 2, 0.5, 0.1)
	if u.Template == "fallback" || u.Template == "timeout" || u.Template == "retry" {
		for _, o := range s.Ops() {
			if chance(r, 0.3) {
				for i := range o.Plans {
					o.Plans[i].Lat = pick(r, 0, 25*ms, 60*ms)
				}
			}
		}
		s.Horizon += 400 * ms
	}
	return s
}

func evalC18(w *World) {
	for _, c := range w.Calls {
		if c.LeakChecked {
			w.Antec++
		}
		for _, l := range c.Leaks {
			w.bad("leak", "after call %d %s ended: %s", c.Op.ID, c.Op.Method, l)
		}
	}
	bg := map[string]int{}
	for _, l := range w.Res.Leftover {
		if t, ok := l.Tag.(string); ok && t == "ctor" && !l.Harn {
			bg[l.What]++
		}
	}
	limit := 0
	if w.U.Template == "ratelimit" {
		limit = 1
	}
	for _, k := range []string{"goroutine", "ticker", "timer", "after", "afterfunc", "context"} {
		if bg[k] > limit {
			w.bad("background", "%d background %s(s) of the decorator itself, at most %d expected", bg[k], k, limit)
		}
	}
	// whatever is left at the end and belongs to a finished call
	for _, l := range w.Res.Leftover {
		c, ok := l.Tag.(*Call)
		if !ok || l.Harn || !c.Returned || c.Running() > 0 || l.What == "sleep" {
			continue
		}
		w.bad("leak", "at the end %s %s of the finished call %d %s remains", l.What, l.Desc, c.Op.ID, c.Op.Method)
	}
}

// ---- C19

func genC19(r *rand.Rand, u *Unit) *Scenario {
	s := mixed(r, "C19", u, true, 4, 2, 0.4, 0.1)
	if len(s.Clients) == 1 {
		s.Clients = append(s.Clients, s.Clone().Clients[0])
		numberOps(s)
		s.Horizon *= 2
	}
	return s
}

func evalC19(w *World) {
	if overlap(w) {
		w.Antec++
	}
	for _, rc := range w.Res.Races {
		w.bad("race", "data race (%s) between %s and %s", rc.Kind, siteName(rc.SiteA), siteName(rc.SiteB))
	}
}

// SiteNames translates the numbers of memory access sites.
var SiteNames []string

func siteName(i int) string {
	if i >= 0 && i < len(SiteNames) && SiteNames[i] != "" {
		return SiteNames[i]
	}
	return "an atomic or library access"
}
