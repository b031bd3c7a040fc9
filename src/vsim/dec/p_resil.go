package dec

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func init() {
	prop("C02", genC02, evalC02)
	prop("C07", genC07, evalC07)
	prop("C08", genC08, evalC08)
	prop("C09", genC09, evalC09)
	prop("C10", genC10, evalC10)
	prop("C13", genC13, evalC13)
}

// ---- C02 circuit breaker

func genC02(r *rand.Rand, u *Unit) *Scenario {
	s := base(r, "C02", u, false)
	s.N = 1 + r.Intn(4)
	s.D = pick(r, 10*ms, 50*ms)
	s.Ignore = r.Intn(3)
	methods := u.swarm(r, 1+r.Intn(3), func(m *Method) bool { return m.Err })
	pErr := pick(r, 0.5, 0.75, 0.9)
	unit := s.D / 4
	for i := 1 + r.Intn(4); i > 0; i-- {
		var c Client
		for j := 2 + r.Intn(5); j > 0; j-- {
			m := methods[r.Intn(len(methods))]
			if chance(r, 0.05) {
				m = u.some(r, nil)
			}
			o := &Op{Method: m.Name}
			switch r.Intn(6) {
			case 0, 1:
			case 2:
				o.Delay = s.D + int64(r.Intn(3)) - 1
			case 3:
				o.Delay = s.D + 1 + r.Int63n(unit)
			default:
				o.Delay = r.Int63n(s.D)
			}
			p := Plan{Yields: r.Intn(3), Zero: chance(r, 0.1)}
			switch r.Intn(6) {
			case 0:
				p.Lat = 1 + r.Int63n(unit)
			case 1:
				p.Lat = r.Int63n(2 * s.D)
			}
			if chance(r, pErr) {
				p.Err = randErr(r)
			} else if s.Ignore > 0 && chance(r, 0.5) {
				p.Err = fmt.Sprintf("%s%d", pick(r, "ign", "wign"), r.Intn(s.Ignore))
			}
			if chance(r, 0.04) {
				p.Panic = "val"
			}
			o.Plans = []Plan{p}
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	if chance(r, 0.004) {
		// a large limit, nearly reached or reached by one caller
		s.N = 50 + r.Intn(250)
		o := s.Clients[0].Ops[0]
		if x := u.some(r, func(m *Method) bool { return m.Err }); x != nil {
			o.Method = x.Name
		}
		o.Delay, o.Plans, o.Times = 0, []Plan{{Err: "e"}}, s.N-1+r.Intn(3)-1
	}
	if chance(r, 0.4) {
		for k := 1 + r.Intn(2); k > 0; k-- {
			s.Faults = append(s.Faults, Fault{"wall", 1 + r.Int63n(2*s.D), pick(r, -3600000*ms, 3600000*ms, s.D/2, -s.D/2, 2*s.D)})
		}
	}
	numberOps(s)
	s.Horizon = total(s, ms) + 100*ms
	return s
}

type lin struct {
	kind   int // 0 decision, 1 completion
	refuse bool
	fail   bool
	lo, hi int64 // sequence window
	tlo    int64
	thi    int64
	need   int // index of the event that must precede it, -1
	call   *Call
	text   string
}

func evalC02(w *World) {
	w.foreignPanics()
	w.mustReturn(nil)
	var ev []lin
	for _, c := range w.Calls {
		if !c.M.Err {
			if len(c.Bases) == 0 && c.Returned {
				w.bad("refused", "call %d of %s, which returns no error, was not forwarded", c.Op.ID, c.Op.Method)
			}
			continue
		}
		if len(c.Bases) > 1 {
			w.bad("count", "call %d %s forwarded %d times", c.Op.ID, c.Op.Method, len(c.Bases))
			return
		}
		if !c.Returned {
			continue
		}
		id := fmt.Sprintf("call %d", c.Op.ID)
		if len(c.Bases) == 0 {
			if c.Panicked {
				continue
			}
			if c.Err == nil {
				w.bad("no-error", "call %d %s was not forwarded and returned no error", c.Op.ID, c.Op.Method)
				return
			}
			if c.EndT != c.StartT {
				w.bad("slow-refusal", "call %d %s was refused only after %d ns", c.Op.ID, c.Op.Method, c.EndT-c.StartT)
				return
			}
			ev = append(ev, lin{0, true, false, c.Start, c.End, c.StartT, c.EndT, -1, c, id + " refused"})
			continue
		}
		b := c.Bases[0]
		ev = append(ev, lin{0, false, false, c.Start, b.Start, c.StartT, b.StartT, -1, c, id + " forwarded"})
		if b.Panic != nil || b.Goexit || !b.Ended {
			continue
		}
		if !sameErr(b.Err, c.Err) {
			w.bad("error", "call %d %s was forwarded but returned %v instead of %v", c.Op.ID, c.Op.Method, c.Err, b.Err)
			return
		}
		fail := b.Err != nil && !w.ignored(b.Err)
		txt := " ok"
		if fail {
			txt = " failed"
		}
		ev = append(ev, lin{1, false, fail, b.End, c.End, b.EndT, c.EndT, -1, c, id + txt})
	}
	for _, e := range ev {
		if e.refuse {
			w.Antec++
		}
	}
	// The history is cut where nothing is in progress; every part is searched for all the states it may end in.
	sort.SliceStable(ev, func(i, j int) bool { return ev[i].lo < ev[j].lo })
	for i := range ev {
		if ev[i].kind == 1 {
			for j := range ev {
				if ev[j].call == ev[i].call && ev[j].kind == 0 {
					ev[i].need = j
				}
			}
		}
	}
	states := map[breaker]bool{{0, -1, -1}: true}
	steps := 0
	for from := 0; from < len(ev); {
		to, hi := from+1, ev[from].hi
		for to < len(ev) && ev[to].lo <= hi {
			if ev[to].hi > hi {
				hi = ev[to].hi
			}
			to++
		}
		if to-from > 60 {
			return // inconclusive
		}
		states = w.explain(ev, from, to, states, &steps)
		if steps > 300000 {
			return // inconclusive
		}
		if len(states) == 0 {
			if to < len(ev) {
				ev = ev[:to]
			}
			if from > 20 {
				ev = ev[from-20:]
			}
			sort.SliceStable(ev, func(i, j int) bool { return ev[i].hi < ev[j].hi })
			var l []string
			for _, e := range ev {
				l = append(l, fmt.Sprintf("%s@%d", e.text, e.tlo))
			}
			w.bad("history", "no order of decisions and completions explains the history with limit %d and interval %d: %s", w.Sc.N, w.Sc.D, strings.Join(l, "; "))
			return
		}
		from = to
	}
}

// breaker is a state of the reference breaker: failures in a row, and when it closes, at the earliest and at the latest.
type breaker struct {
	count    int
	clo, chi int64
}

// explain finds the states in which ev[from:to] can end.
func (w *World) explain(ev []lin, from, to int, begin map[breaker]bool, steps *int) map[breaker]bool {
	type state struct {
		mask uint64
		b    breaker
	}
	n := to - from
	out := map[breaker]bool{}
	seen := map[state]bool{}
	var search func(mask uint64, b breaker, placed int)
	search = func(mask uint64, b breaker, placed int) {
		if placed == n {
			out[b] = true
			return
		}
		if seen[state{mask, b}] {
			return
		}
		seen[state{mask, b}] = true
		if *steps++; *steps > 300000 || to == len(ev) && len(out) > 0 {
			return
		}
		minHi := int64(1 << 62)
		for i, e := range ev[from:to] {
			if mask&(1<<uint(i)) == 0 && e.hi < minHi {
				minHi = e.hi
			}
		}
		for i, e := range ev[from:to] {
			if mask&(1<<uint(i)) != 0 || e.lo > minHi {
				continue
			}
			if e.need >= from && mask&(1<<uint(e.need-from)) == 0 {
				continue
			}
			m := mask | 1<<uint(i)
			nx := b
			if e.kind == 0 {
				open := b.chi >= 0
				if e.refuse {
					if !open || b.chi < e.tlo {
						continue
					}
				} else if open && b.clo > e.thi {
					continue
				}
				search(m, b, placed+1)
				continue
			}
			if !e.fail {
				search(m, breaker{0, -1, -1}, placed+1)
				continue
			}
			open := b.chi >= 0 && b.clo > e.thi
			if nx.count < w.Sc.N {
				nx.count++
			}
			if nx.count >= w.Sc.N {
				keep := nx
				nx.clo, nx.chi = e.tlo+w.Sc.D, e.thi+w.Sc.D
				search(m, nx, placed+1)
				// a failure of a call that was already running when the circuit opened need not extend the interval
				if open {
					search(m, keep, placed+1)
				}
				continue
			}
			search(m, nx, placed+1)
		}
	}
	var l []breaker
	for b := range begin {
		l = append(l, b)
	}
	sort.Slice(l, func(i, j int) bool {
		x, y := l[i], l[j]
		if x.count != y.count {
			return x.count < y.count
		}
		if x.clo != y.clo {
			return x.clo < y.clo
		}
		return x.chi < y.chi
	})
	for _, b := range l {
		search(0, b, 0)
	}
	return out
}

// ---- C07, C08 rate limit

func rateDelay(s *Scenario) int64 {
	rps := float64(s.D) / 1e6
	return int64(float64(1e9) / rps)
}

func genRate(r *rand.Rand, id string, u *Unit) *Scenario {
	s := base(r, id, u, false)
	s.N = pick(r, 0, 1, 1, 2, 3, 4)
	s.D = pick(r, int64(500e3), int64(3e6), int64(7e6), int64(10e6), int64(100e6), int64(1000e6))
	d := rateDelay(s)
	ms_ := u.swarm(r, 1+r.Intn(3), nil)
	nc := 1 + r.Intn(6)
	big := 0
	if chance(r, 0.004) {
		s.N = 20 + r.Intn(280)
		big = s.N/nc + r.Intn(10)
	}
	for i := 0; i < nc; i++ {
		var c Client
		for j := 1 + r.Intn(4); j > 0; j-- {
			m := ms_[r.Intn(len(ms_))]
			o := &Op{Method: m.Name}
			switch r.Intn(6) {
			case 0, 1:
				o.Delay = 1 + r.Int63n(d-1)
			case 2:
				o.Delay = d*int64(r.Intn(12)) + 1 + r.Int63n(d-1)
			case 3:
				o.Delay = d*int64(1+r.Intn(5)) + int64(r.Intn(3)) - 1
			default:
				if i > 0 || j > 1 {
					o.Delay = 0
				}
			}
			if m.Ctx {
				switch r.Intn(6) {
				case 0, 1, 2:
					o.Ctx = CtxSpec{Kind: pick(r, "cancel", "deadline"), After: 1 + r.Int63n(4*d)}
				case 3:
					o.Ctx = CtxSpec{Kind: "cancel", Before: true}
				}
			}
			p := Plan{Yields: r.Intn(2)}
			if chance(r, 0.3) {
				p.Lat = r.Int63n(3 * d)
			}
			if chance(r, 0.2) {
				p.Err = "e"
			}
			if chance(r, 0.05) {
				p.Panic = "val"
			}
			o.Plans = []Plan{p}
			if big > 0 && len(c.Ops) == 0 {
				o.Delay, o.Plans[0].Lat, o.Times = 0, 0, big
			}
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	if chance(r, 0.2) {
		s.Faults = append(s.Faults, Fault{"wall", r.Int63n(5 * d), pick(r, -3600000*ms, 3600000*ms, 3*d, -3*d)})
	}
	numberOps(s)
	n := int64(len(s.Ops()))
	s.Horizon = total(s, d+1) + (n+3)*d
	if s.Horizon > 400*d {
		s.Horizon = 400 * d
	}
	return s
}

func genC07(r *rand.Rand, u *Unit) *Scenario { return genRate(r, "C07", u) }
func genC08(r *rand.Rand, u *Unit) *Scenario { return genRate(r, "C08", u) }

func evalC07(w *World) {
	d := rateDelay(w.Sc)
	var ts []int64
	for _, b := range w.Bases {
		ts = append(ts, b.StartT-w.T0)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	B := int64(w.Sc.N)
	if int64(len(ts)) > B {
		w.Antec++
	}
	for j := range ts {
		if n := int64(j + 1); n > B+ts[j]/d {
			w.bad("total", "%d calls forwarded within %d ns of construction, at most %d + %d allowed", n, ts[j], B, ts[j]/d)
			return
		}
		for i := 0; i <= j; i++ {
			if n, max := int64(j-i+1), B+(ts[j]-ts[i])/d+1; n > max {
				w.bad("window", "%d calls forwarded within %d ns, at most %d allowed", n, ts[j]-ts[i], max)
				return
			}
		}
	}
	for _, c := range w.Calls {
		if len(c.Bases) > 1 {
			w.bad("count", "call %d forwarded %d times", c.Op.ID, len(c.Bases))
		}
		if c.Returned && len(c.Bases) == 0 && c.Err == nil && !c.Panicked {
			w.bad("lost", "call %d %s returned without error and was not forwarded", c.Op.ID, c.Op.Method)
		}
	}
}

func evalC08(w *World) {
	w.foreignPanics()
	d := rateDelay(w.Sc)
	B := int64(w.Sc.N)
	gives := func(c *Call) bool { return c.M.Ctx && c.M.Err && c.CtxEnd >= 0 }
	// instants
	times := map[int64]bool{}
	for _, c := range w.Calls {
		times[c.StartT] = true
		if gives(c) {
			times[c.CtxEnd] = true
		}
	}
	for t := range times {
		if t > w.T0 && (t-w.T0)%d == 0 {
			return // coincidence with a refill: more than one outcome is right
		}
	}
	for t := w.T0 + d; t <= w.Sc.Horizon; t += d {
		times[t] = true
	}
	for _, c := range w.Calls {
		if len(c.Bases) > 0 {
			times[c.Bases[0].StartT] = true
		}
	}
	var ts []int64
	for t := range times {
		if t <= w.Sc.Horizon {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	avail := B
	waiting := map[*Call]bool{}
	for _, t := range ts {
		if t == w.Sc.Horizon {
			break // the run ends at this instant
		}
		tick := t > w.T0 && (t-w.T0)%d == 0
		var arrive, started []*Call
		for _, c := range w.Calls {
			if c.StartT == t {
				arrive = append(arrive, c)
			}
			if len(c.Bases) > 0 && c.Bases[0].StartT == t {
				started = append(started, c)
			}
		}
		if tick {
			if len(waiting) > 0 {
				w.Antec++
				if len(started) != 1 || !waiting[started[0]] {
					w.bad("release", "at refill %d (t=%d) %d waiting calls, %d forwarded instead of 1", (t-w.T0)/d, t, len(waiting), len(started))
					return
				}
				delete(waiting, started[0])
			} else {
				if len(started) > 0 {
					w.bad("release", "call forwarded at refill although none was waiting")
					return
				}
				if avail < B {
					avail++
				}
			}
			continue
		}
		// cancellations of waiting calls
		for _, c := range w.Calls {
			if waiting[c] && gives(c) && c.CtxEnd == t {
				w.Antec++
				if !c.Returned || c.EndT != t || !errors.Is(c.Err, c.CtxErr) {
					w.bad("give-up", "the context of waiting call %d %s ended at %d (%v); returned=%v at %d with %v", c.Op.ID, c.Op.Method, t, c.CtxErr, c.Returned, c.EndT, c.Err)
					return
				}
				if len(c.Bases) > 0 {
					w.bad("give-up", "call %d %s reached the wrapped implementation after its context had ended while waiting", c.Op.ID, c.Op.Method)
					return
				}
				delete(waiting, c)
			}
		}
		for _, c := range started {
			if c.StartT != t {
				w.bad("release", "call %d waiting since %d was forwarded at %d, between two refills (every %d since %d)", c.Op.ID, c.StartT, t, d, w.T0)
				return
			}
		}
		var forward int64
		for _, c := range arrive {
			if gives(c) && c.CtxEnd <= t && c.Returned && c.EndT == t && len(c.Bases) == 0 {
				if !errors.Is(c.Err, c.CtxErr) {
					w.bad("give-up", "call %d with a finished context returned %v", c.Op.ID, c.Err)
				}
				continue
			}
			forward++
			if len(c.Bases) == 0 || c.Bases[0].StartT != t {
				waiting[c] = true
			}
		}
		want := forward
		if avail < want {
			want = avail
		}
		if int64(len(started)) != want {
			w.bad("available", "at %d %d calls arrived with %d allowances available, %d were forwarded at once", t, forward, avail, len(started))
			return
		}
		avail -= want
		for c := range waiting {
			if gives(c) && c.CtxEnd <= t {
				w.bad("give-up", "call %d %s waits although its context has ended", c.Op.ID, c.Op.Method)
				return
			}
		}
	}
}

// ---- C09, C10 retry

func genRetry(r *rand.Rand, id string, u *Unit, stalls bool) *Scenario {
	s := base(r, id, u, stalls)
	s.N = pick(r, -1, 0, 1, 1, 2, 3, 5)
	s.D = pick(r, 5*ms, 10*ms)
	I := s.D
	most := 7
	if chance(r, 0.003) {
		s.N = 20 + r.Intn(280)
		most = s.N + 10
	}
	if s.N <= 0 && chance(r, 0.5) {
		s.D = pick[int64](r, 0, 0, -1) // without retries no interval is needed
	}
	ms_ := u.swarm(r, 1+r.Intn(2), func(m *Method) bool { return m.Err || r.Intn(6) == 0 })
	for i := 1 + r.Intn(3); i > 0; i-- {
		var c Client
		for j := 1 + r.Intn(2); j > 0; j-- {
			m := ms_[r.Intn(len(ms_))]
			o := &Op{Method: m.Name, Delay: pick(r, 0, lat(r, I))}
			n := r.Intn(7) // attempts that fail
			if most > 7 && chance(r, 0.5) {
				n = most - r.Intn(20)
			}
			for k := 0; k < n; k++ {
				p := Plan{Err: randErr(r), Yields: r.Intn(2), Honor: chance(r, 0.3)}
				if chance(r, 0.5) {
					p.Lat = lat(r, I)
				}
				if m.Ctx && n < 10 && chance(r, 0.07) {
					p.Cancel = true
				}
				if n < 10 && chance(r, 0.03) {
					p.Panic = "val"
				}
				o.Plans = append(o.Plans, p)
			}
			o.Plans = append(o.Plans, Plan{Lat: pick(r, 0, lat(r, I))})
			if m.Ctx {
				switch r.Intn(5) {
				case 0, 1:
				case 2:
					o.Ctx = CtxSpec{Kind: "cancel", After: 1 + r.Int63n(4*I)}
				case 3:
					o.Ctx = CtxSpec{Kind: "deadline", After: pick(r, 1+r.Int63n(4*I), I*int64(1+r.Intn(3)), I*int64(1+r.Intn(3))+1)}
				case 4:
					o.Ctx = CtxSpec{Kind: "cancel", Before: chance(r, 0.3)}
				}
			}
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	if chance(r, 0.2) {
		s.Faults = append(s.Faults, Fault{"wall", lat(r, 2*I), pick(r, -3600000*ms, 3600000*ms, I, -I)})
	}
	numberOps(s)
	k := int64(s.N)
	if k < 0 {
		k = 0
	}
	s.Horizon = total(s, (k+2)*I*2) + 200*ms
	if s.Strategy.StallP > 0 {
		s.Horizon += 4000 * ms
	}
	return s
}

func genC09(r *rand.Rand, u *Unit) *Scenario { return genRetry(r, "C09", u, true) }
func genC10(r *rand.Rand, u *Unit) *Scenario { return genRetry(r, "C10", u, false) }

func failed(b *Base) bool { return b.Ended && b.Panic == nil && !b.Goexit && b.Err != nil }

func evalC09(w *World) {
	w.checkArgs()
	w.mustReturn(nil)
	K := w.Sc.N
	if K < 0 {
		K = 0
	}
	for _, c := range w.Calls {
		if !c.Returned {
			continue
		}
		n := len(c.Bases)
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		if n == 0 {
			w.bad("count", "%s made no attempt", id)
			continue
		}
		max := 1 + K
		if !c.M.Err {
			max = 1
		}
		if n > max {
			w.bad("count", "%s made %d attempts, at most %d allowed", id, n, max)
			continue
		}
		for k := 1; k < n; k++ {
			p := c.Bases[k-1]
			if !p.Ended || p.End > c.Bases[k].Start {
				w.bad("overlap", "%s: attempt %d started before attempt %d had ended", id, k+1, k)
			}
			if !failed(p) {
				w.bad("not-failed", "%s: attempt %d made although attempt %d had not failed", id, k+1, k)
			}
		}
		last := c.Bases[n-1]
		if n > 1 {
			w.Antec++
		}
		if !w.passed(c, last, true) {
			continue
		}
		if c.M.Err && failed(last) && n < max && !(c.CtxEnd >= 0 && c.CtxEnd <= c.EndT) {
			w.bad("count", "%s gave up after %d of %d attempts although its context is alive", id, n, max)
		}
	}
}

func evalC10(w *World) {
	w.foreignPanics()
	I := w.Sc.D
	for _, c := range w.Calls {
		n := len(c.Bases)
		if n == 0 || !c.M.Err {
			continue
		}
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		first := c.Bases[0]
		if c.Bases[0].StartT != c.StartT {
			w.bad("late", "%s: first attempt at %d instead of %d", id, first.StartT, c.StartT)
		}
		if !first.Ended {
			continue
		}
		f := first.EndT
		end := c.CtxEnd
		if !c.M.Ctx {
			end = -1
		}
		for k := 1; k < n; k++ {
			w.Antec++
			b, prev := c.Bases[k], c.Bases[k-1]
			if b.StartT < f+int64(k)*I {
				w.bad("early", "%s: retry %d started %d ns after the first failure, %d intervals of %d had not passed", id, k, b.StartT-f, k, I)
			}
			lim := f + int64(k)*I
			if prev.EndT > lim {
				lim = prev.EndT
			}
			if b.StartT > lim+I {
				w.bad("late", "%s: retry %d started at %d, at the latest %d was due", id, k, b.StartT, lim+I)
			}
			if end >= 0 && b.StartT > end && b.StartT != prev.EndT {
				w.bad("after-end", "%s: retry %d started at %d after waiting although the context had ended at %d", id, k, b.StartT, end)
			}
		}
		last := c.Bases[n-1]
		if !last.Ended {
			continue
		}
		K := w.Sc.N
		if K < 0 {
			K = 0
		}
		waiting := failed(last) && n < 1+K
		want := last.EndT
		if waiting && end > want {
			want = end
		}
		if waiting && end < 0 {
			// must still be waiting, or be retried: an attempt is due within an interval
			lim := f + int64(n)*I
			if last.EndT > lim {
				lim = last.EndT
			}
			if !c.Returned && lim+I < w.Sc.Horizon {
				w.bad("late", "%s: no retry %d although it was due at %d", id, n, lim+I)
			}
			if c.Returned && !c.Panicked {
				w.bad("gave-up", "%s returned after %d of %d attempts although its context is alive", id, n, 1+K)
			}
			continue
		}
		if want >= w.Sc.Horizon {
			continue
		}
		if waiting {
			w.Antec++
		}
		if !c.Returned || c.EndT != want {
			w.bad("wait", "%s should have returned at %d (last attempt ended at %d, context ended at %d); returned=%v at %d", id, want, last.EndT, end, c.Returned, c.EndT)
		}
	}
}

// ---- C13 timeout

func genC13(r *rand.Rand, u *Unit) *Scenario {
	s := base(r, "C13", u, false)
	unit := 10 * ms
	s.Timeouts = map[string]int64{}
	for _, m := range u.Methods {
		if m.Ctx {
			switch r.Intn(6) {
			case 0:
			case 1:
				s.Timeouts[m.Name] = pick(r, -1, -5*ms, 0)
			default:
				s.Timeouts[m.Name] = pick(r, int64(1), unit, 2*unit, 1+r.Int63n(4*unit))
			}
		}
	}
	ms_ := u.swarm(r, 1+r.Intn(3), func(m *Method) bool { return m.Ctx || r.Intn(8) == 0 })
	for i := 1 + r.Intn(4); i > 0; i-- {
		var c Client
		for j := 1 + r.Intn(3); j > 0; j-- {
			m := ms_[r.Intn(len(ms_))]
			o := &Op{Method: m.Name, Delay: pick(r, 0, lat(r, unit))}
			p := randPlan(r, unit, 0.3, 0.1)
			p.Lat = pick(r, 0, lat(r, unit), lat(r, 4*unit), s.Timeouts[m.Name], s.Timeouts[m.Name]+1, 1+s.Timeouts[m.Name]/2)
			if p.Lat < 0 {
				p.Lat = 0
			}
			if m.Ctx && chance(r, 0.1) {
				p.Cancel = true
			}
			if chance(r, 0.1) {
				p.Jump = pick(r, 3600000*ms, -3600000*ms, unit)
			}
			o.Plans = []Plan{p}
			if m.Ctx {
				o.Ctx = randCtx(r, unit)
			}
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	numberOps(s)
	s.Horizon = total(s, 10*ms) + 100*ms
	return s
}

func evalC13(w *World) {
	w.foreignPanics()
	w.mustReturn(nil)
	for _, c := range w.Calls {
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		if c.Returned && len(c.Bases) != 1 {
			w.bad("count", "%s: %d wrapped calls", id, len(c.Bases))
		}
		if !c.M.Ctx || len(c.Bases) == 0 {
			continue
		}
		b := c.Bases[0]
		if b.ArgsBad != "" {
			w.bad("values", "%s: %s", id, b.ArgsBad)
		}
		if b.Ctx == nil {
			w.bad("values", "%s: no context", id)
			continue
		}
		to := w.Sc.Timeouts[c.Op.Method]
		// when and how it should end, ignoring the return
		exp, tie := c.CtxEnd, false
		want := c.CtxErr
		if to > 0 {
			w.Antec++
			dl := c.StartT + to
			switch {
			case exp < 0 || dl < exp:
				exp, want = dl, context.DeadlineExceeded
			case dl == exp:
				tie = true
			}
		}
		if b.Ctx.(context.Context).Done() == nil && (to > 0 || c.Op.Ctx.Kind != "") {
			w.bad("never", "%s: the wrapped call's context can never end", id)
			continue
		}
		endT := c.EndT
		if !c.Returned {
			endT = 1 << 62
		}
		if exp >= 0 && exp < endT && exp < w.Sc.Horizon {
			if exp < b.StartT {
				exp = b.StartT
			}
			if b.DoneT != exp {
				w.bad("end", "%s: the wrapped call's context should end at %d with %v, it ended at %d (-1: never) with %v", id, exp, want, b.DoneT, b.DoneErr)
				continue
			}
			if !tie && !errors.Is(b.DoneErr, want) {
				w.bad("error", "%s: the wrapped call's context ended with %v instead of %v", id, b.DoneErr, want)
			}
			continue
		}
		if b.DoneT >= 0 && b.DoneT < endT {
			w.bad("end", "%s: the wrapped call's context ended at %d with %v, expected not before %d (-1: never)", id, b.DoneT, b.DoneErr, exp)
			continue
		}
		if !c.Returned {
			continue
		}
		if to > 0 {
			if b.CtxErrAfter == nil {
				w.bad("alive", "%s: the wrapped call's context is still alive after the return", id)
			}
		} else if exp < 0 && (b.CtxErrAfter != nil || b.DoneT >= 0) {
			w.bad("end", "%s has no timeout; the context of its wrapped call ended although the caller's did not", id)
		}
	}
}
