package dec

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func init() {
	prop("C04", func(r *rand.Rand, u *Unit) *Scenario { return genFallback(r, "C04", u) }, evalC04)
	prop("C05", func(r *rand.Rand, u *Unit) *Scenario { return genFallback(r, "C05", u) }, evalC05)
	prop("C06", func(r *rand.Rand, u *Unit) *Scenario { return genFallback(r, "C06", u) }, evalC06)
	prop("C11", genC11, evalC11)
	prop("C12", genC12, evalC12)
}

// ---- C04, C05, C06 fallback

func genFallback(r *rand.Rand, id string, u *Unit) *Scenario {
	s := base(r, id, u, false)
	s.Impls = few(r, 4)
	s.D = pick(r, 10*ms, 7*ms)
	ms_ := u.swarm(r, 1+r.Intn(2), nil)
	pErr := pick(r, 0.3, 0.6, 0.9)
	meet := chance(r, 0.06) // all of them end at the same instant
	if meet && chance(r, 0.5) {
		pErr = 1
		if chance(r, 0.1) {
			s.Impls = 5 + r.Intn(30)
		}
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		var c Client
		for j := 1 + r.Intn(2); j > 0; j-- {
			m := ms_[r.Intn(len(ms_))]
			o := &Op{Method: m.Name, Delay: pick(r, 0, 0, lat(r, s.D))}
			if m.Ctx {
				switch r.Intn(6) {
				case 0:
					o.Ctx = CtxSpec{Kind: "cancel", After: 1 + r.Int63n(4*s.D)}
				case 1:
					o.Ctx = CtxSpec{Kind: "deadline", After: pick(r, 1+r.Int63n(4*s.D), s.D, 2*s.D)}
				case 2:
					o.Ctx = CtxSpec{Kind: "cancel", Before: chance(r, 0.2)}
				}
			}
			for k := 0; k < s.Impls; k++ {
				p := Plan{Yields: r.Intn(3), Zero: chance(r, 0.1)}
				switch r.Intn(8) {
				case 0, 1, 2:
				case 3:
					p.Lat = s.D
				case 4:
					p.Lat = 1 + r.Int63n(s.D)
				case 5:
					p.Lat = s.D*int64(1+r.Intn(3)) + int64(r.Intn(3)) - 1
				case 6:
					p.Lat = 1 + r.Int63n(4*s.D)
				case 7:
					if chance(r, 0.3) {
						p.Stuck = true
					}
				}
				if meet {
					p.Lat, p.Stuck = s.D*int64(s.Impls-k), false
				}
				p.Honor = chance(r, 0.4)
				if chance(r, pErr) {
					p.Err = randErr(r)
				}
				o.Plans = append(o.Plans, p)
			}
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	if chance(r, 0.15) {
		s.Faults = append(s.Faults, Fault{"wall", lat(r, 2*s.D), pick(r, -3600000*ms, 3600000*ms, s.D)})
	}
	numberOps(s)
	s.Horizon = total(s, int64(s.Impls+2)*s.D) + 50*ms
	return s
}

// over is the earliest instant at which a fallback call can and must return (-1: never).
func (w *World) over(c *Call) int64 {
	t := int64(-1)
	min := func(x int64) {
		if t < 0 || x < t {
			t = x
		}
	}
	fails, last := 0, int64(0)
	for _, b := range c.Bases {
		if !b.Ended {
			continue
		}
		if c.M.Err && b.Err != nil {
			fails++
			if b.EndT > last {
				last = b.EndT
			}
			continue
		}
		min(b.EndT)
	}
	if fails == w.Sc.Impls {
		min(last)
	}
	if c.M.Ctx && c.CtxEnd >= 0 {
		x := c.CtxEnd
		if x < c.StartT {
			x = c.StartT
		}
		min(x)
	}
	return t
}

func evalC06(w *World) {
	w.foreignPanics()
	for _, c := range w.Calls {
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		t := w.over(c)
		if t < 0 || t >= w.Sc.Horizon {
			if c.Returned {
				w.bad("early", "%s returned at %d although no implementation has succeeded, not all have failed and its context is alive", id, c.EndT)
			}
			continue
		}
		w.Antec++
		if !c.Returned {
			w.bad("lost", "%s never returned, it should have at %d", id, t)
			continue
		}
		if c.EndT > t {
			w.bad("late", "%s returned at %d, it should have at %d", id, c.EndT, t)
		}
		if c.EndT < t {
			w.bad("early", "%s returned at %d although nothing was decided before %d", id, c.EndT, t)
		}
	}
}

func evalC04(w *World) {
	w.foreignPanics()
	for _, c := range w.Calls {
		if !c.Returned || c.Panicked {
			continue
		}
		w.Antec++
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		ctxEnded := c.M.Ctx && c.CtxEnd >= 0 && c.CtxEnd <= c.EndT
		firstT := int64(-1)
		fails := 0
		for _, b := range c.Bases {
			if !b.Ended {
				continue
			}
			if c.M.Err && b.Err != nil {
				if b.EndT <= c.EndT && b.End < c.End {
					fails++
				}
				continue
			}
			if firstT < 0 || b.EndT < firstT {
				firstT = b.EndT
			}
		}
		if !c.M.Err || c.Err == nil {
			if b := w.fallbackOwn(c); b != nil {
				if b.EndT != firstT {
					// results of methods without distinguishing results may equal several wrapped calls
					ok := false
					for _, x := range c.Bases {
						if x.Ended && x.Err == nil && x.EndT == firstT && sameList(x.Results, c.Results) {
							ok = true
						}
					}
					if !ok {
						w.bad("not-first", "%s returned the results of implementation %d, which ended at %d; the first success was at %d", id, b.Impl, b.EndT, firstT)
					}
				}
			}
			continue
		}
		// an error
		if firstT >= 0 && firstT < c.EndT {
			w.bad("error", "%s returned %v although an implementation had succeeded at %d", id, c.Err, firstT)
			continue
		}
		all := fails == w.Sc.Impls
		byCtx := ctxEnded && errors.Is(c.Err, c.CtxErr)
		if !all && !byCtx {
			if ctxEnded {
				w.bad("ctx-error", "%s: its context ended with %v, the error is %v", id, c.CtxErr, c.Err)
			} else {
				w.bad("error", "%s returned %v although only %d of %d implementations have failed and its context is alive", id, c.Err, fails, w.Sc.Impls)
			}
			continue
		}
		for _, b := range c.Bases {
			if failed(b) && (b.EndT < c.EndT || all && !byCtx) && b.EndT <= c.EndT && !strings.Contains(c.Err.Error(), b.Err.Error()) {
				w.bad("names", "%s: the error %q does not name the failure %q of implementation %d", id, c.Err.Error(), b.Err.Error(), b.Impl)
			}
		}
	}
}

func evalC05(w *World) {
	w.foreignPanics()
	n := w.Sc.Impls
	I := w.Sc.D
	for _, c := range w.Calls {
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		byImpl := make([]*Base, n)
		for _, b := range c.Bases {
			if byImpl[b.Impl] != nil {
				w.bad("twice", "%s: implementation %d started twice", id, b.Impl)
				return
			}
			byImpl[b.Impl] = b
		}
		stop := w.over(c)
		endT := c.EndT
		if !c.Returned {
			endT = w.Sc.Horizon - 1
		}
		if c.Returned && stop >= 0 && stop < endT {
			endT = stop // late returns are the subject of C06
		}
		gap := false
		for k, b := range byImpl {
			if b == nil {
				gap = true
				continue
			}
			if gap {
				w.bad("order", "%s: implementation %d started although an earlier one was not", id, k)
				return
			}
			if k > 0 && b.StartT < byImpl[k-1].StartT {
				w.bad("order", "%s: implementation %d started before implementation %d", id, k, k-1)
				return
			}
			if b.StartT > endT {
				w.bad("after", "%s: implementation %d started at %d, after the call was decided at %d", id, k, b.StartT, endT)
				return
			}
		}
		// exact number started at the end of every instant before the return
		inst := map[int64]bool{c.StartT: true}
		for _, b := range c.Bases {
			inst[b.StartT] = true
			if b.Ended {
				inst[b.EndT] = true
			}
		}
		for k := int64(1); k <= int64(n); k++ {
			inst[c.StartT+k*I] = true
		}
		var ts []int64
		for t := range inst {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		for _, t := range ts {
			if t < c.StartT || t > endT {
				continue
			}
			started, fails := 0, int64(0)
			for _, b := range c.Bases {
				if b.StartT <= t {
					started++
				}
				if c.M.Err && failed(b) && b.EndT <= t {
					fails++
				}
			}
			want := 1 + (t-c.StartT)/I + fails
			if want > int64(n) {
				want = int64(n)
			}
			if t > c.StartT {
				w.Antec++
			}
			if int64(started) > want {
				w.bad("early", "%s: %d implementations started by %d ns after the call with %d failures, %d allowed", id, started, t-c.StartT, fails, want)
				return
			}
			if int64(started) < want && t < endT {
				w.bad("late", "%s: only %d implementations started by %d ns after the call with %d failures, %d expected", id, started, t-c.StartT, fails, want)
				return
			}
		}
	}
}

// ---- C11 round robin

func genC11(r *rand.Rand, u *Unit) *Scenario {
	s := base(r, "C11", u, true)
	if chance(r, 0.02) {
		s.Impls = 0
		s.Flags["must"] = r.Intn(2)
		s.Horizon = ms
		s.Clients = []Client{}
		return s
	}
	s.Impls = few(r, 5)
	s.Flags["must"] = r.Intn(2)
	ms_ := u.swarm(r, 1+r.Intn(3), nil)
	nc := 1 + r.Intn(5)
	for i := 0; i < nc; i++ {
		var c Client
		k := 1 + r.Intn(4)
		if nc == 1 {
			k = 3 + r.Intn(10)
		}
		for ; k > 0; k-- {
			m := ms_[r.Intn(len(ms_))]
			p := randPlan(r, 5*ms, 0.2, 0.1)
			o := &Op{Method: m.Name, Delay: pick(r, 0, 0, lat(r, 5*ms)), Plans: []Plan{p}}
			if m.Ctx {
				o.Ctx = randCtx(r, 5*ms)
			}
			if chance(r, 0.1) {
				n := ms_[r.Intn(len(ms_))]
				o.Plans[0].Nested = &Op{Method: n.Name, Plans: []Plan{{}}}
			}
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	numberOps(s)
	s.Horizon = total(s, ms) + 100*ms
	if s.Strategy.StallP > 0 {
		s.Horizon += 4000 * ms
	}
	return s
}

func evalC11(w *World) {
	if w.Sc.Impls == 0 {
		w.Antec++
		if w.D.IsValid() || w.CtorErr == nil && w.CtorBad == nil {
			w.bad("empty", "an empty pool was accepted")
		}
		if w.CtorBad != nil && w.Sc.flag("must") == 0 {
			w.bad("empty", "an empty pool made the constructor panic instead of returning an error: %v", w.CtorBad)
		}
		return
	}
	w.foreignPanics()
	w.mustReturn(nil)
	n := w.Sc.Impls
	type ev struct {
		seq  int64
		d    int
		impl int
	}
	var evs []ev
	for _, c := range w.Calls {
		if c.Returned && len(c.Bases) != 1 {
			w.bad("count", "call %d %s was delegated %d times", c.Op.ID, c.Op.Method, len(c.Bases))
			return
		}
		evs = append(evs, ev{c.Start, 1, -1})
		if c.Returned {
			evs = append(evs, ev{c.End, -1, -1})
		}
		for _, b := range c.Bases {
			evs = append(evs, ev{b.Start, 0, b.Impl})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].seq < evs[j].seq })
	counts := make([]int, n)
	busy := 0
	for _, e := range evs {
		busy += e.d
		if e.impl >= 0 {
			counts[e.impl]++
		}
		if busy == 0 {
			lo, hi := counts[0], counts[0]
			for _, x := range counts {
				if x < lo {
					lo = x
				}
				if x > hi {
					hi = x
				}
			}
			if n > 1 {
				w.Antec++
			}
			if hi-lo > 1 {
				w.bad("uneven", "no call in progress, calls per member %v", counts)
				return
			}
		}
	}
	nested := false
	for _, c := range w.Calls {
		if c.Parent != nil {
			nested = true
		}
	}
	if len(w.Sc.Clients) == 1 && !nested {
		for i := 1; i < len(w.Bases); i++ {
			if w.Bases[i].Impl != (w.Bases[i-1].Impl+1)%n {
				w.bad("cycle", "a single caller visited member %d after member %d of %d", w.Bases[i].Impl, w.Bases[i-1].Impl, n)
				return
			}
		}
	}
}

// ---- C12 sync pool

func genC12(r *rand.Rand, u *Unit) *Scenario {
	s := base(r, "C12", u, false)
	if chance(r, 0.005) {
		s.Impls = 0
		s.Horizon = ms
		s.Clients = []Client{}
		return s
	}
	s.Impls = few(r, 4)
	ms_ := u.swarm(r, 1+r.Intn(3), nil)
	nc := few(r, 5)
	span := int64(0)
	for i := 0; i < nc; i++ {
		var c Client
		for k := 1 + r.Intn(3); k > 0; k-- {
			m := ms_[r.Intn(len(ms_))]
			p := randPlan(r, 5*ms, 0.2, 0.25)
			if p.Panic == "goexit" {
				p.Panic = "val"
			}
			o := &Op{Method: m.Name, Delay: pick(r, 0, 0, lat(r, 5*ms)), Plans: []Plan{p}}
			if m.Ctx {
				o.Ctx = randCtx(r, 5*ms)
			}
			if s.Impls > nc && chance(r, 0.15) {
				n := ms_[r.Intn(len(ms_))]
				o.Plans[0].Nested = &Op{Method: n.Name, Plans: []Plan{{Lat: lat(r, 2*ms)}}}
			}
			span += o.Delay + p.Lat + 10*ms
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	// afterwards: as many calls at once as there are members
	at := span + 100*ms
	for i := 0; i < s.Impls; i++ {
		m := u.some(r, nil)
		s.Clients = append(s.Clients, Client{Ops: []*Op{{Method: m.Name, Delay: at, Plans: []Plan{{Lat: 10 * ms}}}}})
	}
	numberOps(s)
	s.Horizon = at + 200*ms
	return s
}

func evalC12(w *World) {
	if w.Sc.Impls == 0 {
		w.Antec++
		if w.D.IsValid() || w.CtorErr == nil && w.CtorBad == nil {
			w.bad("empty", "an empty pool was accepted")
		}
		return
	}
	w.foreignPanics()
	n := w.Sc.Impls
	H := w.Sc.Horizon
	type iv struct{ from, to int64 }
	var busy []iv
	pts := map[int64]bool{0: true, H: true}
	for _, b := range w.Bases {
		if b.Active > 1 {
			w.bad("shared", "member %d serves %d calls at the same time (call %d %s)", b.Impl, b.Active, b.Op.Op.ID, b.Method)
		}
		to := H
		if b.Op.Returned {
			to = b.Op.EndT
		}
		busy = append(busy, iv{b.StartT, to})
		pts[b.StartT], pts[to] = true, true
	}
	for _, c := range w.Calls {
		pts[c.StartT] = true
	}
	var ts []int64
	for t := range pts {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	for _, c := range w.Calls {
		if c.Returned && len(c.Bases) != 1 {
			w.bad("count", "call %d %s was delegated %d times", c.Op.ID, c.Op.Method, len(c.Bases))
			return
		}
		if len(c.Bases) > 0 && c.Bases[0].Ended && c.Returned && c.EndT != c.Bases[0].EndT {
			w.bad("delay", "call %d %s returned %d ns after its wrapped call", c.Op.ID, c.Op.Method, c.EndT-c.Bases[0].EndT)
		}
		if len(c.Bases) > 0 && c.Bases[0].Ended && !c.Returned {
			w.bad("stuck", "call %d %s does not return although its wrapped call has ended", c.Op.ID, c.Op.Method)
		}
		from, to := c.StartT, H
		if len(c.Bases) > 0 {
			to = c.Bases[0].StartT
		}
		if from == to {
			continue
		}
		w.Antec++
		for i := 0; i+1 < len(ts); i++ {
			if ts[i] < from || ts[i+1] > to {
				continue
			}
			k := 0
			for _, b := range busy {
				if b.from <= ts[i] && b.to >= ts[i+1] {
					k++
				}
			}
			if k < n {
				w.bad("waits", "call %d %s waits between %d and %d although only %d of %d members are busy", c.Op.ID, c.Op.Method, ts[i], ts[i+1], k, n)
				return
			}
		}
	}
	if w.Sc.Impls > 1 {
		w.Antec++
	}
}
