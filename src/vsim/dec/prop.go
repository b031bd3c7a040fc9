package dec

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"

	"vsim/rt"
)

// Prop is the simulation of one property.
type Prop struct {
	ID   string
	Gen  func(r *rand.Rand, u *Unit) *Scenario
	Eval func(w *World)
}

// Props by id.
var Props = map[string]*Prop{}

func prop(id string, gen func(r *rand.Rand, u *Unit) *Scenario, eval func(w *World)) {
	Props[id] = &Prop{id, func(r *rand.Rand, u *Unit) *Scenario {
		s := gen(r, u)
		grow(r, s, u)
		return s
	}, eval}
}

const ms = int64(1e6)

// Evaluate fills w.Viol after a run.
func (w *World) Evaluate() {
	p := Props[w.Sc.Prop]
	if w.Res.Crash != nil {
		w.bad("crash", "unrecovered panic in goroutine %s: %s\n%s", w.Res.Crash.G, w.Res.Crash.Value, w.Res.Crash.Stack)
		return
	}
	if w.Res.Exhausted {
		w.bad("livelock", "no progress: %d steps without finishing the scenario", w.Res.Steps)
		return
	}
	if !w.D.IsValid() && w.Sc.Impls > 0 {
		w.bad("ctor", "constructor failed: %v %v", w.CtorErr, w.CtorBad)
		return
	}
	p.Eval(w)
}

// ---- random helpers

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

func strategy(r *rand.Rand, stalls bool) rt.Strategy {
	var s rt.Strategy
	switch r.Intn(10) {
	case 0:
		s.Kind = "block"
	case 1, 2, 3:
		s.Kind = "pct"
		s.Changes = 1 + r.Intn(5)
		s.Horizon = pick(r, 40, 120, 400)
		s.MemP = 1
	default:
		s.Kind = "random"
		s.SwitchP = pick(r, 0.05, 0.2, 0.5, 0.8)
		s.MemP = pick(r, 0, 0.02, 0.1, 0.3)
	}
	if stalls && chance(r, 0.3) {
		s.StallP = pick(r, 0.01, 0.05)
		s.StallMax = pick(r, 1*ms, 7*ms, 40*ms)
	}
	return s
}

func base(r *rand.Rand, id string, u *Unit, stalls bool) *Scenario {
	return &Scenario{Prop: id, Unit: u.Name, Seed: r.Int63(), Strategy: strategy(r, stalls), SyncTimers: chance(r, 0.5), Impls: 1, Flags: map[string]int{}}
}

func (u *Unit) some(r *rand.Rand, ok func(m *Method) bool) *Method {
	var l []*Method
	for i := range u.Methods {
		if ok == nil || ok(&u.Methods[i]) {
			l = append(l, &u.Methods[i])
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[r.Intn(len(l))]
}

// swarm restricts a run to a few methods so that calls meet.
func (u *Unit) swarm(r *rand.Rand, n int, ok func(m *Method) bool) []*Method {
	var l []*Method
	for i := 0; i < n; i++ {
		if m := u.some(r, ok); m != nil {
			l = append(l, m)
		}
	}
	return l
}

func lat(r *rand.Rand, unit int64) int64 {
	switch r.Intn(8) {
	case 0, 1, 2:
		return 0
	case 3:
		return unit
	case 4:
		return unit * int64(1+r.Intn(4))
	case 5:
		return unit*int64(1+r.Intn(4)) + int64(r.Intn(3)) - 1
	}
	return 1 + r.Int63n(3*unit)
}

func numberOps(s *Scenario) {
	for i, o := range s.Ops() {
		o.ID = i + 1
	}
}

// few is a number of members, attempts and the like: mostly small.
func few(r *rand.Rand, n int) int {
	if chance(r, 0.01) {
		return 1 + r.Intn(40)
	}
	return 1 + r.Intn(n)
}

// grow makes long histories of a few scenarios.
func grow(r *rand.Rand, s *Scenario, u *Unit) {
	switch r.Intn(40) {
	case 0:
		s.Flags["odd"] = 1
	case 1:
		s.Flags["odd"] = 2
	}
	x := r.Intn(100000)
	if len(s.Clients) == 0 || x > 400 || s.Prop == "C03" {
		return
	}
	if x < 5 && u.Template == "robinpool" {
		// beyond the range of small counters
		s.Clients = s.Clients[:1]
		c := &s.Clients[0]
		c.Ops = c.Ops[:1]
		o := c.Ops[0]
		o.Delay, o.Ctx, o.Plans = 0, CtxSpec{}, []Plan{{}}
		o.Times = 66000
		s.Strategy.StallP, s.Strategy.MemP = 0, 0
		s.Faults = nil
		s.Impls = pick(r, 3, 5, 6, 7)
		return
	}
	most := 1
	n := 100 + r.Intn(500)
	for i := range s.Clients {
		c := &s.Clients[i]
		if chance(r, 0.4) {
			k := n / (len(c.Ops) * len(s.Clients))
			c.Repeat = k
			if most < k+1 {
				most = k + 1
			}
			continue
		}
		for _, o := range c.Ops {
			if chance(r, 0.3) {
				o.Times = n / (len(c.Ops) * len(s.Clients))
				if most < o.Times+1 {
					most = o.Times + 1
				}
			}
		}
	}
	s.Horizon *= int64(most)
}

// total is an upper bound for the simulated time a scenario's callers need.
func total(s *Scenario, perOp int64) int64 {
	t := int64(0)
	for _, o := range s.Ops() {
		t += o.Delay + perOp
		if o.Ctx.After < 100000*ms { // longer ones stand for contexts that outlive the run
			t += o.Ctx.After
		}
		for _, p := range o.Plans {
			t += p.Lat
		}
	}
	for _, f := range s.Faults {
		t += f.At
	}
	return t
}

func (m *Method) nilParams(r *rand.Rand) []int {
	var l []int
	for i := range m.Params {
		if (i > 0 || !m.Ctx) && chance(r, 0.5) {
			l = append(l, i)
		}
	}
	return l
}

func randCtx(r *rand.Rand, unit int64) CtxSpec {
	switch r.Intn(7) {
	case 0, 1:
		return CtxSpec{}
	case 2:
		return CtxSpec{Kind: "cancel"}
	case 3:
		return CtxSpec{Kind: "cancel", After: 1 + lat(r, unit)}
	case 4:
		return CtxSpec{Kind: "deadline", After: 1 + lat(r, unit)}
	case 5:
		return CtxSpec{Kind: pick(r, "cancel", "deadline"), Before: true}
	}
	return CtxSpec{Kind: "deadline", After: 1000000 * ms}
}

func randErr(r *rand.Rand) string {
	return pick(r, "e", "e", "e", "shared", "uncmp", "tnil", "joined", "canceled", "deadline")
}

func randPlan(r *rand.Rand, unit int64, pErr, pPanic float64) Plan {
	p := Plan{Lat: lat(r, unit), Yields: r.Intn(3), Honor: chance(r, 0.3), Zero: chance(r, 0.1)}
	if chance(r, pErr) {
		p.Err = randErr(r)
	}
	if chance(r, pPanic) {
		p.Panic = pick(r, "val", "val", "err", "rt", "goexit")
	}
	return p
}

// ---- evaluation helpers

func samePanic(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return fmt.Sprint(a) == fmt.Sprint(b)
}

func sameErr(a, b error) bool {
	return same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
}

// passed checks that a call ended exactly as wrapped call b did; errToo includes the error result.
func (w *World) passed(c *Call, b *Base, errToo bool) bool {
	id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
	if !b.Ended || b.End > c.End {
		w.bad("early-return", "%s returned before the wrapped call it reports ended", id)
		return false
	}
	if b.Goexit {
		if !c.Goexit {
			w.bad("goexit", "%s returned although the wrapped call terminated its goroutine", id)
			return false
		}
		return true
	}
	if c.Goexit {
		w.bad("goexit", "%s terminated the caller's goroutine", id)
		return false
	}
	if b.Panic != nil {
		if !c.Panicked {
			w.bad("panic", "%s returned although the wrapped call panicked", id)
			return false
		}
		if !samePanic(c.Panic, b.Panic) {
			w.bad("panic", "%s panicked with %v instead of the wrapped call's %v", id, c.Panic, b.Panic)
			return false
		}
		return true
	}
	if c.Panicked {
		w.bad("panic", "%s panicked with %v, the wrapped call did not", id, c.Panic)
		return false
	}
	n := len(c.Results)
	if n != len(b.Results) {
		w.bad("results", "%s: %d results instead of %d", id, n, len(b.Results))
		return false
	}
	for i := 0; i < n; i++ {
		if i == n-1 && c.M.Err && !errToo {
			continue
		}
		if !same(b.Results[i], c.Results[i]) {
			w.bad("results", "%s: result %d is %s, the wrapped call returned %s", id, i, showOne(c.Results[i]), showOne(b.Results[i]))
			return false
		}
	}
	return true
}

// checkArgs reports wrapped calls with wrong arguments.
func (w *World) checkArgs() {
	for _, b := range w.Bases {
		if b.ArgsBad != "" {
			w.bad("args", "wrapped call of %s for call %d: %s", b.Method, b.Op.Op.ID, b.ArgsBad)
		}
	}
}

// foreignPanics reports panics that no wrapped implementation raised.
func (w *World) foreignPanics() {
	for _, c := range w.Calls {
		if !c.Panicked {
			continue
		}
		ok := false
		for _, b := range c.Bases {
			if b.Panic != nil && samePanic(b.Panic, c.Panic) {
				ok = true
			}
		}
		if !ok {
			w.bad("foreign-panic", "call %d %s panicked with %v", c.Op.ID, c.Op.Method, c.Panic)
		}
	}
}

func hasStuck(o *Op) bool {
	for _, p := range o.Plans {
		if p.Stuck || p.Nested != nil && hasStuck(p.Nested) {
			return true
		}
	}
	return false
}

// mustReturn reports calls that are still waiting at the end although nothing they wait for is missing.
func (w *World) mustReturn(excuse func(c *Call) bool) {
	for _, c := range w.Calls {
		if !c.Returned && !hasStuck(c.Op) && c.Running() == 0 && (excuse == nil || !excuse(c)) {
			w.bad("no-return", "call %d %s never returned (%d wrapped calls made, all ended)", c.Op.ID, c.Op.Method, len(c.Bases))
		}
	}
}

func overlap(w *World) bool {
	l := append([]*Call(nil), w.Calls...)
	sort.Slice(l, func(i, j int) bool { return l[i].Start < l[j].Start })
	for i := 1; i < len(l); i++ {
		if a := l[i-1]; !a.Returned || l[i].Start < a.End {
			return true
		}
	}
	return false
}
