// Package rt is the simulator runtime: goroutines are real goroutines that are parked and
// released one at a time, and every decision (who runs, which select case, which fault, which
// map order) is drawn from one seeded, recorded choice stream. Time is a discrete-event clock.
package rt

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Strategy of the scheduler for one run.
type Strategy struct {
	Kind     string  `json:"kind"`               // "random", "pct", "block"
	SwitchP  float64 `json:"switch_p,omitempty"` // random: probability to switch at a preemption point
	MemP     float64 `json:"mem_p,omitempty"`    // probability that a memory access is a preemption point
	Changes  int     `json:"changes,omitempty"`  // pct: number of priority change points
	Horizon  int     `json:"horizon,omitempty"`  // pct: steps over which change points are spread
	StallP   float64 `json:"stall_p,omitempty"`  // probability of stalling a goroutine at a preemption point
	StallMax int64   `json:"stall_max,omitempty"`
}

// Choice is one recorded decision that differs from the default (0).
type Choice struct {
	I int `json:"i"` // index of the choice point
	C int `json:"c"` // value chosen
}

// Config of one run.
type Config struct {
	Seed       int64
	Strategy   Strategy
	Replay     bool // take decisions from Choices (0 where absent) instead of the PRNG
	Choices    []Choice
	SyncTimers bool // go1.23 timer channels (no stale values after Stop/Reset)
	MaxSteps   int
	KeepLog    bool
	NoRace     bool
}

// Result of one run.
type Result struct {
	Choices    []Choice
	Steps      int
	Points     int
	Switches   int
	Hash       uint64 // hash of the complete event log
	SchedHash  uint64 // hash of the interleaving (who did which operation in which order)
	SimTime    int64
	Exhausted  bool // MaxSteps reached
	Crash      *Crash
	Races      []Race
	Leftover   []Leftover
	Log        []string
	Stalls     int
	TimersOnce int
}

// Crash is an unrecovered panic in a simulated goroutine (or a fatal runtime error).
type Crash struct {
	G     string
	Value string
	Stack string
}

// Race is a pair of conflicting accesses not ordered by happens-before.
type Race struct {
	Kind         string // "write/write", "read/write", ...
	SiteA, SiteB int
}

// Leftover is something still alive at the end of the run.
type Leftover struct {
	What string // goroutine, ticker, timer, context
	Tag  any
	Desc string
	Harn bool
}

type gstate int

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gDead
)

// G is a simulated goroutine.
type G struct {
	id      int
	name    string
	Tag     any
	Harn    bool // created by the harness (not by code under test)
	wake    chan struct{}
	exited  chan struct{}
	state   gstate
	reason  string
	vc      VC
	prio    int
	queued  bool
	harnDep int
}

// ID returns the goroutine's number within the run.
func (g *G) ID() int { return g.id }

// Sim is the state of one run.
type Sim struct {
	cfg      Config
	rng      *rand.Rand
	replay   map[int]int
	out      []Choice
	points   int
	steps    int
	now      int64
	wallOff  int64
	seq      int64
	gs       []*G
	runq     []*G
	cur      *G
	timers   timerHeap
	tseq     int64
	chans    map[unsafe.Pointer]*chanState
	syncs    map[unsafe.Pointer]VC
	waits    map[unsafe.Pointer][]*G
	id       int64
	rnd      *rand.Rand
	shadow   map[unsafe.Pointer]*shadowCell
	races    []Race
	raceSeen map[Race]bool
	dying    bool
	done     chan struct{}
	finished bool
	hash     uint64
	shash    uint64
	switches int
	crash    *Crash
	exhaust  bool
	log      []string
	ctxs     []*CtxRec
	tickers  map[*Timer]struct{}
	changeAt map[int]bool
	lowPrio  int
	stalls   int
	streak   int
	Data     any // for the harness
	siteHits map[int]int
}

// S is the current simulation, nil outside of a run.
var S *Sim

// Active reports whether code runs inside a simulation and is not being torn down.
func Active() bool { return S != nil && !S.dying }

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*Timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// Timer is a pending event of simulated time.
type Timer struct {
	when   int64
	period int64
	seq    int64
	idx    int
	f      func()
	Tag    any
	Harn   bool
	Kind   string
}

// Run executes main as the first goroutine of a fresh simulation and returns when it returns.
func Run(cfg Config, main func()) *Result {
	if S != nil {
		panic("rt: nested simulation")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
	}
	runs++
	s := &Sim{cfg: cfg, rng: rand.New(rand.NewSource(cfg.Seed)), chans: map[unsafe.Pointer]*chanState{},
		syncs: map[unsafe.Pointer]VC{}, waits: map[unsafe.Pointer][]*G{}, id: runs, shadow: map[unsafe.Pointer]*shadowCell{}, raceSeen: map[Race]bool{},
		done: make(chan struct{}), hash: 14695981039346656037, shash: 14695981039346656037, tickers: map[*Timer]struct{}{}}
	if cfg.Replay {
		s.replay = make(map[int]int, len(cfg.Choices))
		for _, c := range cfg.Choices {
			s.replay[c.I] = c.C
		}
	}
	if cfg.Strategy.Kind == "pct" {
		s.changeAt = map[int]bool{}
		h := cfg.Strategy.Horizon
		if h <= 0 {
			h = 200
		}
		for i := 0; i < cfg.Strategy.Changes; i++ {
			s.changeAt[s.rng.Intn(h)] = true
		}
	}
	S = s
	beats.Add(1)
	s.resetGlobals()
	g := s.newG("main", nil, true)
	s.start(g, func() { main() })
	// hand the baton to main
	s.removeRun(g)
	s.cur = g
	g.state = gRunning
	g.wake <- struct{}{}
	<-s.done
	// tear down: collect what is left, then unwind all goroutines one at a time
	res := &Result{}
	for _, x := range s.gs {
		if x.state != gDead && x != g {
			res.Leftover = append(res.Leftover, Leftover{What: "goroutine", Tag: x.Tag, Desc: x.name + " " + x.reason, Harn: x.Harn})
		}
	}
	for _, t := range s.timers {
		res.Leftover = append(res.Leftover, Leftover{What: t.Kind, Tag: t.Tag, Harn: t.Harn, Desc: t.Kind})
	}
	for _, c := range s.ctxs {
		if !c.Cancelled {
			res.Leftover = append(res.Leftover, Leftover{What: "context", Tag: c.Tag, Harn: c.Harn, Desc: c.Kind})
		}
	}
	sort.SliceStable(res.Leftover, func(i, j int) bool { return res.Leftover[i].What < res.Leftover[j].What })
	s.dying = true
	for i := 0; i < len(s.gs); i++ {
		x := s.gs[i]
		if x.state == gDead {
			continue
		}
		s.cur = x
		x.wake <- struct{}{}
		<-x.exited
	}
	S = nil
	res.Choices = s.out
	res.Steps = s.steps
	res.Points = s.points
	res.Switches = s.switches
	res.Hash = s.hash
	res.SchedHash = s.shash
	res.SimTime = s.now
	res.Exhausted = s.exhaust
	res.Crash = s.crash
	sort.Slice(s.races, func(i, j int) bool {
		a, b := s.races[i], s.races[j]
		if a.SiteA != b.SiteA {
			return a.SiteA < b.SiteA
		}
		if a.SiteB != b.SiteB {
			return a.SiteB < b.SiteB
		}
		return a.Kind < b.Kind
	})
	res.Races = s.races
	res.Log = s.log
	res.Stalls = s.stalls
	return res
}

func (s *Sim) mix(a, b, c uint64) {
	h := s.hash
	h = (h ^ a) * 1099511628211
	h = (h ^ b) * 1099511628211
	h = (h ^ c) * 1099511628211
	s.hash = h
}

func (s *Sim) smix(a, b uint64) {
	h := s.shash
	h = (h ^ a) * 1099511628211
	h = (h ^ b) * 1099511628211
	s.shash = h
}

func hashStr(x string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(x))
	return h.Sum64()
}

// Note adds a line of the harness to the event log (and to its hash).
func Note(format string, args ...any) {
	s := S
	if s == nil || s.dying {
		return
	}
	line := fmt.Sprintf(format, args...)
	s.mix(hashStr(line), uint64(s.now), uint64(s.steps))
	if s.cfg.KeepLog {
		id := 0
		if s.cur != nil {
			id = s.cur.id
		}
		s.log = append(s.log, fmt.Sprintf("%6d t=%-12d g%-3d %s", s.steps, s.now, id, line))
	}
}

func (s *Sim) logOp(kind string, site int) {
	s.mix(uint64(s.cur.id), hashKind(kind), uint64(site)<<20^uint64(s.now))
	if s.cfg.KeepLog {
		s.log = append(s.log, fmt.Sprintf("%6d t=%-12d g%-3d %s site=%d", s.steps, s.now, s.cur.id, kind, site))
	}
}

func hashKind(k string) uint64 {
	var h uint64 = 7
	for i := 0; i < len(k); i++ {
		h = h*131 + uint64(k[i])
	}
	return h
}

func (s *Sim) newG(name string, parent *G, harn bool) *G {
	g := &G{id: len(s.gs) + 1, name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}), Harn: harn, state: gRunnable}
	s.gs = append(s.gs, g)
	if parent != nil {
		g.Tag = parent.Tag
		g.vc = parent.vc.clone()
	}
	g.vc.set(g.id, 1)
	if s.cfg.Strategy.Kind == "pct" {
		g.prio = 1 + s.rng.Intn(1000000)
	}
	if parent != nil {
		parent.vc.set(parent.id, parent.vc.get(parent.id)+1)
	}
	return g
}

func (s *Sim) start(g *G, f func()) {
	s.runq = append(s.runq, g)
	g.queued = true
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if !s.dying && s.crash == nil {
					s.crash = &Crash{G: g.name, Value: fmt.Sprint(r), Stack: string(debug.Stack())}
					if len(s.crash.Stack) > 6000 {
						s.crash.Stack = s.crash.Stack[:6000]
					}
					s.mix(hashStr("crash"), uint64(g.id), 0)
					g.state = gDead
					close(g.exited)
					s.finish()
					return
				}
			}
			g.state = gDead
			if s.dying {
				close(g.exited)
				return
			}
			s.logOp("exit", 0)
			close(g.exited)
			if g.id == 1 {
				s.finish()
				return
			}
			s.switchFrom(g, false)
		}()
		<-g.wake
		if s.dying {
			return
		}
		f()
	}()
}

func (s *Sim) finish() {
	if !s.finished {
		s.finished = true
		close(s.done)
	}
}

// Go starts a goroutine of the code under test.
func Go(f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.dying {
		runtime.Goexit()
	}
	g := s.newG(fmt.Sprintf("g%d", len(s.gs)+1), s.cur, s.cur.harnDep > 0)
	s.start(g, f)
	s.logOp("go", g.id)
	preempt(s, "go", 0, false)
}

// GoFrom starts a goroutine on behalf of an earlier action (AfterFunc).
func GoFrom(vc VC, tag any, harn bool, f func()) {
	s := S
	g := s.newG(fmt.Sprintf("g%d", len(s.gs)+1), nil, harn)
	g.Tag = tag
	g.vc.join(vc)
	s.start(g, f)
}

// InHarness reports whether the running goroutine or section belongs to the harness.
func InHarness() bool { return S != nil && S.cur.harnDep > 0 }

// GoHarness starts a goroutine of the harness under a name.
func GoHarness(name string, f func()) *G {
	s := S
	g := s.newG(name, s.cur, true)
	s.start(g, f)
	return g
}

// Cur returns the running goroutine.
func Cur() *G {
	if S == nil {
		return nil
	}
	return S.cur
}

// SetTag labels the running goroutine; goroutines it starts inherit the label.
func SetTag(t any) { S.cur.Tag = t }

// Tag returns the label of the running goroutine.
func Tag() any {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.Tag
}

// Harness runs f with everything it creates (goroutines, timers, contexts) marked as the harness's own.
func Harness(f func()) {
	s := S
	if s == nil {
		f()
		return
	}
	g := s.cur
	g.harnDep++
	defer func() { g.harnDep-- }()
	f()
}

// AsCode runs f as code under test on behalf of the action labelled tag.
func AsCode(tag any, f func()) {
	g := S.cur
	oldTag, oldDep := g.Tag, g.harnDep
	g.Tag, g.harnDep = tag, 0
	defer func() { g.Tag, g.harnDep = oldTag, oldDep }()
	f()
}

// code reports whether g is running code under test at the moment.
func (g *G) code() bool { return g.harnDep == 0 && !(g.Harn && g.Tag == nil) }

// Choose draws a decision in [0,n) from the choice stream. 0 is the default a minimised trace falls back to.
func Choose(n int) int {
	s := S
	if s == nil || n <= 1 {
		return 0
	}
	return s.choose(n, -1)
}

// ChooseP draws 1 with probability p, else 0.
func ChooseP(p float64) int {
	s := S
	if s == nil || p <= 0 {
		return 0
	}
	c := 0
	if !s.cfg.Replay && s.rng.Float64() < p {
		c = 1
	}
	return s.record(2, c)
}

// choose: pre >= 0 is a value proposed by the strategy
func (s *Sim) choose(n int, pre int) int {
	c := pre
	if pre < 0 && !s.cfg.Replay {
		c = s.rng.Intn(n)
	}
	return s.record(n, c)
}

func (s *Sim) record(n, c int) int {
	i := s.points
	s.points++
	if s.cfg.Replay {
		c = s.replay[i]
		if c < 0 {
			c = -c
		}
		if c >= n {
			c = c % n
		}
	}
	if c != 0 {
		s.out = append(s.out, Choice{i, c})
	}
	return c
}

func (s *Sim) removeRun(g *G) {
	for i, x := range s.runq {
		if x == g {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			g.queued = false
			return
		}
	}
}

// Preempt is a scheduling point of a synchronisation operation.
func Preempt(kind string) {
	s := S
	if s == nil {
		return
	}
	if s.dying {
		runtime.Goexit()
	}
	preempt(s, kind, 0, false)
}

func preempt(s *Sim, kind string, site int, mem bool) {
	s.steps++
	beats.Add(1)
	g := s.cur
	s.smix(uint64(g.id), hashKind(kind)+uint64(site))
	s.logOp(kind, site)
	if s.steps >= s.cfg.MaxSteps {
		s.exhaust = true
		s.finish()
		s.parkForever(g)
	}
	st := &s.cfg.Strategy
	if mem {
		if st.MemP <= 0 {
			return
		}
	}
	if st.StallP > 0 && g.code() {
		c := 0
		if !s.cfg.Replay && s.rng.Float64() < st.StallP {
			c = 1 + s.rng.Intn(4)
		}
		if c = s.record(5, c); c > 0 {
			s.stalls++
			d := st.StallMax * int64(c) / 4
			s.mix(hashKind("stall"), uint64(d), uint64(g.id))
			t := &Timer{when: s.now + d, Kind: "stall", Harn: true}
			t.f = func() { s.ready(g) }
			s.addTimer(t)
			g.state = gBlocked
			g.reason = "stalled"
			s.switchFrom(g, true)
			return
		}
	}
	if len(s.runq) == 0 {
		return
	}
	n := len(s.runq) + 1
	c := 0
	if !s.cfg.Replay {
		switch st.Kind {
		case "pct":
			if s.changeAt[s.steps] {
				s.lowPrio--
				g.prio = s.lowPrio
			}
			best := g.prio
			for i, x := range s.runq {
				if x.prio > best {
					best = x.prio
					c = i + 1
				}
			}
		case "block":
			c = 0
		default:
			p := st.SwitchP
			if mem {
				p = st.MemP
			}
			if s.rng.Float64() < p {
				c = 1 + s.rng.Intn(n-1)
			}
		}
		// fairness: a goroutine may not keep the processor for ever
		s.streak++
		if s.streak > 3000 && c == 0 {
			c = 1 + s.rng.Intn(n-1)
		}
	} else {
		s.streak++
	}
	c = s.record(n, c)
	if s.cfg.Replay && c == 0 && s.streak > 6000 {
		c = 1
	}
	if c == 0 {
		return
	}
	x := s.runq[c-1]
	s.runq = append(s.runq[:c-1], s.runq[c:]...)
	x.queued = false
	s.runq = append(s.runq, g)
	g.queued = true
	g.state = gRunnable
	s.handoff(g, x, true)
}

func (s *Sim) handoff(from, to *G, park bool) {
	s.switches++
	s.streak = 0
	s.cur = to
	to.state = gRunning
	if from == to {
		return
	}
	to.wake <- struct{}{}
	if park {
		<-from.wake
		if s.dying {
			runtime.Goexit()
		}
	}
}

func (s *Sim) parkForever(g *G) {
	<-g.wake
	runtime.Goexit()
}

// switchFrom gives up the processor for good (blocked or dead) and picks the next goroutine.
func (s *Sim) switchFrom(g *G, park bool) {
	for len(s.runq) == 0 {
		if s.finished || !s.advance() {
			// nothing can ever happen again: deadlock of everything including main
			s.finish()
			if park {
				s.parkForever(g)
			}
			return
		}
	}
	c := 0
	n := len(s.runq)
	if n > 1 {
		if !s.cfg.Replay {
			if s.cfg.Strategy.Kind == "pct" {
				best := s.runq[0].prio
				for i, x := range s.runq {
					if x.prio > best {
						best, c = x.prio, i
					}
				}
			} else {
				c = s.rng.Intn(n)
			}
		}
		c = s.record(n, c)
	}
	x := s.runq[c]
	s.runq = append(s.runq[:c], s.runq[c+1:]...)
	x.queued = false
	if x == g {
		g.state = gRunning
		s.cur = g
		return
	}
	s.handoff(g, x, park)
}

// Block parks the running goroutine until Ready is called for it.
func Block(reason string) {
	s := S
	if s.dying {
		runtime.Goexit()
	}
	g := s.cur
	g.state = gBlocked
	g.reason = reason
	s.logOp("block:"+reason, 0)
	s.steps++
	beats.Add(1)
	if s.steps >= s.cfg.MaxSteps {
		s.exhaust = true
		s.finish()
		s.parkForever(g)
	}
	s.switchFrom(g, true)
	g.reason = ""
}

// Ready makes a blocked goroutine runnable.
func Ready(g *G) { S.ready(g) }

func (s *Sim) ready(g *G) {
	if g.state == gBlocked && !g.queued {
		g.state = gRunnable
		g.queued = true
		s.runq = append(s.runq, g)
	}
}

// advance moves the clock to the next timer(s) and fires them.
func (s *Sim) advance() bool {
	if len(s.timers) == 0 {
		return false
	}
	t := s.timers[0]
	s.now = t.when
	for {
		heap.Pop(&s.timers)
		s.mix(hashKind("fire"), uint64(t.seq), uint64(s.now))
		if t.period > 0 {
			t.when += t.period
			s.tseq++
			t.seq = s.tseq
			heap.Push(&s.timers, t)
		}
		s.steps++
		beats.Add(1)
		t.f()
		if s.steps >= s.cfg.MaxSteps {
			s.exhaust = true
			return false
		}
		if len(s.timers) == 0 || s.timers[0].when != s.now {
			return true
		}
		// several events at one instant: together by default, sometimes one after the other
		c := 0
		if !s.cfg.Replay && s.rng.Intn(4) == 0 {
			c = 1
		}
		if s.record(2, c) == 1 && len(s.runq) > 0 {
			return true
		}
		// pick among simultaneous ones
		t = s.timers[0]
	}
}

func (s *Sim) addTimer(t *Timer) {
	s.tseq++
	t.seq = s.tseq
	if t.when < s.now {
		t.when = s.now
	}
	heap.Push(&s.timers, t)
}

// NewTimer schedules f at now+d, repeating every period if period > 0. f runs in the scheduler and must not block.
func NewTimer(kind string, d, period int64, f func()) *Timer {
	s := S
	t := &Timer{when: satAdd(s.now, d), period: period, f: f, Kind: kind, Harn: s.cur.harnDep > 0 || s.cur.Harn && s.cur.Tag == nil, Tag: s.cur.Tag}
	s.addTimer(t)
	return t
}

func satAdd(a, b int64) int64 {
	if b < 0 {
		b = 0
	}
	c := a + b
	if c < a {
		return 1<<63 - 1
	}
	return c
}

// StopTimer removes a timer; it reports whether it was pending.
func StopTimer(t *Timer) bool {
	s := S
	if s == nil || t == nil || t.idx < 0 || t.idx >= len(s.timers) || s.timers[t.idx] != t {
		return false
	}
	heap.Remove(&s.timers, t.idx)
	return true
}

// Sleep blocks the running goroutine for d of simulated time.
func Sleep(d int64) {
	s := S
	if s == nil {
		return
	}
	if s.dying {
		runtime.Goexit()
	}
	g := s.cur
	if d <= 0 {
		preempt(s, "sleep0", 0, false)
		return
	}
	t := &Timer{when: satAdd(s.now, d), Kind: "sleep", Harn: g.Harn, Tag: g.Tag}
	t.f = func() { s.ready(g) }
	s.addTimer(t)
	Block("sleep")
}

// Now is the simulated monotonic time in nanoseconds since the start of the run.
func Now() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

// WallOffset is the accumulated effect of wall clock steps.
func WallOffset() int64 {
	if S == nil {
		return 0
	}
	return S.wallOff
}

// JumpWall steps the wall clock; the monotonic clock is unaffected.
func JumpWall(d int64) { S.wallOff += d; Note("wall clock jump %d", d) }

// Seq returns a fresh global sequence number, totally ordering harness events.
func Seq() int64 { S.seq++; return S.seq }

// SyncTimers reports which timer channel semantics this run uses.
func SyncTimers() bool { return S != nil && S.cfg.SyncTimers }

// Fatal is a fatal runtime error of the code under test (for example unlock of an unlocked mutex).
func Fatal(msg string) {
	s := S
	if s == nil {
		panic(msg)
	}
	if s.dying {
		runtime.Goexit()
	}
	if s.crash == nil {
		s.crash = &Crash{G: s.cur.name, Value: "fatal error: " + msg, Stack: string(debug.Stack())}
	}
	s.finish()
	s.parkForever(s.cur)
}

// CtxRec accounts for one cancellable context.
type CtxRec struct {
	Tag       any
	Harn      bool
	Kind      string
	Cancelled bool
}

// TrackCtx registers a cancellable context.
func TrackCtx(kind string) *CtxRec {
	r := &CtxRec{Kind: kind}
	if S != nil && S.cur != nil {
		r.Tag = S.cur.Tag
		r.Harn = S.cur.harnDep > 0
		S.ctxs = append(S.ctxs, r)
	}
	return r
}

// LiveCtx returns the tags of the code under test's contexts that are not cancelled yet.
func LiveCtx(tag any) int {
	n := 0
	for _, c := range S.ctxs {
		if !c.Cancelled && !c.Harn && c.Tag == tag {
			n++
		}
	}
	return n
}

// LiveFor counts goroutines and timers of the code under test carrying tag.
func LiveFor(tag any) (gs, timers int, desc string) {
	var d []string
	for _, g := range S.gs {
		if g.state != gDead && !g.Harn && g.Tag == tag {
			gs++
			d = append(d, g.name+"("+g.reason+")")
		}
	}
	for _, t := range S.timers {
		if !t.Harn && t.Tag == tag {
			timers++
			d = append(d, t.Kind)
		}
	}
	return gs, timers, strings.Join(d, ",")
}

// Debug prints to stderr when VSIM_DEBUG is set.
func Debug(format string, args ...any) {
	if os.Getenv("VSIM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}

type global struct {
	p    reflect.Value // pointer to the variable
	init reflect.Value
	elem reflect.Value // shallow copy of what a pointer points to
}

var globals []*global
var globalsReady bool

// RegisterGlobal makes a package variable of the code under test start every run with its initial value.
func RegisterGlobal(p any) { globals = append(globals, &global{p: reflect.ValueOf(p)}) }

func copyMap(v reflect.Value) reflect.Value {
	m := reflect.MakeMap(v.Type())
	for _, k := range v.MapKeys() {
		m.SetMapIndex(k, v.MapIndex(k))
	}
	return m
}

func (s *Sim) resetGlobals() {
	for _, g := range globals {
		v := g.p.Elem()
		if !globalsReady {
			g.init = reflect.New(v.Type()).Elem()
			g.init.Set(v)
			if v.Kind() == reflect.Map && !v.IsNil() {
				g.init.Set(copyMap(v))
			}
			if v.Kind() == reflect.Pointer && !v.IsNil() && v.Type().Elem().Kind() == reflect.Struct && resettable(v.Type().Elem()) {
				g.elem = reflect.New(v.Type().Elem()).Elem()
				g.elem.Set(v.Elem())
			}
			continue
		}
		v.Set(g.init)
		if v.Kind() == reflect.Map && !v.IsNil() {
			v.Set(copyMap(g.init))
		}
		if g.elem.IsValid() {
			v.Elem().Set(g.elem)
		}
	}
	globalsReady = true
}

var reinits []func()

// RegisterReinit makes f initialise the variables of a package again when a new process starts.
// Packages register in the order of their initialisation.
func RegisterReinit(f func()) { reinits = append(reinits, f) }

// Zero makes *p the zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ResetGlobals gives the package variables of the code under test their initial values again (a new process).
func ResetGlobals() {
	S.resetGlobals()
	for _, f := range reinits {
		f()
	}
}

// Kill parks the running goroutine for ever: its process is gone.
func Kill() {
	s := S
	if s == nil || s.dying {
		runtime.Goexit()
	}
	for {
		Block("killed")
	}
}

// Own is the import path prefix of rewritten packages.
var Own = "gen/"

func resettable(t reflect.Type) bool {
	return strings.HasPrefix(t.PkgPath(), Own) || strings.HasPrefix(t.PkgPath(), "vsim/")
}

var runs int64

// RunID identifies the current run within the process; 0 outside of runs.
func RunID() int64 {
	if S == nil {
		return 0
	}
	return S.id
}

// Rand is the run's own source of pseudo-random numbers for the code under test.
func Rand() *rand.Rand {
	s := S
	if s == nil {
		return rand.New(rand.NewSource(1))
	}
	if s.rnd == nil {
		s.rnd = rand.New(rand.NewSource(s.cfg.Seed ^ 0x5eed))
	}
	return s.rnd
}
