package rt

import (
	"iter"
	"runtime"
	"unsafe"
)

type item struct {
	v  any
	vc VC
}

type chanState struct {
	cap    int
	buf    []item
	slots  []VC // clock of the last receive from each buffer slot (ring)
	sendN  int
	recvN  int
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	cvc    VC
	keep   any
}

type waiter struct {
	g    *G
	sel  *selState
	idx  int
	v    any
	vc   VC
	ok   bool
	done bool
}

type selState struct {
	fired bool
	idx   int
	w     *waiter
}

func chPtr[T any](ch chan T) unsafe.Pointer    { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chPtrR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chPtrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (s *Sim) chanOf(p unsafe.Pointer, c int) *chanState {
	cs := s.chans[p]
	if cs == nil {
		cs = &chanState{cap: c}
		if c > 0 && c < 1<<16 {
			cs.slots = make([]VC, c)
		}
		s.chans[p] = cs
	}
	return cs
}

func enter(kind string) *Sim {
	s := S
	if s == nil {
		panic("rt: channel operation outside of a simulation")
	}
	if s.dying {
		runtime.Goexit()
	}
	preempt(s, kind, 0, false)
	return s
}

func (c *chanState) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func (c *chanState) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func (c *chanState) hasRecv() bool {
	for _, w := range c.recvq {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *chanState) hasSend() bool {
	for _, w := range c.sendq {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (s *Sim) complete(w *waiter) {
	w.done = true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.w = w
	}
	s.ready(w.g)
}

func (c *chanState) canSend() bool { return c.closed || c.hasRecv() || len(c.buf) < c.cap }
func (c *chanState) canRecv() bool { return c.closed || len(c.buf) > 0 || c.hasSend() }

func (s *Sim) pushBuf(c *chanState, v any, vc VC, g *G) {
	if len(c.slots) > 0 {
		sl := c.sendN % len(c.slots)
		if g != nil {
			g.vc.join(c.slots[sl])
			vc = g.vc.clone()
		}
	}
	c.sendN++
	c.buf = append(c.buf, item{v, vc})
}

// doSend performs a send that canSend; g is the sender (nil: the scheduler, for timers)
func (s *Sim) doSend(c *chanState, v any, g *G, vc VC) {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if w := c.popRecv(); w != nil {
		w.v, w.ok = v, true
		if g != nil {
			vc = g.vc.clone()
			if c.cap == 0 {
				g.vc.join(w.g.vc)
			}
			g.tick()
		}
		w.g.vc.join(vc)
		w.g.tick()
		s.complete(w)
		return
	}
	if g != nil {
		vc = g.vc.clone()
	}
	s.pushBuf(c, v, vc, g)
	if g != nil {
		g.tick()
	}
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func (s *Sim) doRecv(c *chanState, g *G) (any, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		g.vc.join(it.vc)
		if len(c.slots) > 0 {
			c.slots[c.recvN%len(c.slots)] = g.vc.clone()
		}
		c.recvN++
		g.tick()
		if w := c.popSend(); w != nil {
			s.pushBuf(c, w.v, w.vc, w.g)
			w.g.tick()
			s.complete(w)
		}
		return it.v, true
	}
	if w := c.popSend(); w != nil {
		gvc := g.vc.clone()
		g.vc.join(w.vc)
		w.g.vc.join(gvc)
		g.tick()
		w.g.tick()
		s.complete(w)
		return w.v, true
	}
	// closed
	g.vc.join(c.cvc)
	return nil, false
}

func (s *Sim) send(p unsafe.Pointer, cp int, v any) {
	if p == nil {
		Block("send on nil channel")
		return
	}
	c := s.chanOf(p, cp)
	g := s.cur
	if c.canSend() {
		s.doSend(c, v, g, VC{})
		return
	}
	w := &waiter{g: g, v: v, vc: g.vc.clone()}
	c.sendq = append(c.sendq, w)
	for !w.done {
		Block("chan send")
	}
	if w.idx == -1 {
		panic(plainError("send on closed channel"))
	}
}

func (s *Sim) recv(p unsafe.Pointer, cp int) (any, bool) {
	if p == nil {
		Block("receive from nil channel")
		return nil, false
	}
	c := s.chanOf(p, cp)
	g := s.cur
	if c.canRecv() {
		return s.doRecv(c, g)
	}
	w := &waiter{g: g}
	c.recvq = append(c.recvq, w)
	for !w.done {
		Block("chan receive")
	}
	return w.v, w.ok
}

// SendTo returns the send operation of ch.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := enter("send")
		s.send(chPtrS(ch), cap(ch), v)
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := enter("recv")
	v, ok := s.recv(chPtrR(ch), cap(ch))
	return as[T](v), ok
}

func as[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	if s.dying {
		runtime.Goexit()
	}
	preempt(s, "close", 0, false)
	p := chPtrS(ch)
	if p == nil {
		panic(plainError("close of nil channel"))
	}
	s.closePtr(p, cap(ch), s.cur)
	func() {
		defer func() { recover() }()
		close(ch)
	}()
}

func (s *Sim) closePtr(p unsafe.Pointer, cp int, g *G) {
	c := s.chanOf(p, cp)
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	if g != nil {
		c.cvc = g.vc.clone()
		g.tick()
	}
	for w := c.popRecv(); w != nil; w = c.popRecv() {
		w.v, w.ok = nil, false
		w.g.vc.join(c.cvc)
		s.complete(w)
	}
	for w := c.popSend(); w != nil; w = c.popSend() {
		if w.sel == nil {
			w.idx = -1
		} else {
			w.vc = VC{}
			w.ok = true // marks "panic"
		}
		s.complete(w)
	}
}

// CloseDone closes a context's done channel on behalf of goroutine cur or of the scheduler (timer).
func CloseDone(ch chan struct{}, vc VC) {
	s := S
	p := chPtr(ch)
	c := s.chanOf(p, 0)
	if c.closed {
		return
	}
	s.closePtr(p, 0, nil)
	c.cvc = vc
	close(ch)
}

// IsClosed reports whether ch was closed (for harness use; no scheduling point).
func IsClosed[T any](ch <-chan T) bool {
	p := chPtrR(ch)
	if p == nil || S == nil {
		return false
	}
	c := S.chans[p]
	return c != nil && c.closed
}

// ClosedClock returns the clock with which ch was closed.
func (s *Sim) ClosedClock(p unsafe.Pointer) VC {
	if c := s.chans[p]; c != nil {
		return c.cvc
	}
	return VC{}
}

// TrySendTimer is the non-blocking send of a timer channel, done by the scheduler.
func TrySendTimer[T any](ch chan T, v T, vc VC) bool {
	s := S
	c := s.chanOf(chPtr(ch), cap(ch))
	if c.closed || !(c.hasRecv() || len(c.buf) < c.cap) {
		return false
	}
	s.doSend(c, v, nil, vc)
	return true
}

// DrainTimer discards buffered values of a timer channel.
func DrainTimer[T any](ch chan T) {
	if c := S.chans[chPtr(ch)]; c != nil {
		c.recvN += len(c.buf)
		c.buf = nil
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	s := S
	if s == nil {
		return len(ch)
	}
	if s.dying {
		runtime.Goexit()
	}
	preempt(s, "len", 0, false)
	if c := s.chans[chPtrR(ch)]; c != nil {
		return len(c.buf)
	}
	return 0
}

// RangeChan iterates over ch until it is closed.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok {
				return
			}
			if !yield(v) {
				return
			}
		}
	}
}

// Case is one communication clause of a select statement.
type Case struct {
	p    unsafe.Pointer
	cap  int
	send bool
	v    any
}

// RecvCase is case <-ch.
func RecvCase[T any](ch <-chan T) Case { return Case{p: chPtrR(ch), cap: cap(ch)} }

// SendCase is case ch <- v.
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case { return Case{p: chPtrS(ch), cap: cap(ch), send: true, v: v} }
}

// Val converts the value received by Select for a clause on ch.
func Val[T any](ch <-chan T, s Sel) T { return as[T](s.V) }

// Sel is the outcome of a select statement: the chosen clause (-1: default), the received value and ok.
type Sel struct {
	I  int
	V  any
	Ok bool
}

// Select runs a select statement.
func Select(hasDefault bool, cases ...Case) Sel {
	i, v, ok := selectStmt(hasDefault, cases)
	return Sel{i, v, ok}
}

func selectStmt(hasDefault bool, cases []Case) (int, any, bool) {
	s := enter("select")
	g := s.cur
	var ready []int
	for i := range cases {
		if cases[i].p == nil {
			continue
		}
		c := s.chanOf(cases[i].p, cases[i].cap)
		if cases[i].send && c.canSend() || !cases[i].send && c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = s.choose(len(ready), -1)
		}
		i := ready[k]
		s.mix(hashKind("case"), uint64(i), 0)
		c := s.chanOf(cases[i].p, cases[i].cap)
		if cases[i].send {
			s.doSend(c, cases[i].v, g, VC{})
			return i, nil, false
		}
		v, ok := s.doRecv(c, g)
		return i, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	sel := &selState{}
	for i := range cases {
		if cases[i].p == nil {
			continue
		}
		c := s.chanOf(cases[i].p, cases[i].cap)
		w := &waiter{g: g, sel: sel, idx: i, v: cases[i].v, vc: g.vc.clone()}
		if cases[i].send {
			c.sendq = append(c.sendq, w)
		} else {
			w.v = nil
			c.recvq = append(c.recvq, w)
		}
	}
	for !sel.fired {
		Block("select")
	}
	i := sel.idx
	if cases[i].send {
		if sel.w.ok && s.chanOf(cases[i].p, cases[i].cap).closed {
			panic(plainError("send on closed channel"))
		}
		return i, nil, false
	}
	return i, sel.w.v, sel.w.ok
}

// WaitOn parks the running goroutine until WakeAll is called for p.
func WaitOn(p unsafe.Pointer, reason string) {
	s := S
	if s == nil {
		panic("rt: blocking operation outside of a simulation")
	}
	if s.dying {
		runtime.Goexit()
	}
	s.waits[p] = append(s.waits[p], s.cur)
	Block(reason)
}

// WakeAll makes all goroutines waiting on p runnable.
func WakeAll(p unsafe.Pointer) {
	s := S
	if s == nil || s.dying {
		return
	}
	gs := s.waits[p]
	delete(s.waits, p)
	for _, g := range gs {
		s.ready(g)
	}
}

// PendingTimer reports whether a timer channel holds an undelivered value.
func PendingTimer[T any](ch chan T) bool {
	c := S.chans[chPtr(ch)]
	return c != nil && len(c.buf) > 0
}
