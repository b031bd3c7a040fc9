package rt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"slices"
	"unsafe"
)

// VC is a vector clock indexed by goroutine number.
type VC struct{ c []uint32 }

func (v VC) get(i int) uint32 {
	if i < len(v.c) {
		return v.c[i]
	}
	return 0
}

func (v *VC) set(i int, x uint32) {
	for len(v.c) <= i {
		v.c = append(v.c, 0)
	}
	v.c[i] = x
}

func (v VC) clone() VC { return VC{append([]uint32(nil), v.c...)} }

func (v *VC) join(o VC) {
	for len(v.c) < len(o.c) {
		v.c = append(v.c, 0)
	}
	for i, x := range o.c {
		if x > v.c[i] {
			v.c[i] = x
		}
	}
}

func (g *G) tick() { g.vc.set(g.id, g.vc.get(g.id)+1) }

// CurVC returns a copy of the running goroutine's clock and advances it (a release).
func CurVC() VC {
	if S == nil || S.cur == nil {
		return VC{}
	}
	v := S.cur.vc.clone()
	S.cur.tick()
	return v
}

// Acquire joins vc into the running goroutine's clock.
func Acquire(vc VC) {
	if S != nil && S.cur != nil && !S.dying {
		S.cur.vc.join(vc)
	}
}

// AcqRel is an acquire-release on the synchronisation object at p.
func AcqRel(p unsafe.Pointer) {
	s := S
	if s == nil || s.dying {
		return
	}
	g := s.cur
	v := s.syncs[p]
	g.vc.join(v)
	v = v.clone()
	v.join(g.vc)
	s.syncs[p] = v
	g.tick()
}

type access struct {
	clk  uint32
	site int
}

type shadowCell struct {
	wg     int
	w      access
	reads  accs
	awrite accs // atomic writes
	aread  accs
}

func (s *Sim) cell(p unsafe.Pointer) *shadowCell {
	c := s.shadow[p]
	if c == nil {
		c = &shadowCell{}
		s.shadow[p] = c
	}
	return c
}

func (s *Sim) race(kind string, a, b int) {
	r := Race{kind, a, b}
	if !s.raceSeen[r] {
		s.raceSeen[r] = true
		s.races = append(s.races, r)
		Note("data race %s sites %d %d", kind, a, b)
	}
}

type accs []struct {
	id int
	access
}

func (l *accs) put(id int, a access) {
	for i := range *l {
		if (*l)[i].id == id {
			(*l)[i].access = a
			return
		}
	}
	*l = append(*l, struct {
		id int
		access
	}{id, a})
}

func (s *Sim) access(p unsafe.Pointer, write, atomic bool, site int) {
	if s.cfg.NoRace {
		return
	}
	g := s.cur
	c := s.cell(p)
	if c.wg != 0 && c.wg != g.id && c.w.clk > g.vc.get(c.wg) {
		switch {
		case atomic:
			s.race("write/atomic", c.w.site, site)
		case write:
			s.race("write/write", c.w.site, site)
		default:
			s.race("write/read", c.w.site, site)
		}
	}
	if write {
		for _, x := range c.reads {
			if a := x.access; x.id != g.id && a.clk > g.vc.get(x.id) {
				s.race("read/write", a.site, site)
			}
		}
	}
	if !atomic {
		for _, x := range c.awrite {
			if a := x.access; x.id != g.id && a.clk > g.vc.get(x.id) {
				s.race("atomic/plain", a.site, site)
			}
		}
		if write {
			for _, x := range c.aread {
				if a := x.access; x.id != g.id && a.clk > g.vc.get(x.id) {
					s.race("atomic/write", a.site, site)
				}
			}
		}
	}
	a := access{g.vc.get(g.id), site}
	switch {
	case atomic && write:
		c.awrite.put(g.id, a)
	case atomic:
		c.aread.put(g.id, a)
	case write:
		c.wg, c.w = g.id, a
		c.reads = nil
	default:
		c.reads.put(g.id, a)
	}
}

// R notes a read of *p and returns p.
func R[T any](p *T, site int) *T {
	if s := S; s != nil && s.cur != nil && unsafe.Sizeof(*p) > 0 {
		if s.dying {
			return p
		}
		preempt(s, "read", site, true)
		s.access(unsafe.Pointer(p), false, false, site)
	}
	return p
}

// W notes a write of *p and returns p.
func W[T any](p *T, site int) *T {
	if s := S; s != nil && s.cur != nil && unsafe.Sizeof(*p) > 0 {
		if s.dying {
			return p
		}
		preempt(s, "write", site, true)
		s.access(unsafe.Pointer(p), true, false, site)
	}
	return p
}

// SetP returns the assignment to *p.
func SetP[T any](p *T, site int) func(T) {
	return func(v T) {
		if p == nil {
			return
		}
		W(p, site)
		*p = v
	}
}

// Discard is the destination of blank assignments.
var Discard *any

// Set2 .. Set6 are multiple assignments.
func Set2[A, B any](a *A, b *B, site int) func(A, B) {
	return func(x A, y B) { SetP(a, site)(x); SetP(b, site)(y) }
}
func Set3[A, B, C any](a *A, b *B, c *C, site int) func(A, B, C) {
	return func(x A, y B, z C) { SetP(a, site)(x); SetP(b, site)(y); SetP(c, site)(z) }
}
func Set4[A, B, C, D any](a *A, b *B, c *C, d *D, site int) func(A, B, C, D) {
	return func(x A, y B, z C, u D) { SetP(a, site)(x); SetP(b, site)(y); SetP(c, site)(z); SetP(d, site)(u) }
}
func Set5[A, B, C, D, E any](a *A, b *B, c *C, d *D, e *E, site int) func(A, B, C, D, E) {
	return func(x A, y B, z C, u D, v E) {
		SetP(a, site)(x)
		SetP(b, site)(y)
		SetP(c, site)(z)
		SetP(d, site)(u)
		SetP(e, site)(v)
	}
}

// Atomic notes an atomic access of p (acquire-release) after a scheduling point.
func Atomic(p unsafe.Pointer, write bool) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if s.dying {
		return
	}
	preempt(s, "atomic", 0, false)
	s.access(p, write, true, 0)
	if write {
		AcqRel(p)
	} else {
		s.cur.vc.join(s.syncs[p])
	}
}

// Point is a possible preemption between two statements.
func Point(site int) {
	s := S
	if s == nil || s.cur == nil || s.dying {
		return
	}
	preempt(s, "point", site, true)
}

// Append is append(x, vs...) with the writes into spare capacity noted.
func Append[X ~[]E, E any](x X, site int) func(...E) X {
	return func(vs ...E) X {
		if s := S; s != nil && s.cur != nil && !s.dying && len(vs) > 0 && cap(x)-len(x) >= len(vs) && unsafe.Sizeof(vs[0]) > 0 {
			preempt(s, "append", site, true)
			y := x[:len(x)+len(vs)]
			for i := len(x); i < len(y); i++ {
				s.access(unsafe.Pointer(&y[i]), true, false, site)
			}
		}
		return append(x, vs...)
	}
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// RMap notes a read of map m and returns it.
func RMap[M ~map[K]V, K comparable, V any](m M, site int) M {
	if p := mapPtr[M, K, V](m); p != nil {
		if s := S; s != nil && s.cur != nil && !s.dying {
			preempt(s, "mapread", site, true)
			s.access(p, false, false, site)
		}
	}
	return m
}

// WMap notes a write of map m and returns it.
func WMap[M ~map[K]V, K comparable, V any](m M, site int) M {
	if p := mapPtr[M, K, V](m); p != nil {
		if s := S; s != nil && s.cur != nil && !s.dying {
			preempt(s, "mapwrite", site, true)
			s.access(p, true, false, site)
		}
	}
	return m
}

// SetM returns the assignment m[k] = v.
func SetM[M ~map[K]V, K comparable, V any](m M, site int) func(K, V) {
	return func(k K, v V) {
		WMap[M, K, V](m, site)
		m[k] = v
	}
}

// MapShuffles counts map iterations whose order was permuted.
var MapShuffles int

// RangeMap iterates over m in an order taken from the choice stream.
func RangeMap[M ~map[K]V, K comparable, V any](m M, site int) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		RMap[M, K, V](m, site)
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		if s := S; s != nil && !s.dying && len(keys) > 1 {
			MapShuffles++
			// one choice per position; 0 keeps the sorted order
			for i := 0; i < len(keys)-1; i++ {
				j := i + s.choose(len(keys)-i, -1)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	slices.SortStableFunc(keys, func(a, b K) int {
		x, y := reflect.ValueOf(a), reflect.ValueOf(b)
		if x.IsValid() && y.IsValid() && x.Kind() == y.Kind() {
			switch x.Kind() {
			case reflect.String:
				return cmp.Compare(x.String(), y.String())
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				return cmp.Compare(x.Int(), y.Int())
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
				return cmp.Compare(x.Uint(), y.Uint())
			}
		}
		return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
	})
}

// Gosched is runtime.Gosched.
func Gosched() {
	s := S
	if s == nil {
		return
	}
	if s.dying {
		runtime.Goexit()
	}
	// give up the processor if anyone else can run
	g := s.cur
	s.steps++
	beats.Add(1)
	if len(s.runq) > 0 {
		s.runq = append(s.runq, g)
		g.queued = true
		g.state = gRunnable
		c := s.choose(len(s.runq)-1, -1)
		x := s.runq[c]
		s.runq = append(s.runq[:c], s.runq[c+1:]...)
		x.queued = false
		s.handoff(g, x, true)
	} else {
		preempt(s, "gosched", 0, false)
	}
}

// AcquireFrom joins the clock released to p into the running goroutine's.
func AcquireFrom(p unsafe.Pointer) {
	if s := S; s != nil && !s.dying {
		s.cur.vc.join(s.syncs[p])
	}
}

// ReleaseTo releases the running goroutine's clock to p.
func ReleaseTo(p unsafe.Pointer) {
	if s := S; s != nil && !s.dying {
		v := s.syncs[p].clone()
		v.join(s.cur.vc)
		s.syncs[p] = v
		s.cur.tick()
	}
}
