package dec

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	"vsim/rt"
	"vsim/shim/vcontext"
)

// Violation is a property broken by a run.
type Violation struct {
	Kind string `json:"kind"` // class, stable under minimisation
	Msg  string `json:"msg"`
}

// Kit adapts a template with its own collaborators (loggers, registries, tracers).
type Kit interface {
	Args() []any
	CallerCtx(c *Call, ctx context.Context) context.Context
	BaseStart(b *Base, ctx context.Context)
	BaseEnd(b *Base)
	CallEnd(c *Call)
	Check() []Violation
}

// NopKit observes nothing.
type NopKit struct{}

func (NopKit) Args() []any                                            { return nil }
func (NopKit) CallerCtx(_ *Call, ctx context.Context) context.Context { return ctx }
func (NopKit) BaseStart(*Base, context.Context)                       {}
func (NopKit) BaseEnd(*Base)                                          {}
func (NopKit) CallEnd(*Call)                                          {}
func (NopKit) Check() []Violation                                     { return nil }

// Kits by template.
var Kits = map[string]func(w *World) Kit{}

// ErrKinds are additional kinds of base errors.
var ErrKinds = map[string]func(w *World, token string) error{}

// Impl is one wrapped implementation.
type Impl struct {
	W      *World
	Index  int
	active int
	total  int
}

// World is one run.
type World struct {
	Sc       *Scenario
	U        *Unit
	D        reflect.Value
	Impls    []*Impl
	Calls    []*Call
	Bases    []*Base
	Viol     []Violation
	T0       int64
	CtorErr  error
	CtorBad  any // panic of the constructor
	Kit      Kit
	Shared   error
	Ignored  []error
	ByImpl   bool
	Fired    map[string]int
	Wall     []wallStep
	methods  map[string]reflect.Value
	Res      *rt.Result
	Antec    int // how often the property's antecedent was exercised
	EndState string
}

type wallStep struct{ At, D int64 }

func (w *World) bad(kind, format string, args ...any) {
	if len(w.Viol) < 8 {
		w.Viol = append(w.Viol, Violation{kind, fmt.Sprintf(format, args...)})
	}
}

func (w *World) fire(kind string) { w.Fired[kind]++ }

// uncmp is an error value that cannot be compared.
type uncmp struct {
	token string
	s     []int
}

func (u uncmp) Error() string { return "uncomparable<" + u.token + ">" }

type nilErr struct{}

func (*nilErr) Error() string { return "typed nil error" }

func (w *World) makeErr(kind, token string) error {
	switch {
	case kind == "shared":
		return w.Shared
	case kind == "uncmp":
		return uncmp{token, []int{1}}
	case kind == "tnil":
		return (*nilErr)(nil)
	case kind == "joined":
		return fmt.Errorf("outer<%s>: %w", token, w.Shared)
	case kind == "canceled":
		return context.Canceled
	case kind == "deadline":
		return context.DeadlineExceeded
	case strings.HasPrefix(kind, "ign"):
		if i := int(kind[3] - '0'); i < len(w.Ignored) {
			return w.Ignored[i]
		}
	case strings.HasPrefix(kind, "wign"):
		if i := int(kind[4] - '0'); i < len(w.Ignored) {
			return &BaseError{Token: token, Inner: w.Ignored[i]}
		}
	}
	if f := ErrKinds[kind]; f != nil {
		return f(w, token)
	}
	return &BaseError{Token: token}
}

// ignored reports whether err is on the ignore list.
func (w *World) ignored(err error) bool {
	for _, e := range w.Ignored {
		for x := err; x != nil; {
			if x == e { // ignore-list entries are comparable pointers
				return true
			}
			u, ok := x.(interface{ Unwrap() error })
			if !ok {
				break
			}
			x = u.Unwrap()
		}
	}
	return false
}

type panicVal struct{ token string }

// ---- wrapped implementations

func (w *World) find(method string, args []reflect.Value) *Call {
	if c, ok := rt.Tag().(*Call); ok {
		return c
	}
	for _, c := range w.Calls {
		if c.Op.Method == method && !c.Returned && w.argDiff(c, args) == "" {
			return c
		}
	}
	return nil
}

// argDiff compares what a wrapped implementation received with what the caller passed.
func (w *World) argDiff(c *Call, args []reflect.Value) string {
	if len(args) != len(c.Args) {
		return fmt.Sprintf("%d arguments instead of %d", len(args), len(c.Args))
	}
	for i, a := range args {
		switch {
		case i == 0 && c.M.Ctx:
			if a.IsNil() {
				return "nil context"
			}
			if got, _ := a.Interface().(context.Context).Value(tokenKey{}).(string); got != c.Token {
				return fmt.Sprintf("context of %q instead of %q", got, c.Token)
			}
		case i == len(args)-1 && c.M.Variadic:
			if !sameVariadic(c.Args[i], a) {
				return fmt.Sprintf("variadic parameter %d differs: %d elements %s instead of %d elements %s", i, a.Len(), showSlice(a), c.Args[i].Len(), showSlice(c.Args[i]))
			}
		default:
			if !same(c.Args[i], a) {
				return fmt.Sprintf("parameter %d is %s instead of %s", i, showOne(a), showOne(c.Args[i]))
			}
		}
	}
	return ""
}

// Invoke is called by the typed stubs.
func (im *Impl) Invoke(method string, args ...reflect.Value) (out []reflect.Value) {
	if !rt.Active() {
		rt.Preempt("teardown")
		runtime.Goexit()
	}
	rt.Harness(func() { out = im.run(method, args) })
	return out
}

func (im *Impl) run(method string, args []reflect.Value) []reflect.Value {
	w := im.W
	c := w.find(method, args)
	m := w.U.M(method)
	if c == nil {
		w.bad("stray", "wrapped method %s called although no caller called it with these arguments", method)
		return zeroResults(m)
	}
	b := &Base{ID: len(w.Bases), Op: c, Impl: im.Index, Method: method, K: len(c.Bases), Start: rt.Seq(), StartT: rt.Now(), Args: args, EndT: -1, DoneT: -1}
	w.Bases = append(w.Bases, b)
	c.Bases = append(c.Bases, b)
	im.active++
	im.total++
	b.Active = im.active
	var ctx context.Context
	if method != c.Op.Method {
		b.ArgsBad = fmt.Sprintf("method %s called for a call of %s", method, c.Op.Method)
	} else {
		b.ArgsBad = w.argDiff(c, args)
	}
	if m.Ctx && len(args) > 0 && !args[0].IsNil() {
		ctx = args[0].Interface().(context.Context)
		b.CtxErr = vcontext.Peek(ctx)
		b.Deadline, b.HasDL = ctx.Deadline()
		b.Ctx = ctx
	}
	rt.Note("base %d.%d %s impl %d start %s", c.Op.ID, b.K, method, im.Index, b.ArgsBad)
	w.Kit.BaseStart(b, ctx)
	k := b.K
	if w.ByImpl {
		k = im.Index
	}
	if n := len(c.Op.Plans); n > 0 {
		if k >= n {
			k = n - 1
		}
		b.Plan = c.Op.Plans[k]
	}
	p := b.Plan
	tok := fmt.Sprintf("r%d.%d.%d", c.Op.ID, im.Index, b.K)
	if w.watchCtx() && ctx != nil && ctx.Done() != nil {
		rt.GoHarness("watch", func() {
			rt.SetTag(nil)
			rt.Recv(ctx.Done())
			b.DoneT, b.DoneSeq, b.DoneErr = rt.Now(), rt.Seq(), vcontext.Peek(ctx)
		})
	}
	for i := 0; i < p.Yields; i++ {
		rt.Preempt("base")
	}
	if p.Cancel && c.cancel != nil {
		w.fire("cancel-during-call")
		c.cancel()
	}
	if p.Jump != 0 {
		w.fire("wall-clock-step")
		w.Wall = append(w.Wall, wallStep{rt.Now(), p.Jump})
		rt.JumpWall(p.Jump)
	}
	if p.Nested != nil {
		w.fire("re-entrant-call")
		w.do(c.Client, p.Nested, b)
	}
	if p.Stuck {
		w.fire("stuck-call")
		rt.Recv((<-chan int)(nil))
	}
	early := false
	if p.Lat > 0 {
		if p.Honor && ctx != nil && ctx.Done() != nil {
			t := make(chan struct{})
			tm := rt.NewTimer("lat", p.Lat, 0, func() { rt.CloseDone(t, rt.VC{}) })
			if s := rt.Select(false, rt.RecvCase(t), rt.RecvCase(ctx.Done())); s.I == 1 {
				early = true
				rt.StopTimer(tm)
			}
		} else {
			rt.Sleep(p.Lat)
		}
	}
	finish := func(what string) {
		b.Ended, b.End, b.EndT = true, rt.Seq(), rt.Now()
		im.active--
		rt.Note("base %d.%d end %s", c.Op.ID, b.K, what)
		w.Kit.BaseEnd(b)
		w.leakCheck(c)
	}
	if p.Panic == "goexit" {
		w.fire("goexit")
		b.Goexit = true
		finish("goexit")
		runtime.Goexit()
	}
	if p.Panic != "" {
		w.fire("panic")
		switch p.Panic {
		case "err":
			b.Panic = error(&BaseError{Token: tok})
		case "rt":
			var e any
			func() {
				defer func() { e = recover() }()
				var s []int
				_ = s[b.K]
			}()
			b.Panic = e
		default:
			b.Panic = &panicVal{tok}
		}
		finish("panic")
		panic(b.Panic)
	}
	g := &valGen{token: tok, w: w, call: c}
	t := w.methods[method].Type()
	n := t.NumOut()
	out := make([]reflect.Value, n)
	for i := 0; i < n; i++ {
		if i == n-1 && m.Err {
			v := reflect.New(errType).Elem()
			var err error
			switch {
			case early:
				err = vcontext.Peek(ctx)
			case p.Err != "":
				w.fire("base-error")
				err = w.makeErr(p.Err, tok)
			}
			if err != nil {
				v.Set(reflect.ValueOf(err))
			}
			b.Err = err
			out[i] = v
			continue
		}
		if p.Zero {
			out[i] = reflect.Zero(t.Out(i))
		} else {
			out[i] = g.value(t.Out(i))
		}
	}
	b.Results = out
	finish("return")
	return out
}

func zeroResults(m *Method) []reflect.Value {
	return make([]reflect.Value, len(m.Results))
}

// ---- callers

func (w *World) watchCtx() bool { return w.Sc.Prop == "C13" }

// Token of a call's values.
func token(op *Op) string { return fmt.Sprintf("a%d", op.ID) }

func (w *World) makeArgs(c *Call) []reflect.Value {
	t := w.methods[c.Op.Method].Type()
	g := &valGen{token: c.Token, w: w, call: c}
	args := make([]reflect.Value, t.NumIn())
	has := func(l []int, i int) bool {
		for _, x := range l {
			if x == i {
				return true
			}
		}
		return false
	}
	for i := range args {
		g.param = i
		pt := t.In(i)
		switch {
		case i == 0 && c.M.Ctx:
			v := reflect.New(pt).Elem()
			v.Set(reflect.ValueOf(w.makeCtx(c)))
			args[i] = v
		case has(c.Op.Nil, i) && canNil(pt):
			args[i] = reflect.Zero(pt)
		case i == len(args)-1 && c.M.Variadic:
			n := (c.Op.ID + len(c.Op.Method)) % 4
			s := reflect.MakeSlice(pt, n, n+1)
			for j := 0; j < n; j++ {
				s.Index(j).Set(g.value(pt.Elem()))
			}
			args[i] = s
		default:
			args[i] = g.value(pt)
		}
		w.hookArg(c, i, args[i])
	}
	return args
}

// hookArg puts argument validation under the scenario's control.
func (w *World) hookArg(c *Call, i int, v reflect.Value) {
	h := func(n int) func() error {
		return func() error {
			c.Validations = append(c.Validations, fmt.Sprintf("%d.%d", i, n))
			if rt.Active() {
				rt.Harness(func() { rt.Preempt("validate") })
			}
			for _, x := range c.Op.Invalid {
				if x == i {
					e := &BaseError{Token: fmt.Sprintf("invalid.%d.%d", c.Op.ID, i)}
					if old := c.InvalidErr[i]; old != nil {
						return old
					}
					if c.InvalidErr == nil {
						c.InvalidErr = map[int]error{}
					}
					c.InvalidErr[i] = e
					return e
				}
			}
			return nil
		}
	}
	setHooks(v, h, 0)
}

func setHooks(v reflect.Value, h func(n int) func() error, depth int) {
	if depth > 4 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			setHooks(v.Elem(), h, depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			setHooks(v.Elem(), h, depth+1)
		}
	case reflect.Struct:
		if f := v.FieldByName("Hook"); f.IsValid() && f.Type() == reflect.TypeOf((func() error)(nil)) {
			if f.CanSet() {
				f.Set(reflect.ValueOf(h(depth)))
			} else {
				f = reflect.Value{}
			}
		}
	case reflect.Slice:
		for j := 0; j < v.Len(); j++ {
			setHooks(v.Index(j), h, depth+1)
		}
	}
}

func canNil(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Func, reflect.Interface, reflect.Chan:
		return true
	}
	return false
}

func (w *World) makeCtx(c *Call) context.Context {
	ctx := context.WithValue(context.Background(), tokenKey{}, c.Token)
	ctx = w.Kit.CallerCtx(c, ctx)
	cs := c.Op.Ctx
	ended := func(t int64, err error) {
		if c.CtxEnd < 0 {
			c.CtxEnd, c.CtxErr, c.CtxSeq = t, err, rt.Seq()
			rt.Note("ctx of %d ends: %v", c.Op.ID, err)
		}
	}
	switch cs.Kind {
	case "cancel":
		cctx, cancel := vcontext.WithCancel(ctx)
		ctx = cctx
		c.cancel = func() { ended(rt.Now(), context.Canceled); cancel() }
		if cs.Before {
			w.fire("cancelled-before-call")
			c.cancel()
		} else if cs.After > 0 {
			rt.GoHarness("canceller", func() {
				rt.SetTag(nil)
				rt.Sleep(cs.After)
				if c.CtxEnd < 0 {
					w.fire("cancel")
					rt.Harness(c.cancel)
				}
			})
		}
	case "deadline":
		d := cs.After
		if cs.Before {
			d = -1
		}
		cctx, cancel := vcontext.WithTimeout(ctx, time.Duration(d))
		ctx = cctx
		c.Deadline = rt.Now() + d
		c.cancel = func() { ended(rt.Now(), context.Canceled); cancel() }
		if d <= 0 {
			w.fire("expired-before-call")
			ended(rt.Now(), context.DeadlineExceeded)
		} else {
			rt.NewTimer("deadline-note", d, 0, func() {
				if c.CtxEnd < 0 {
					w.fire("deadline")
				}
				ended(rt.Now(), context.DeadlineExceeded)
			})
		}
	}
	return ctx
}

// do performs one call.
func (w *World) do(client int, op *Op, parent *Base) {
	rt.Harness(func() { w.do1(client, op, parent) })
}

func (w *World) do1(client int, op *Op, parent *Base) {
	if op.Delay > 0 {
		rt.Sleep(op.Delay)
	}
	fn, ok := w.methods[op.Method]
	if !ok {
		panic("harness: no method " + op.Method)
	}
	c := &Call{Op: op, Client: client, M: w.U.M(op.Method), Parent: parent, Token: token(op), CtxEnd: -1, EndT: -1}
	w.Calls = append(w.Calls, c)
	c.Args = w.makeArgs(c)
	c.Start, c.StartT = rt.Seq(), rt.Now()
	rt.Note("call %d %s", op.ID, op.Method)
	var out []reflect.Value
	done := false
	end := func() {
		c.Returned, c.End, c.EndT = true, rt.Seq(), rt.Now()
		for _, b := range c.Bases {
			if ctx, ok := b.Ctx.(context.Context); ok {
				b.CtxErrAfter = vcontext.Peek(ctx)
			}
		}
		what := "return"
		if c.Panicked {
			what = "panic"
		}
		if c.Err != nil {
			what = "error"
		}
		rt.Note("call %d %s", op.ID, what)
		w.Kit.CallEnd(c)
		w.leakCheck(c)
	}
	defer func() {
		if done || !rt.Active() {
			return
		}
		// Goexit inside the call
		c.Goexit = true
		end()
	}()
	func() {
		defer func() {
			if done || !rt.Active() {
				return
			}
			if r := recover(); r != nil {
				c.Panicked, c.Panic = true, r
				done = true
			}
		}()
		rt.AsCode(c, func() {
			if c.M.Variadic {
				out = fn.CallSlice(c.Args)
			} else {
				out = fn.Call(c.Args)
			}
		})
		done = true
	}()
	c.Results = out
	if c.M.Err && len(out) > 0 {
		c.Err = asErr(out[len(out)-1])
	}
	end()
}

// leakCheck looks for leftovers of a call just after it and all its wrapped calls have ended.
func (w *World) leakCheck(c *Call) {
	if w.Sc.Prop != "C18" || !c.Returned || c.Running() > 0 {
		return
	}
	rt.NewTimer("leakcheck", 1, 0, func() {
		if c.Running() > 0 {
			return
		}
		gs, ts, desc := rt.LiveFor(c)
		cs := rt.LiveCtx(c)
		c.LeakChecked = true
		if gs+ts+cs > 0 {
			c.Leaks = append(c.Leaks, fmt.Sprintf("%d goroutines, %d timers, %d contexts (%s)", gs, ts, cs, desc))
		}
	})
}

func (w *World) client(i, from int) {
	cl := &w.Sc.Clients[i]
	n := cl.Calls()
	at := from
	fin := false
	defer func() {
		if !fin && rt.Active() {
			rt.GoHarness(fmt.Sprintf("client%d", i), func() { w.client(i, at+1) })
		}
	}()
	for ; at < n; at++ {
		w.do(i, cl.Call(at), nil)
	}
	fin = true
}

// Simulate executes one run of a scenario.
func Simulate(sc *Scenario, replay bool, choices []rt.Choice, keepLog bool) *World {
	u := Units[sc.Unit]
	if u == nil {
		panic("unknown unit " + sc.Unit)
	}
	w := &World{Sc: sc, U: u, Fired: map[string]int{}, methods: map[string]reflect.Value{}, ByImpl: u.Template == "fallback"}
	steps := 60000
	for i := range sc.Clients {
		c := &sc.Clients[i]
		steps += 3000 * (c.Calls() - len(c.Ops))
	}
	// a ticker that nobody listens to any more still takes its steps
	if idle := 8 * sc.Horizon / ms; idle > 0 {
		steps += int(min(idle, 8000000))
	}
	cfg := rt.Config{Seed: sc.Seed, Strategy: sc.Strategy, Replay: replay, Choices: choices, SyncTimers: sc.SyncTimers, KeepLog: keepLog, NoRace: sc.Prop != "C19", MaxSteps: steps}
	w.Res = rt.Run(cfg, w.main)
	if w.Res.Stalls > 0 {
		w.Fired["stall"] += w.Res.Stalls
	}
	return w
}

func (w *World) main() {
	sc := w.Sc
	rt.Harness(func() {
		w.Shared = &BaseError{Token: "shared"}
		for i := 0; i < sc.Ignore; i++ {
			w.Ignored = append(w.Ignored, &BaseError{Token: fmt.Sprintf("ignored%d", i)})
		}
		w.Kit = NopKit{}
		if f := Kits[w.U.Template]; f != nil {
			w.Kit = f(w)
		}
		n := sc.Impls
		var stubs []any
		for i := 0; i < n; i++ {
			im := &Impl{W: w, Index: i}
			w.Impls = append(w.Impls, im)
			stubs = append(stubs, w.U.Stub(im))
		}
		w.construct(stubs)
		if !w.D.IsValid() {
			return
		}
		for _, m := range w.U.Methods {
			f := w.D.MethodByName(m.Name)
			if !f.IsValid() {
				panic("harness: decorator lacks method " + m.Name)
			}
			w.methods[m.Name] = f
		}
		w.T0 = rt.Now()
		for _, f := range sc.Faults {
			f := f
			if f.Kind == "wall" {
				rt.NewTimer("fault", f.At, 0, func() {
					w.fire("wall-clock-step")
					w.Wall = append(w.Wall, wallStep{rt.Now(), f.D})
					rt.JumpWall(f.D)
				})
			}
		}
		for i := range sc.Clients {
			i := i
			rt.GoHarness(fmt.Sprintf("client%d", i), func() { w.client(i, 0) })
		}
	})
	if w.D.IsValid() {
		rt.Sleep(sc.Horizon)
	}
}

func convert(x any, t reflect.Type) reflect.Value {
	if x == nil {
		return reflect.Zero(t)
	}
	v := reflect.ValueOf(x)
	if v.Type() != t && t.Kind() != reflect.Interface && v.Type().ConvertibleTo(t) {
		return v.Convert(t)
	}
	if t.Kind() == reflect.Interface {
		n := reflect.New(t).Elem()
		n.Set(v)
		return n
	}
	return v
}

func (w *World) construct(stubs []any) {
	sc := w.Sc
	var args []any
	ctor := w.U.New
	switch w.U.Template {
	case "circuitbreaker":
		args = append(args, stubs[0], sc.N, sc.D)
		for _, e := range w.Ignored {
			args = append(args, e)
		}
	case "retry":
		args = append(args, stubs[0], sc.N, sc.D)
	case "fallback":
		args = append(args, sc.D)
		args = append(args, stubs...)
	case "ratelimit":
		args = append(args, stubs[0], sc.N, float64(sc.D)/1e6) // D: thousandths of a request per ... see rps
	case "robinpool", "syncpool":
		args = stubs
		if sc.flag("must") == 1 && w.U.Must != nil {
			ctor = w.U.Must
		}
	case "timeout":
		ft := reflect.TypeOf(w.U.New)
		cfg := reflect.New(ft.In(1)).Elem()
		for i := range w.U.Methods {
			m := &w.U.Methods[i]
			if d, ok := sc.Timeouts[m.Name]; ok {
				f := cfg.FieldByName(m.Name + "Timeout")
				if !f.IsValid() {
					w.bad("api", "timeout configuration lacks a setting for %s", m.Name)
					continue
				}
				f.SetInt(d)
			}
		}
		args = append(args, stubs[0], cfg.Interface())
	default:
		args = append(args, stubs[0])
		args = append(args, w.Kit.Args()...)
	}
	fv := reflect.ValueOf(ctor)
	ft := fv.Type()
	var in []reflect.Value
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		in = append(in, convert(a, pt))
	}
	func() {
		defer func() {
			if !rt.Active() {
				return
			}
			if r := recover(); r != nil {
				w.CtorBad = r
			}
		}()
		rt.AsCode("ctor", func() {
			out := fv.Call(in)
			if len(out) == 2 && !out[1].IsNil() {
				w.CtorErr = out[1].Interface().(error)
				return
			}
			w.D = out[0]
		})
	}()
	if w.D.IsValid() && w.D.Kind() == reflect.Struct {
		// users hold decorators in interface values; make one addressable copy per world
		p := reflect.New(w.D.Type())
		p.Elem().Set(w.D)
		w.D = p.Elem()
	}
}
