// Package dec simulates generated decorators: it builds a world of callers and wrapped
// implementations around one decorator, runs a scenario on it and records the history.
package dec

import (
	"encoding/json"
	"reflect"
	"time"

	"vsim/rt"
)

// Method describes one method of the source interface.
type Method struct {
	Name     string
	Ctx      bool // first parameter is a context
	Err      bool // last result is an error
	Params   []string
	Results  []string
	PNames   []string // the source's names of the parameters that a decorator has to keep, others are empty
	RNames   []string
	Variadic bool
}

// Unit is one generated decorator.
type Unit struct {
	Name     string // unique
	Template string
	Iface    string
	New      any
	Must     any
	Stub     func(im *Impl) any
	Methods  []Method
	Type     string // decorator type name
	Pkg      string
	Vars     map[string]string
	Extra    map[string]any
}

// Units are the registered decorators.
var Units = map[string]*Unit{}

// UnitNames in registration order.
var UnitNames []string

// Register adds a decorator.
func Register(u *Unit) {
	Units[u.Name] = u
	UnitNames = append(UnitNames, u.Name)
}

// M finds a method.
func (u *Unit) M(name string) *Method {
	for i := range u.Methods {
		if u.Methods[i].Name == name {
			return &u.Methods[i]
		}
	}
	return nil
}

// Plan is the behaviour of one call of a wrapped implementation.
type Plan struct {
	Lat    int64  `json:"lat,omitempty"`    // simulated time it takes
	Honor  bool   `json:"honor,omitempty"`  // ends early, with the context's error, when its context ends
	Err    string `json:"err,omitempty"`    // "", "e" (fresh error), "ign0".. (ignore-listed), "wign0" (wrapping it), "shared", twirp kinds
	Panic  string `json:"panic,omitempty"`  // "", "val", "err", "rt"
	Stuck  bool   `json:"stuck,omitempty"`  // never returns
	Yields int    `json:"yields,omitempty"` // extra scheduling points
	Cancel bool   `json:"cancel,omitempty"` // the caller's context is cancelled while the call runs
	Nested *Op    `json:"nested,omitempty"` // a call of the decorator from inside the wrapped call
	Mutate bool   `json:"mutate,omitempty"` // writes into pointer arguments
	Zero   bool   `json:"zero,omitempty"`   // zero results
	Jump   int64  `json:"jump,omitempty"`   // wall clock step during the call
}

// CtxSpec is the context a caller passes.
type CtxSpec struct {
	Kind   string `json:"kind,omitempty"`   // "", "cancel", "deadline"
	After  int64  `json:"after,omitempty"`  // cancelled/expires this long after the call
	Before bool   `json:"before,omitempty"` // already ended when the call is made
}

// Op is one call by a client.
type Op struct {
	ID      int     `json:"id"`
	Method  string  `json:"method"`
	Delay   int64   `json:"delay,omitempty"` // wait before the call
	Ctx     CtxSpec `json:"ctx,omitempty"`
	Plans   []Plan  `json:"plans,omitempty"`   // k-th wrapped call (fallback: of implementation k)
	Invalid []int   `json:"invalid,omitempty"` // parameters whose validation fails
	Nil     []int   `json:"nil,omitempty"`     // parameters passed as nil where possible
	Span    bool    `json:"span,omitempty"`    // the caller has a span of its own
	Times   int     `json:"times,omitempty"`   // so many more calls like this one follow
}

// Client is a caller.
type Client struct {
	Ops    []*Op `json:"ops"`
	Repeat int   `json:"repeat,omitempty"` // how often the calls are made once more
}

// Calls is the number of calls a client makes.
func (c *Client) Calls() int {
	n := 0
	for _, o := range c.Ops {
		n += 1 + o.Times
	}
	return n * (1 + c.Repeat)
}

// Call is the k-th call of a client.
func (c *Client) Call(k int) *Op {
	n := c.Calls() / (1 + c.Repeat)
	round := k / n
	k %= n
	for _, o := range c.Ops {
		if k > o.Times {
			k -= 1 + o.Times
			continue
		}
		return o.copy(round*(1+o.Times) + k)
	}
	return nil
}

func (o *Op) copy(k int) *Op {
	if k == 0 {
		return o
	}
	n := *o
	n.ID += k * 1000
	n.Plans = append([]Plan(nil), o.Plans...)
	for i := range n.Plans {
		if p := &n.Plans[i]; p.Nested != nil {
			p.Nested = p.Nested.copy(k)
		}
	}
	return &n
}

// Fault is a timed fault of the environment.
type Fault struct {
	Kind string `json:"kind"` // "wall"
	At   int64  `json:"at"`
	D    int64  `json:"d"`
}

// Scenario is everything one run does apart from scheduling decisions.
type Scenario struct {
	Prop       string           `json:"prop"`
	Unit       string           `json:"unit"`
	Seed       int64            `json:"seed"`
	Strategy   rt.Strategy      `json:"strategy"`
	SyncTimers bool             `json:"sync_timers,omitempty"`
	Impls      int              `json:"impls,omitempty"`
	N          int              `json:"n,omitempty"` // limit, retry count, burst
	D          int64            `json:"d,omitempty"` // interval
	Ignore     int              `json:"ignore,omitempty"`
	Timeouts   map[string]int64 `json:"timeouts,omitempty"`
	Flags      map[string]int   `json:"flags,omitempty"`
	Clients    []Client         `json:"clients"`
	Faults     []Fault          `json:"faults,omitempty"`
	Horizon    int64            `json:"horizon"`
}

// Clone copies a scenario.
func (s *Scenario) Clone() *Scenario {
	b, _ := json.Marshal(s)
	n := &Scenario{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

// Ops lists all operations, nested ones included.
func (s *Scenario) Ops() []*Op {
	var out []*Op
	var add func(o *Op)
	add = func(o *Op) {
		out = append(out, o)
		for i := range o.Plans {
			if o.Plans[i].Nested != nil {
				add(o.Plans[i].Nested)
			}
		}
	}
	for _, c := range s.Clients {
		for _, o := range c.Ops {
			add(o)
		}
	}
	return out
}

func (s *Scenario) flag(k string) int { return s.Flags[k] }

// Base is one call of a wrapped implementation as observed.
type Base struct {
	ID          int
	Op          *Call
	Impl        int
	Method      string
	K           int // index within the op
	Start       int64
	StartT      int64
	End         int64 // 0 while running
	EndT        int64
	Args        []reflect.Value
	Results     []reflect.Value
	Err         error
	Panic       any
	Ended       bool
	Ctx         any
	CtxErr      error // of the context handed to the wrapped call, at entry
	DoneT       int64 // when the context handed to it was seen to end (-1: not seen)
	DoneErr     error
	Deadline    time.Time
	HasDL       bool
	ArgsBad     string
	Plan        Plan
	SpanID      any
	Active      int
	DoneSeq     int64
	Goexit      bool
	CtxErrAfter error // of the context handed to the wrapped call, once the call has returned
	Data        any
	TagOp       int
}

// Call is one call of the decorator as observed.
type Call struct {
	Op          *Op
	Client      int
	M           *Method
	Parent      *Base
	Start       int64
	StartT      int64
	End         int64
	EndT        int64
	Returned    bool
	Args        []reflect.Value
	Results     []reflect.Value
	Err         error
	Panicked    bool
	Panic       any
	Bases       []*Base
	Ctx         any
	cancel      func()
	CtxEnd      int64 // simulated time the caller's context ended, -1 if it did not
	CtxErr      error
	CtxSeq      int64
	leakDone    bool
	Leaks       []string
	AfterCtx    []string // findings about contexts after the return
	Span        any
	Validations []string
	InvalidErr  map[int]error
	Token       string
	Deadline    int64
	Goexit      bool
	LeakChecked bool
	Data        any
}

// Running counts unfinished wrapped calls.
func (c *Call) Running() int {
	n := 0
	for _, b := range c.Bases {
		if !b.Ended {
			n++
		}
	}
	return n
}

// MarshalOps is a short rendering for logs.
func (s *Scenario) String() string {
	b, _ := json.Marshal(s)
	return string(b)
}
