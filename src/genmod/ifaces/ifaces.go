// Package ifaces is the corpus of source interfaces.
package ifaces

import (
	"context"
	stdctx "context"
	"fmt"
	"io"
	tm "time"

	api "gen/v1"
	"gen/web"
)

type Value struct {
	N int
	S string
}

type Option func(*Value)

// Mixed has all shapes the templates distinguish.
type Mixed interface {
	F(ctx context.Context, a1 string, a2 ...string) (result1, result2 string, err error)
	ContextNoError(ctx context.Context, a1 string, a2 string)
	NoError(string) string
	NoParamsOrResults()
	Channels(chA chan bool, chB chan<- bool, chanC <-chan bool)
}

// Store is a typical service.
type Store interface {
	Get(ctx context.Context, key string) (Value, error)
	Put(ctx context.Context, key string, v *Value, opts ...Option) error
	List(ctx context.Context, prefix string, limit int) (vs []Value, total int, err error)
	Watch(ctx context.Context, keys map[string]int, cb func(string) error) (<-chan Value, error)
	Stats(ctx context.Context) map[string][]int
	Len() int
	Close() error
}

// Codec has no contexts.
type Codec interface {
	Encode(v interface{}) ([]byte, error)
	Decode(data []byte, into interface{}) error
	EncodeAll(prefix string, vs ...interface{}) (out [][]byte, err error)
}

// Anon has unnamed parameters and results.
type Anon interface {
	Do(context.Context, string, string, ...int) (string, string, error)
	Swap(int, int) (int, int)
	Ptr(*Value, [3]int, struct{ A, B int }) (*Value, [3]int, error)
	Größe(Über, *Ωmega, ...Über) (Über, error)
}

type (
	// Über has a name outside of ASCII.
	Über struct{ A string }
	// Ωmega too.
	Ωmega int
)

// Big embeds other interfaces.
type Big interface {
	Codec
	io.Closer
	fmt.Stringer
	Base
	Own(ctx context.Context, s string) error
}

type Base interface {
	Ping(ctx context.Context) error
	Flush()
}

// Req is a request with validation on the pointer.
type Req struct {
	ID   string
	N    int
	Hook func() error `json:"-"`
}

func (r *Req) Validate() error {
	if r == nil || r.Hook == nil {
		return nil
	}
	return r.Hook()
}

// Val is a request with validation on the value.
type Val struct {
	ID   string            `json:"id"`
	Tags map[string]string `json:"tags,omitempty"`
	Hook func() error      `json:"-"`
}

func (v Val) Validate() error {
	if v.Hook == nil {
		return nil
	}
	return v.Hook()
}

// ReqList is a slice with validation.
type ReqList []*Req

func (l ReqList) Validate() error {
	for _, r := range l {
		if err := r.Validate(); err != nil {
			return err
		}
	}
	return nil
}

// Validator is an argument type that promises validation.
type Validator interface{ Validate() error }

// Plain has no validation.
type Plain struct{ Name string }

// Svc takes requests.
type Svc interface {
	Create(ctx context.Context, req *Req) (*Value, error)
	Update(ctx context.Context, id string, req *Req, v Val) (n int, err error)
	Batch(ctx context.Context, reqs ReqList, opts ...Option) error
	Check(v Val, extra interface{}) error
	Any(ctx context.Context, p Plain, x Validator) (Val, error)
	Two(a *Req, b *Req) (string, error)
	Notify(ctx context.Context, req *Req)
	Since(ctx context.Context, at tm.Duration, req Val) (tm.Duration, error)
	Raw(ctx context.Context, payload map[string]interface{}) ([]byte, error)
	Ping(ctx context.Context) error
	Free()
}

// Odd has the parameter lists that are easy to get wrong.
type Odd interface {
	WithErr(ctx context.Context, err error) error
	ErrParam(err string, n int) (e error)
	ErrFirst(n int) (err error, code int)
	TwoErrs(a string) (error, error)
	NotCtx(ctx string, n int) (s string, err error)
	CtxLast(name string, ctx context.Context) error
	CtxNamed(c context.Context, d int, r string) (int, string)
	Blank(_ context.Context, _ string, _ int) (_ int, _ error)
	Clash(s1 int, s string, i2 int) (s2 string, i1 int)
	Gen(string, *string, []string, map[string]int, func(string) error, chan int, struct{ A int }, interface{}, ...string) (string, *string, []string)
	Last(ctx context.Context, opts ...Option) (n int64, ok bool)
	Taken(ctx context.Context, s1, s2 string, i1 int, v1 *Value) (string, int, *Value, error)
	Half(s1 int, _ string, _ ...string) string
	Late(s string) (count int, failure error)
	Web(c web.Context, to string) (n int, err error)
	Page(web.Context) string
}

// Uniform has many parameters and results of one type.
type Uniform interface {
	Range(lo, hi int) (min, max int)
	Pair(y, x string) (y2, x1 string, err error)
	Order(ctx context.Context, z, m, a string, k ...string) (w, c, b string, err error)
	Many(a, b, c, d, e, f, g int) (l, k, j, i, h int)
	Unnamed(string, string, string) (string, string, string)
	Errs(ctx context.Context, cause error, other error) (warn, info error, err error)
}

// Names has parameters named like the things a decorator may declare itself.
type Names interface {
	Do(ctx context.Context, base, config, cancel, cancelFunc, span, ok, i, d string) (result, res string, err error)
	Other(ticker, results, closesAt, twerr, jsonReq, req string) (component, params, method, v int, err error)
	Third(ctx context.Context, r, fn, key, val, lock, pool, impl, counter, errs int) (decorator, out bool)
}

// Size of arrays.
const Size = 2

// Opt is a generic type.
type Opt[T any] struct{ V T }

// Repo is generic.
type Repo[K comparable, V any] interface {
	Load(ctx context.Context, key K) (V, error)
	Swap(ctx context.Context, k K, v V) (old V, err error)
	All(ks []K, more ...V) (map[K]V, *Opt[V])
}

// Nested passes its type parameter on.
type Nested[T any] interface {
	Repo[string, T]
	Each(ctx context.Context, f func(n int, v T) (bool, error)) (n int, err error)
}

// Users embeds instantiated interfaces, interfaces of other files and packages, and the predeclared one.
type Users interface {
	Nested[*Value]
	api.Keyed[api.ID, Opt[Value]]
	Clock
	error
	interface {
		Inline(v Value, vs ...Value) Value
	}
	Count(ctx stdctx.Context) (int, error)
}

// Wide has the types that are easy to print wrong.
type Wide interface {
	api.Source
	Rename(ctx stdctx.Context, from, to api.ID) (api.Item, error)
	Funcs(f func(a int, b Value) (c bool, err error), g func(), h func(...Value) int) func(tm.Duration) error
	Arrays(a [2][Size]*api.Item, b [Size + 1]map[api.ID][]chan<- struct{}, c <-chan (<-chan Value)) (ch chan (<-chan Value))
	Ifaces(x interface{ fmt.Stringer }, y any, e error, z interface {
		Do(a int, b ...Value) (Value, error)
	}) (error, any)
	Structs(s struct {
		A    int `json:"a"`
		B, C *Value
		api.Item
	}) (r struct {
		V []Value `x:"y"`
	}, err error)
	Numbers(a int8, b uint16, c float32, d complex128, e byte, f rune, g uintptr) (bool, rune)
	Ptrs(p **Value, q *[]*Value, m *map[string]*Value, f *func(Value)) (***Value, error)
	Parens(int, *Value, ...(Value)) (Value, error)
}

// Ported is declared differently for every platform.
type Ported interface {
	Platform
	Common(ctx context.Context, s string) error
}

type (
	key   struct{ s string }
	entry map[key][]entry
	fetch func(ctx context.Context, k key) (e *entry, err error)
)

// inner is decorated from within its package only: its methods and types are not exported.
type inner interface {
	get(ctx context.Context, k key, more ...*key) (*entry, error)
	walk(f fetch, at map[key]entry) (n int, err error)
	Put(ctx context.Context, e entry)
	close() error
	size() int
}

// Relay has a method of its own name.
type Relay interface {
	Relay(ctx context.Context, v Val) (*Value, error)
	Stop()
}

// Types has what is left of the types.
type Types interface {
	Lens(a [len("abc")]byte, b [1 << Size]int, c [2 * (Size + 1)]Value, d [-(-2)]bool, e ['\x03']*api.Item, f [api.Max]api.ID, g [api.Max - Size]int) ([Size]Value, error)
	Opts(a Opt[Value], b map[string]Opt[[]*Value], c ...Opt[Opt[int]]) (Opt[api.Item], *Opt[Val], error)
	Chans(a chan<- chan int, b <-chan func(Value) error, c chan<- (<-chan api.ID), d chan []chan<- Opt[Value]) (<-chan (chan<- Value), error)
	Embeds(s struct {
		*Value
		Opt[int]
		api.ID `tag:"a\tb"`
		*api.Item "other"
	}) (i interface {
		Base
		api.Third
		X(a, b int, c string) (d, e Value, f error)
	}, err error)
	Fns(f ...func(...int) func(Value, ...Value) (api.ID, error)) (g func() (a, b Value, c error), err error)
	Empty(a struct{}, b interface{}, c [0]func(), d map[struct{ A, B api.ID }]interface{ Y() api.ID }) error
	Void(func(), func(_ int, _ ...string) (_ Value))
}
