package dec

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"vsim/rt"
)

// SameErr reports whether two errors are the same value.
func SameErr(a, b error) bool { return sameErr(a, b) }

// SpanRec is one span of the code under test.
type SpanRec struct {
	ID     any
	Name   string
	Parent any // nil: none
	Ends   int
	Error  bool
	Errors int
	Text   string
	Late   bool // used after its end
	Type   string
	Labels map[string]any
}

// Tracing is what a tracing kit provides.
type Tracing interface {
	Spans() (spans []*SpanRec, unfinishedToo bool)
	Current(ctx context.Context) any
	Caller(ctx context.Context) (context.Context, any)
}

type decoCall struct {
	call    *Call
	seq     int64
	span    any
	params  map[string]interface{}
	results map[string]interface{}
}

// SpanKit is the common part of the tracing kits.
type SpanKit struct {
	NopKit
	W     *World
	t     Tracing
	decos []*decoCall
}

// Init connects the kit.
func (k *SpanKit) Init(w *World, t Tracing) { k.W, k.t = w, t }

type spanData struct {
	caller any
	early  int
	atEnd  int
}

func (k *SpanKit) CallerCtx(c *Call, ctx context.Context) context.Context {
	d := &spanData{}
	c.Data = d
	if c.Op.Span {
		ctx, d.caller = k.t.Caller(ctx)
	}
	return ctx
}

func (k *SpanKit) ends(id any) int {
	if id == nil {
		return 0
	}
	l, _ := k.t.Spans()
	for _, s := range l {
		if s.ID == id {
			return s.Ends
		}
	}
	return 0
}

func (k *SpanKit) BaseStart(b *Base, ctx context.Context) {
	if ctx != nil {
		b.SpanID = k.t.Current(ctx)
	}
}

func (k *SpanKit) BaseEnd(b *Base) {
	if d, ok := b.Op.Data.(*spanData); ok && k.W.Sc.Prop == "C17" {
		d.early += k.ends(b.SpanID)
	}
}

func (k *SpanKit) CallEnd(c *Call) {
	if d, ok := c.Data.(*spanData); ok && len(c.Bases) == 1 && k.W.Sc.Prop == "C17" {
		d.atEnd = k.ends(c.Bases[0].SpanID)
	}
}

// Decorated is called by user-supplied span decorators.
func (k *SpanKit) Decorated(id any, params, results map[string]interface{}) {
	c, _ := rt.Tag().(*Call)
	k.decos = append(k.decos, &decoCall{c, rt.Seq(), id, params, results})
	rt.Harness(func() { rt.Preempt("span-decorator") })
}

func holds(m map[string]interface{}, v reflect.Value) bool {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		x := m[k]
		xv := reflect.ValueOf(&x).Elem()
		if same(v, xv) || x != nil && v.Kind() != reflect.Interface && reflect.TypeOf(x) == v.Type() && same(v, reflect.ValueOf(x)) {
			return true
		}
	}
	return false
}

// Check decides C17.
func (k *SpanKit) Check() (out []Violation) {
	w := k.W
	bad := func(kind, f string, a ...any) {
		if len(out) < 8 {
			out = append(out, Violation{kind, fmt.Sprintf(f, a...)})
		}
	}
	var spans []*SpanRec
	var all bool
	if f, ok := k.t.(interface {
		Final() ([]*SpanRec, bool)
	}); ok {
		spans, all = f.Final()
	} else {
		spans, all = k.t.Spans()
	}
	used := map[any]*Call{}
	expected := 0
	for _, c := range w.Calls {
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		if len(c.Bases) != 1 {
			if c.Returned {
				bad("count", "%s: %d wrapped calls", id, len(c.Bases))
			}
			continue
		}
		if !c.M.Ctx {
			continue
		}
		if c.Returned || all {
			expected++
		}
		if !c.Returned {
			continue
		}
		b := c.Bases[0]
		d := c.Data.(*spanData)
		if b.SpanID == nil || b.SpanID == d.caller {
			bad("current", "%s: the context of the wrapped call does not carry a span of this call", id)
			continue
		}
		if o := used[b.SpanID]; o != nil {
			bad("shared", "%s and call %d share a span", id, o.Op.ID)
			continue
		}
		used[b.SpanID] = c
		var s *SpanRec
		for _, x := range spans {
			if x.ID == b.SpanID {
				s = x
			}
		}
		if s == nil {
			bad("unfinished", "%s: its span was never finished", id)
			continue
		}
		w.Antec++
		if !strings.Contains(s.Name, c.Op.Method) {
			bad("name", "%s: span is named %q", id, s.Name)
		}
		if s.Parent != d.caller && !(d.caller == nil && w.U.Template == "elasticapm") {
			bad("parent", "%s: span is a child of %v instead of the caller's span %v", id, s.Parent != nil, d.caller != nil)
		}
		if d.early != 0 {
			bad("early", "%s: span finished before the wrapped call ended", id)
		}
		if d.atEnd == 0 {
			bad("late", "%s: span not finished when the call ended", id)
		}
		if s.Ends != 1 {
			bad("ends", "%s: span finished %d times", id, s.Ends)
		}
		if s.Late {
			bad("late-use", "%s: span used after it was finished", id)
		}
		var dc []*decoCall
		for _, x := range k.decos {
			if x.call == c {
				dc = append(dc, x)
			}
		}
		fail := b.Panic == nil && !b.Goexit && c.M.Err && b.Err != nil
		if w.Flag("deco") == 1 && w.U.Template != "elasticapm" {
			if len(dc) != 1 {
				bad("decorator", "%s: the span decorator was called %d times", id, len(dc))
				continue
			}
			x := dc[0]
			if x.span != b.SpanID {
				bad("decorator", "%s: the span decorator got another call's span", id)
			}
			if x.seq < b.End || x.seq > c.End {
				bad("decorator", "%s: the span decorator was not called at the end of the call", id)
			}
			for i, a := range c.Args {
				if i == 0 {
					continue
				}
				if Misnamed(x.params, c.M.PNames[i], a) {
					bad("decorator", "%s: the span decorator got something else than parameter %d under its name", id, i)
				}
				if !holds(x.params, a) {
					bad("decorator", "%s: the span decorator did not get parameter %d", id, i)
				}
			}
			if b.Panic == nil && !b.Goexit {
				for i, a := range b.Results {
					if Misnamed(x.results, c.M.RNames[i], a) {
						bad("decorator", "%s: the span decorator got something else than result %d under its name", id, i)
					}
					if !holds(x.results, a) {
						bad("decorator", "%s: the span decorator did not get result %d (%s)", id, i, showOne(a))
					}
				}
			}
			continue
		}
		if len(dc) != 0 {
			bad("decorator", "%s: a span decorator was called", id)
		}
		if s.Error != fail {
			bad("mark", "%s: method failed: %v, span marked as failed: %v", id, fail, s.Error)
		}
		if fail && !strings.Contains(s.Text, b.Err.Error()) {
			bad("mark", "%s: the span does not carry the error %q", id, b.Err.Error())
		}
		if fail && s.Errors > 1 {
			bad("mark", "%s: error recorded %d times", id, s.Errors)
		}
		if m, ok := k.t.(interface {
			More(c *Call, b *Base, s *SpanRec, fail bool) string
		}); ok {
			if t := m.More(c, b, s, fail); t != "" {
				bad("mark", "%s: %s", id, t)
			}
		}
	}
	if len(out) == 0 && len(spans) != expected {
		bad("number", "%d spans for %d calls with a context", len(spans), expected)
	}
	return out
}
