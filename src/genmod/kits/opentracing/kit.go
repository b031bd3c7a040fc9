// Package opentracing adapts the opentracing decorator.
package opentracing

import (
	"context"
	"fmt"
	"sort"
	"strings"

	ot "github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"

	"vsim/dec"
)

func init() {
	dec.Kits["opentracing"] = func(w *dec.World) dec.Kit {
		k := &kit{t: &tracer{MockTracer: mocktracer.New()}}
		k.t.k = k
		ot.SetGlobalTracer(k.t)
		k.Init(w, k)
		return k
	}
}

type tracer struct {
	*mocktracer.MockTracer
	k *kit
}

func (t *tracer) StartSpan(name string, opts ...ot.StartSpanOption) ot.Span {
	s := t.MockTracer.StartSpan(name, opts...)
	if !t.k.caller {
		t.k.started = append(t.k.started, s.(*mocktracer.MockSpan))
	}
	return s
}

type kit struct {
	dec.SpanKit
	t       *tracer
	caller  bool
	started []*mocktracer.MockSpan
}

func (k *kit) Spans() ([]*dec.SpanRec, bool) {
	ends := map[int]int{}
	for _, s := range k.t.FinishedSpans() {
		ends[s.SpanContext.SpanID]++
	}
	var out []*dec.SpanRec
	for _, s := range k.started {
		r := &dec.SpanRec{ID: s.SpanContext.SpanID, Name: s.OperationName, Ends: ends[s.SpanContext.SpanID]}
		if s.ParentID != 0 {
			r.Parent = s.ParentID
		}
		tags := s.Tags()
		if b, ok := tags["error"].(bool); ok && b {
			r.Error = true
		}
		var keys []string
		for t := range tags {
			keys = append(keys, t)
		}
		sort.Strings(keys)
		for _, t := range keys {
			r.Text += fmt.Sprintf("%v\n", tags[t])
		}
		for _, l := range s.Logs() {
			for _, f := range l.Fields {
				r.Text += f.ValueString + "\n"
			}
		}
		out = append(out, r)
	}
	return out, true
}

// More wants a log record telling about the error of a failed call.
func (k *kit) More(c *dec.Call, b *dec.Base, r *dec.SpanRec, fail bool) string {
	n := 0
	for _, s := range k.started {
		if any(s.SpanContext.SpanID) != r.ID {
			continue
		}
		for _, l := range s.Logs() {
			event, message := false, false
			for _, f := range l.Fields {
				event = event || f.Key == "event" && f.ValueString == "error"
				message = message || fail && strings.Contains(f.ValueString, b.Err.Error())
			}
			if event {
				n++
			}
			if event && !message {
				return "an error event that does not tell the error"
			}
		}
	}
	if fail != (n == 1) || n > 1 {
		return fmt.Sprintf("%d error events logged, the call failed: %v", n, fail)
	}
	return ""
}

func (k *kit) Current(ctx context.Context) any {
	s := ot.SpanFromContext(ctx)
	if s == nil {
		return nil
	}
	return s.(*mocktracer.MockSpan).SpanContext.SpanID
}

func (k *kit) Caller(ctx context.Context) (context.Context, any) {
	k.caller = true
	s := k.t.StartSpan("caller")
	k.caller = false
	return ot.ContextWithSpan(ctx, s), s.(*mocktracer.MockSpan).SpanContext.SpanID
}

func (k *kit) Args() []any {
	a := []any{"instance"}
	switch k.W.Flag("deco") {
	case 1:
		a = append(a, func(span ot.Span, params, results map[string]interface{}) {
			k.Decorated(span.(*mocktracer.MockSpan).SpanContext.SpanID, params, results)
		})
	case 2:
		var f func(span ot.Span, params, results map[string]interface{})
		a = append(a, f)
	}
	return a
}
