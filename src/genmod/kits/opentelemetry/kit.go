// Package opentelemetry adapts the opentelemetry decorator.
package opentelemetry

import (
	"context"
	"errors"
	"fmt"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"

	"vsim/dec"
)

func init() {
	dec.Kits["opentelemetry"] = func(w *dec.World) dec.Kit {
		k := &kit{p: &trace.Provider{}}
		otel.SetTracerProvider(k.p)
		k.Init(w, k)
		return k
	}
}

type kit struct {
	dec.SpanKit
	p       *trace.Provider
	callers map[int64]bool
}

func (k *kit) Spans() ([]*dec.SpanRec, bool) {
	var out []*dec.SpanRec
	for _, s := range k.p.Spans {
		if k.callers[s.ID] {
			continue
		}
		r := &dec.SpanRec{ID: s.ID, Name: s.Name, Ends: s.Ended, Error: s.Status == codes.Error}
		if s.Parent != nil {
			r.Parent = s.Parent.SpanContext().ID
		}
		if s.Late > 0 {
			r.Late = true
		}
		for _, e := range s.Errors {
			r.Text += e.Error() + "\n"
		}
		r.Text += s.Desc + "\n"
		for _, a := range s.Attrs {
			r.Text += fmt.Sprint(a.Value.V) + "\n"
		}
		out = append(out, r)
	}
	return out, true
}

// More wants the error of a failed call recorded on its span.
func (k *kit) More(c *dec.Call, b *dec.Base, r *dec.SpanRec, fail bool) string {
	for _, s := range k.p.Spans {
		if any(s.ID) != r.ID {
			continue
		}
		n := 0
		for _, e := range s.Errors {
			if fail && (dec.SameErr(e, b.Err) || errors.Is(e, b.Err)) {
				n++
			}
		}
		if fail && n != 1 || len(s.Errors) != n {
			return fmt.Sprintf("the error is recorded %d times, other errors %d times, the call failed: %v", n, len(s.Errors)-n, fail)
		}
	}
	return ""
}

func (k *kit) Current(ctx context.Context) any {
	s := trace.SpanFromContext(ctx)
	if s.SpanContext().ID == 0 {
		return nil
	}
	return s.SpanContext().ID
}

func (k *kit) Caller(ctx context.Context) (context.Context, any) {
	ctx, s := k.p.Tracer("caller").Start(ctx, "caller")
	if k.callers == nil {
		k.callers = map[int64]bool{}
	}
	k.callers[s.SpanContext().ID] = true
	return ctx, s.SpanContext().ID
}

func (k *kit) Args() []any {
	a := []any{"instance"}
	switch k.W.Flag("deco") {
	case 1:
		a = append(a, func(span trace.Span, params, results map[string]interface{}) {
			k.Decorated(span.SpanContext().ID, params, results)
		})
	case 2:
		var f func(span trace.Span, params, results map[string]interface{})
		a = append(a, f)
	}
	return a
}
