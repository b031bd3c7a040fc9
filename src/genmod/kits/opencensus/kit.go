// Package opencensus adapts the opencensus decorator.
package opencensus

import (
	"context"
	"fmt"
	"sort"

	"go.opencensus.io/trace"

	"vsim/dec"
)

var cur *kit

func init() {
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	trace.RegisterExporter(exporter{})
	dec.Kits["opencensus"] = func(w *dec.World) dec.Kit { cur = &kit{}; cur.Init(w, cur); return cur }
}

type exporter struct{}

func (exporter) ExportSpan(s *trace.SpanData) {
	if cur == nil {
		return
	}
	r := &dec.SpanRec{ID: s.SpanID, Name: s.Name, Ends: 1}
	if s.ParentSpanID != (trace.SpanID{}) {
		r.Parent = s.ParentSpanID
	}
	if b, ok := s.Attributes["error"].(bool); ok && b || s.Status.Code != 0 {
		r.Error = true
	}
	var keys []string
	for k := range s.Attributes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r.Text += fmt.Sprintf("%v\n", s.Attributes[k])
	}
	r.Text += s.Status.Message
	for _, a := range s.Annotations {
		r.Text += fmt.Sprintf("%v %v\n", a.Message, a.Attributes)
	}
	for _, old := range cur.spans {
		if old.ID == r.ID {
			old.Ends++
			return
		}
	}
	cur.spans = append(cur.spans, r)
}

type kit struct {
	dec.SpanKit
	spans []*dec.SpanRec
}

func (k *kit) Spans() ([]*dec.SpanRec, bool) { return k.spans, false }

func (k *kit) Current(ctx context.Context) any {
	s := trace.FromContext(ctx)
	if s == nil {
		return nil
	}
	return s.SpanContext().SpanID
}

func (k *kit) Caller(ctx context.Context) (context.Context, any) {
	ctx, s := trace.StartSpan(ctx, "caller")
	return ctx, s.SpanContext().SpanID
}

func (k *kit) Args() []any {
	a := []any{"instance"}
	switch k.W.Flag("deco") {
	case 1:
		a = append(a, func(span *trace.Span, params, results map[string]interface{}) {
			k.Decorated(span.SpanContext().SpanID, params, results)
		})
	case 2:
		var f func(span *trace.Span, params, results map[string]interface{})
		a = append(a, f)
	}
	return a
}
