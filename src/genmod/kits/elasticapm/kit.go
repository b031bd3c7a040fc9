// Package elasticapm adapts the elastic APM decorator.
package elasticapm

import (
	"compress/zlib"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"

	"go.elastic.co/apm/v2"
	"go.elastic.co/apm/v2/model"

	"vsim/dec"
)

var (
	rec  *apm.Tracer
	sent sink
)

// sink is the server the agent reports to.
type sink struct {
	mu     sync.Mutex
	spans  []model.Span
	errors []model.Error
}

func (s *sink) SendStream(ctx context.Context, stream io.Reader) error {
	z, err := zlib.NewReader(stream)
	if err != nil {
		return err
	}
	d := json.NewDecoder(z)
	for {
		var p struct {
			Error *model.Error `json:"error"`
			Span  *model.Span  `json:"span"`
		}
		if err := d.Decode(&p); err != nil {
			return nil
		}
		s.mu.Lock()
		if p.Error != nil {
			s.errors = append(s.errors, *p.Error)
		}
		if p.Span != nil {
			s.spans = append(s.spans, *p.Span)
		}
		s.mu.Unlock()
	}
}

func (s *sink) take() ([]model.Span, []model.Error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	a, b := s.spans, s.errors
	s.spans, s.errors = nil, nil
	return a, b
}

func init() {
	dec.Kits["elasticapm"] = func(w *dec.World) dec.Kit {
		if rec == nil {
			t, err := apm.NewTracerOptions(apm.TracerOptions{ServiceName: "sim", Transport: &sent})
			if err != nil {
				panic(err)
			}
			rec = t
			rec.SetSpanCompressionEnabled(false)
			rec.SetSpanStackTraceMinDuration(-1)
		}
		k := &kit{}
		k.Init(w, k)
		return k
	}
}

type kit struct {
	dec.SpanKit
	txs   []*apm.Transaction
	spans []*span
}

type span struct {
	s    *apm.Span
	id   model.SpanID
	name string
	par  model.SpanID
}

func (k *kit) find(s *apm.Span) *span {
	for _, x := range k.spans {
		if x.s == s {
			return x
		}
	}
	return nil
}

// Spans sees the spans wrapped calls had as current spans; the payloads tell about all the others.
func (k *kit) Spans() ([]*dec.SpanRec, bool) {
	var out []*dec.SpanRec
	for _, x := range k.spans {
		r := &dec.SpanRec{ID: x.id, Name: x.name, Parent: x.par}
		if x.s.SpanData == nil {
			r.Ends = 1
		}
		out = append(out, r)
	}
	return out, true
}

// Final reads what the agent sent.
func (k *kit) Final() ([]*dec.SpanRec, bool) {
	out, _ := k.Spans()
	if k.W.Sc.Prop != "C17" {
		return out, true
	}
	for _, t := range k.txs {
		t.End()
	}
	rec.Flush(nil)
	spans, errors := sent.take()
	by := map[model.SpanID]*dec.SpanRec{}
	for _, r := range out {
		by[r.ID.(model.SpanID)] = r
		r.Ends = 0
	}
	for _, s := range spans {
		r := by[s.ID]
		if r == nil {
			r = &dec.SpanRec{ID: s.ID}
			by[s.ID] = r
			out = append(out, r)
		}
		r.Name, r.Parent = s.Name, s.ParentID
		r.Type = s.Type
		if s.Subtype != "" {
			r.Type += "." + s.Subtype
		}
		r.Labels = map[string]any{}
		if s.Context != nil {
			for _, t := range s.Context.Tags {
				r.Labels[plain(t.Key)] = t.Value
			}
		}
		r.Ends++
	}
	for _, e := range errors {
		r := by[e.ParentID]
		if r == nil {
			out = append(out, &dec.SpanRec{ID: e.ID, Name: "error without a span", Text: e.Exception.Message})
			continue
		}
		r.Error = true
		r.Errors++
		r.Text += e.Exception.Message + "\n"
	}
	return out, true
}

func plain(name string) string { return strings.ToLower(strings.ReplaceAll(name, "_", "")) }

const spanType = "simulated.type"

// Args are the options of the constructor.
func (k *kit) Args() []any {
	var out []any
	if k.W.Flag("opts")&1 != 0 && k.W.U.Extra["WithUsingSetLabel"] != nil {
		out = append(out, reflect.ValueOf(k.W.U.Extra["WithUsingSetLabel"]).Call(nil)[0].Interface())
	}
	if k.W.Flag("opts")&2 != 0 && k.W.U.Extra["WithSpanType"] != nil {
		out = append(out, reflect.ValueOf(k.W.U.Extra["WithSpanType"]).Call([]reflect.Value{reflect.ValueOf(spanType)})[0].Interface())
	}
	return out
}

// More wants the span type and the labels the options ask for.
func (k *kit) More(c *dec.Call, b *dec.Base, s *dec.SpanRec, fail bool) string {
	if typed := k.W.Flag("opts")&2 != 0 && k.W.U.Extra["WithSpanType"] != nil; typed != (s.Type == spanType) {
		return fmt.Sprintf("the span type is %q, one was set: %v", s.Type, typed)
	}
	if k.W.Flag("opts")&1 == 0 || k.W.U.Extra["WithUsingSetLabel"] == nil {
		if len(s.Labels) > 0 {
			return "labels although none were asked for"
		}
		return ""
	}
	names := map[string]int{}
	for i := range c.Args {
		names[plain(c.M.PNames[i])]++
	}
	for i, a := range c.Args {
		n := plain(c.M.PNames[i])
		if i == 0 || n == "" || names[n] > 1 {
			continue
		}
		got, ok := s.Labels[n]
		if !ok {
			return fmt.Sprintf("no label for parameter %s", c.M.PNames[i])
		}
		switch a.Kind() {
		case reflect.String:
			if a.Type() == reflect.TypeOf("") && a.Len() < 1000 && got != a.String() {
				return fmt.Sprintf("label of parameter %s is %v instead of %q", c.M.PNames[i], got, a.String())
			}
		case reflect.Bool:
			if got != a.Bool() {
				return fmt.Sprintf("label of parameter %s is %v instead of %v", c.M.PNames[i], got, a.Bool())
			}
		case reflect.Int, reflect.Int64, reflect.Int32:
			if f, ok := got.(float64); a.Int() < 1<<50 && a.Int() > -1<<50 && a.Type().PkgPath() == "" && (!ok || f != float64(a.Int())) {
				return fmt.Sprintf("label of parameter %s is %v instead of %d", c.M.PNames[i], got, a.Int())
			}
		}
	}
	return ""
}

func (k *kit) Current(ctx context.Context) any {
	s := apm.SpanFromContext(ctx)
	if s == nil {
		return nil
	}
	x := k.find(s)
	if x == nil {
		x = &span{s: s, id: model.SpanID(s.TraceContext().Span), par: model.SpanID(s.ParentID())}
		if s.SpanData != nil {
			x.name = s.Name
		}
		k.spans = append(k.spans, x)
	}
	return x.id
}

func (k *kit) Caller(ctx context.Context) (context.Context, any) {
	tx := rec.StartTransaction("caller", "request")
	k.txs = append(k.txs, tx)
	return apm.ContextWithTransaction(ctx, tx), model.SpanID(tx.TraceContext().Span)
}
