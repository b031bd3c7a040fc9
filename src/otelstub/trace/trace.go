// Package trace is a recording stand-in for the OpenTelemetry tracing API.
package trace

import (
	"context"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

type SpanContext struct{ ID int64 }

func (s SpanContext) IsValid() bool { return s.ID != 0 }

type SpanStartConfig struct{ Attrs []attribute.KeyValue }
type SpanStartOption interface{ start(*SpanStartConfig) }
type SpanEndOption interface{ end() }
type EventOption interface{ event() }
type TracerOption interface{ tracer() }
type SpanKind int

const (
	SpanKindUnspecified SpanKind = iota
	SpanKindInternal
	SpanKindServer
	SpanKindClient
	SpanKindProducer
	SpanKindConsumer
)

type attrOpt struct{ kv []attribute.KeyValue }

func (a attrOpt) start(c *SpanStartConfig) { c.Attrs = append(c.Attrs, a.kv...) }
func (a attrOpt) event()                   {}

type SpanStartEventOption interface {
	SpanStartOption
	EventOption
}

func WithAttributes(kv ...attribute.KeyValue) SpanStartEventOption { return attrOpt{kv} }

type kindOpt struct{}

func (kindOpt) start(*SpanStartConfig)      {}
func WithSpanKind(SpanKind) SpanStartOption { return kindOpt{} }

type multiOpt struct{}

func (multiOpt) start(*SpanStartConfig) {}
func (multiOpt) end()                   {}
func (multiOpt) event()                 {}
func (multiOpt) tracer()                {}

type SpanEventOption interface {
	SpanStartOption
	SpanEndOption
	EventOption
}

func WithTimestamp(time.Time) SpanEventOption { return multiOpt{} }
func WithStackTrace(bool) interface {
	SpanEndOption
	EventOption
} {
	return multiOpt{}
}
func WithInstrumentationVersion(string) TracerOption { return multiOpt{} }

type Span interface {
	End(options ...SpanEndOption)
	AddEvent(name string, options ...EventOption)
	IsRecording() bool
	RecordError(err error, options ...EventOption)
	SpanContext() SpanContext
	SetStatus(code codes.Code, description string)
	SetName(name string)
	SetAttributes(kv ...attribute.KeyValue)
	TracerProvider() TracerProvider
}

type Tracer interface {
	Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span)
}

type TracerProvider interface {
	Tracer(name string, options ...TracerOption) Tracer
}

type ctxKey struct{}

func ContextWithSpan(ctx context.Context, s Span) context.Context {
	return context.WithValue(ctx, ctxKey{}, s)
}

func SpanFromContext(ctx context.Context) Span {
	if ctx == nil {
		return &Rec{}
	}
	if s, ok := ctx.Value(ctxKey{}).(Span); ok {
		return s
	}
	return &Rec{}
}

// Rec is a recorded span.
type Rec struct {
	Name    string
	Tracer  string
	Parent  Span
	Ended   int
	Errors  []error
	Status  codes.Code
	Desc    string
	Attrs   []attribute.KeyValue
	Late    int // operations after End
	Prov    *Provider
	ID      int64
	OnEvent func(what string)
}

func (r *Rec) op(what string) {
	if r.OnEvent != nil {
		r.OnEvent(what)
	}
	if r.Ended > 0 {
		r.Late++
	}
}
func (r *Rec) End(...SpanEndOption) {
	if r.OnEvent != nil {
		r.OnEvent("end")
	}
	r.Ended++
}
func (r *Rec) AddEvent(string, ...EventOption) { r.op("event") }
func (r *Rec) IsRecording() bool               { return r.Ended == 0 }
func (r *Rec) RecordError(err error, _ ...EventOption) {
	r.op("error")
	r.Errors = append(r.Errors, err)
}
func (r *Rec) SpanContext() SpanContext         { return SpanContext{r.ID} }
func (r *Rec) SetStatus(c codes.Code, d string) { r.op("status"); r.Status, r.Desc = c, d }
func (r *Rec) SetName(n string)                 { r.op("name"); r.Name = n }
func (r *Rec) SetAttributes(kv ...attribute.KeyValue) {
	r.op("attrs")
	r.Attrs = append(r.Attrs, kv...)
}
func (r *Rec) TracerProvider() TracerProvider { return r.Prov }

// Provider records all spans.
type Provider struct {
	Spans   []*Rec
	OnStart func(r *Rec, ctx context.Context)
}

func (p *Provider) Tracer(name string, _ ...TracerOption) Tracer { return &tracer{p, name} }

type tracer struct {
	p    *Provider
	name string
}

func (t *tracer) Start(ctx context.Context, name string, opts ...SpanStartOption) (context.Context, Span) {
	c := &SpanStartConfig{}
	for _, o := range opts {
		o.start(c)
	}
	r := &Rec{Name: name, Tracer: t.name, Attrs: c.Attrs, Prov: t.p, ID: int64(len(t.p.Spans) + 1)}
	if s, ok := ctx.Value(ctxKey{}).(Span); ok {
		r.Parent = s
	}
	t.p.Spans = append(t.p.Spans, r)
	if t.p.OnStart != nil {
		t.p.OnStart(r, ctx)
	}
	return ContextWithSpan(ctx, r), r
}
