// Package otel is a recording stand-in for the OpenTelemetry API (the real module is not available offline).
package otel

import "go.opentelemetry.io/otel/trace"

var provider trace.TracerProvider = &trace.Provider{}

func Tracer(name string, opts ...trace.TracerOption) trace.Tracer {
	return provider.Tracer(name, opts...)
}
func GetTracerProvider() trace.TracerProvider  { return provider }
func SetTracerProvider(p trace.TracerProvider) { provider = p }
