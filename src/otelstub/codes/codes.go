// Package codes is a stand-in for OpenTelemetry status codes.
package codes

type Code uint32

const (
	Unset Code = 0
	Error Code = 1
	Ok    Code = 2
)
