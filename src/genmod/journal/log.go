// Package log has the name of a package that templates import.
package log

// Line of a log.
type Line struct{ Text string }
