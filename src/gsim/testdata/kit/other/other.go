// Package other is imported by svc.
package other

import "io"

type Option func() Option

type Base interface {
	Do(o Option, p []byte) (int, error)
	Reset(r io.Reader)
}

type Plain interface{ Plain(x interface{ X() }, s struct{ A, B int }) }

// Context is none
type Context struct{ Path string }
