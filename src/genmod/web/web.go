// Package web has a type called Context that is none.
package web

// Context of a request.
type Context struct {
	Path string
	N    int
}
