package ifaces

import (
	"context"
	_ "embed"

	. "gen/web"
)

var _ Context

// Dotted lives in a file with other kinds of imports.
type Dotted interface {
	Do(ctx context.Context, s string) error
	Done() bool
}
