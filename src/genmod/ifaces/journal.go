package ifaces

import (
	"context"

	log "gen/journal"
)

// Journal needs a package that has the name of one that a template imports.
type Journal interface {
	Write(ctx context.Context, l log.Line, more ...log.Line) (last log.Line, err error)
	Last() log.Line
}

// Shadow has parameters named like packages that templates import.
type Shadow interface {
	Plan(ctx context.Context, time int) error
	Note(ctx context.Context, fmt, log, errors, sync, strings string) (n int, err error)
	Tell(context int, codes, status string) error
}
