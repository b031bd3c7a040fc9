// Package svc has interfaces to decorate.
package svc

import (
	"context"
	"io"
	"time"

	"example.com/shop/a/types"
)

// Item of the store
type Item struct {
	ID   string
	Tags map[string][]string
}

// Store is the usual kind of interface
type Store interface {
	// Get returns an item
	Get(ctx context.Context, id string) (*Item, error)
	Put(ctx context.Context, items ...Item) (n int, err error)
	Each(ctx context.Context, f func(i Item, at time.Time) (bool, error)) error
	Kind(k types.Kind) (types.Kind, bool)
	Close() error
}

// Quiet has neither contexts nor errors
type Quiet interface {
	Ping()
	Count(a, b int) int
	Range() (min, max int)
	Watch(ch <-chan Item, out chan<- *Item) [4]byte
}

// Full embeds from everywhere
type Full interface {
	Store
	Extra
	types.Named
	io.WriterTo
}
