// Package v1 declares interfaces that others embed.
package v1

import (
	"context"
	"io"
	"math/rand"
	"time"
)

// Max is a constant.
const Max = 4

// ID of an item.
type ID string

// Item of a source.
type Item struct {
	ID   ID
	Next *Item
}

// Source of items.
type Source interface {
	Fetch(ctx context.Context, id ID, more ...ID) (*Item, error)
	Walk(f func(it *Item, n int) (bool, error), by map[ID][]*Item) (last [2]Item, n int)
	Copy(w io.Writer, at time.Time, r *rand.Rand, d ...time.Duration) (int64, error)
	Feed(ctx context.Context, in <-chan Item, out chan<- *Item, both chan []Item) <-chan (<-chan ID)
	Third
	io.Closer
}

// Third is embedded.
type Third interface {
	io.ReaderFrom
	Put(i Item)
}

// Keyed is generic.
type Keyed[K comparable, V any] interface {
	Find(ctx context.Context, i Item, ks []K, vs ...V) (m map[K]V, err error)
	First() K
}
