// Package shop is not named as its directory.
package shop

import (
	"context"

	api "gen/v1"
)

// Article of the shop.
type Article struct {
	ID    api.ID
	Price int
}

// Shelf of articles.
type Shelf interface {
	Take(ctx context.Context, id api.ID, n int) (a Article, left int, err error)
	Sort(less func(a, b Article) bool, more ...Article) []Article
}

// Board is another name of Shelf.
type Board = Shelf

// Crate is like Carrier.
type Crate Carrier[Article]

// Carrier is generic.
type Carrier[T any] interface {
	Carry(ctx context.Context, t T, ts ...*T) error
	Weight() (kg float64)
}
