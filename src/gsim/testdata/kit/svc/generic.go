package svc

import "context"

// Key of a repository
type Key interface{ ~string | ~int }

// Base of Repo
type Base[V any] interface {
	First(ctx context.Context) (V, error)
	All() []V
}

// Repo is generic
type Repo[K comparable, V any] interface {
	Base[V]
	Find(ctx context.Context, k K) (V, error)
	Keys(v ...V) map[string]V
}

// Items embeds an instance
type Items interface {
	Base[Item]
	Len() int
}
