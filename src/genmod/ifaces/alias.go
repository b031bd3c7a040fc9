package ifaces

import (
	"context"

	"gen/go-shop"
)

type (
	// Handle is another name of an interface of another file.
	Handle = Base

	// Keeper is defined by an instance of a generic interface.
	Keeper Nested[Value]

	// Front is an interface of another package.
	Front = shop.Board

	// Couple has type parameters of one constraint.
	Couple[K, V any] interface {
		First(k K, ks ...K) (V, error)
		Second(vs map[string]V, f func(K) V) (K, V)
	}

	// Check is called by Via.
	Check = func(v Value, a *shop.Article) (ok bool, err error)

	// Via embeds by way of aliases and defined types.
	Via interface {
		// Handle has a comment.
		Handle
		Keeper // and this too
		Front
		shop.Crate
		Couple[Value, int]
		interface {
			interface {
				Deep(v ...Value) (Value, error)
			}
		}

		/* Look has many comments. */
		Look(
			// ctx is the context
			ctx context.Context,
			where string, // where to look
			by /* which */, or Check,
			what struct { // of the thing
				// A counts
				A int // things
			},
		) (
			n int, // number
			err error,
		) // end
	}
)
