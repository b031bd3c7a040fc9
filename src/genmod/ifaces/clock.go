package ifaces

import (
	tick "time"

	uri "net/url"

	"gen/a-shop"
)

// Clock is embedded by an interface of another file and uses imports of its own.
type Clock interface {
	At(d tick.Duration, u *uri.URL) (tick.Time, error)
}

// Kiosk belongs to a package that has the name of another imported one.
type Kiosk interface {
	shop.Board
	Close() error
}
