package svc

import (
	"example.com/shop/b/types"
	"example.com/shop/other"
)

// Extra embeds an interface of a package named as another one
type Extra interface {
	types.Sized
	other.Base
	Extra(t types.Kind, o other.Option) (err error)
}

// Alias is an interface of another package
type Alias other.Base

// Both is embedded by way of two files
type Both interface {
	Quiet
	types.Sized
}

// Pages take something called Context that is none
type Pages interface {
	Show(c other.Context, at int) (string, error)
	Next(other.Context) bool
}
