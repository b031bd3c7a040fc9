package plat

import "os"

// Handle differs between platforms
type Handle interface {
	Open(name string) (*os.File, error)
	Sync() error
}

type Flag int
