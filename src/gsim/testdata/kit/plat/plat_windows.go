package plat

import "time"

// Handle differs between platforms
type Handle interface {
	Open(name string) (uintptr, error)
	Wait(t time.Duration)
}

type Flag string
