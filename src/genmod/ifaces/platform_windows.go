package ifaces

// Platform that is not built.
type Platform interface {
	Spawn(n int) (Value, error)
}

// Ported must not be taken from here.
type Ported interface {
	Other() error
}
