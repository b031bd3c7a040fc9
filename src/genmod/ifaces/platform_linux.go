package ifaces

// Platform of the build.
type Platform interface {
	Fork(n int) (Value, error)
	Signal(v ...Value)
}
