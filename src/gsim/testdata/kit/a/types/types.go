package types

type Kind string

// Named things
type Named interface{ Name(k Kind) string }

// Sized is not the other one
type Sized interface{ SizeA() int64 }
