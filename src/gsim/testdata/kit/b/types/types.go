package types

type Kind int

// Named is not the other one
type Named interface{ NameB() }

// Sized things
type Sized interface{ Size(k Kind) int64 }
