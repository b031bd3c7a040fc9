// Package shop has the name of another package.
package shop

// Article of another shop.
type Article int

// Board has nothing in common with the other one.
type Board interface {
	Show(a ...Article) (shown []Article)
}

// Crate as well.
type Crate interface {
	Open() (Article, error)
}
