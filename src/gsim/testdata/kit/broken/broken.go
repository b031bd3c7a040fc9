package broken

type Empty interface{}

type Hidden interface {
	Shown()
	hidden()
}

type private struct{}

type Private interface{ Do(p private) }

type NotOne struct{}

type Bad interface {
	NotOne
	X()
}
