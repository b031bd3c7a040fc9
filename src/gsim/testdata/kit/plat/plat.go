package plat

type Device interface {
	Handle
	Flags() []Flag
}
