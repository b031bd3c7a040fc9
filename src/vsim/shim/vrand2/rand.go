// Package vrand2 replaces the global functions of package math/rand/v2 under simulation.
package vrand2

import "vsim/rt"

func Int() int                           { return rt.Rand().Int() }
func IntN(n int) int                     { return rt.Rand().Intn(n) }
func Int32() int32                       { return rt.Rand().Int31() }
func Int32N(n int32) int32               { return rt.Rand().Int31n(n) }
func Int64() int64                       { return rt.Rand().Int63() }
func Int64N(n int64) int64               { return rt.Rand().Int63n(n) }
func Uint32() uint32                     { return rt.Rand().Uint32() }
func Uint64() uint64                     { return rt.Rand().Uint64() }
func Float64() float64                   { return rt.Rand().Float64() }
func Float32() float32                   { return rt.Rand().Float32() }
func NormFloat64() float64               { return rt.Rand().NormFloat64() }
func ExpFloat64() float64                { return rt.Rand().ExpFloat64() }
func Perm(n int) []int                   { return rt.Rand().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { rt.Rand().Shuffle(n, swap) }
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	return I(rt.Rand().Int63n(int64(n)))
}
