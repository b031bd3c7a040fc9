// Package vrand replaces the global functions of package math/rand under simulation.
package vrand

import "vsim/rt"

func Int() int                           { return rt.Rand().Int() }
func Intn(n int) int                     { return rt.Rand().Intn(n) }
func Int31() int32                       { return rt.Rand().Int31() }
func Int31n(n int32) int32               { return rt.Rand().Int31n(n) }
func Int63() int64                       { return rt.Rand().Int63() }
func Int63n(n int64) int64               { return rt.Rand().Int63n(n) }
func Uint32() uint32                     { return rt.Rand().Uint32() }
func Uint64() uint64                     { return rt.Rand().Uint64() }
func Float64() float64                   { return rt.Rand().Float64() }
func Float32() float32                   { return rt.Rand().Float32() }
func NormFloat64() float64               { return rt.Rand().NormFloat64() }
func ExpFloat64() float64                { return rt.Rand().ExpFloat64() }
func Perm(n int) []int                   { return rt.Rand().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { rt.Rand().Shuffle(n, swap) }
func Seed(int64)                         {}
func Read(p []byte) (int, error)         { return rt.Rand().Read(p) }
