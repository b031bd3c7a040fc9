// Package vruntime replaces parts of package runtime under simulation.
package vruntime

import "vsim/rt"

// Gosched is runtime.Gosched.
func Gosched() { rt.Gosched() }

// GC is runtime.GC.
func GC() {}

// SetFinalizer is runtime.SetFinalizer; finalizers never run.
func SetFinalizer(obj, finalizer any) {}

// NumCPU is runtime.NumCPU.
func NumCPU() int { return 4 }

// GOMAXPROCS is runtime.GOMAXPROCS.
func GOMAXPROCS(int) int { return 4 }
