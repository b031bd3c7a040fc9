// Package vfmt replaces what fmt sends to standard output.
package vfmt

import (
	"fmt"

	"vsim/shim/vos"
)

func Print(a ...any) (int, error)            { return fmt.Fprint(vos.Stdout, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(vos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(vos.Stdout, f, a...) }
