// Package vlog replaces the standard logger of log.
package vlog

import (
	"fmt"
	"io"
	"log"

	"vsim/shim/vos"
)

type stderr struct{}

func (stderr) Write(p []byte) (int, error) { return vos.Stderr.Write(p) }

var std = log.New(stderr{}, "", 0)

func Default() *log.Logger      { return std }
func SetFlags(int)              {}
func SetPrefix(p string)        { std.SetPrefix(p) }
func SetOutput(w io.Writer)     { std.SetOutput(w) }
func Print(a ...any)            { std.Print(a...) }
func Println(a ...any)          { std.Println(a...) }
func Printf(f string, a ...any) { std.Printf(f, a...) }
func Fatal(a ...any)            { std.Print(a...); vos.Exit(1) }
func Fatalln(a ...any)          { std.Println(a...); vos.Exit(1) }
func Fatalf(f string, a ...any) { std.Printf(f, a...); vos.Exit(1) }
func Panic(a ...any)            { s := fmt.Sprint(a...); std.Print(s); panic(s) }
func Panicln(a ...any)          { s := fmt.Sprintln(a...); std.Print(s); panic(s) }
func Panicf(f string, a ...any) { s := fmt.Sprintf(f, a...); std.Print(s); panic(s) }
