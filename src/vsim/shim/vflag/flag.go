// Package vflag replaces the command line of flag.
package vflag

import (
	"flag"
	"fmt"
	"time"

	"vsim/shim/vos"
)

// CommandLine of the simulated process.
var CommandLine = flag.NewFlagSet("gowrap", flag.ContinueOnError)

// Reset starts a new process.
func Reset() {
	CommandLine = flag.NewFlagSet("gowrap", flag.ContinueOnError)
	CommandLine.SetOutput(vos.Stderr)
	Usage = func() {
		fmt.Fprintf(CommandLine.Output(), "Usage of %s:\n", vos.Args[0])
		PrintDefaults()
	}
	CommandLine.Usage = func() { Usage() }
}

var Usage = func() {}

func Parse() {
	err := CommandLine.Parse(vos.Args[1:])
	if err == flag.ErrHelp {
		vos.Exit(0)
	}
	if err != nil {
		vos.Exit(2)
	}
}
func Parsed() bool                                { return CommandLine.Parsed() }
func Args() []string                              { return CommandLine.Args() }
func Arg(i int) string                            { return CommandLine.Arg(i) }
func NArg() int                                   { return CommandLine.NArg() }
func NFlag() int                                  { return CommandLine.NFlag() }
func PrintDefaults()                              { CommandLine.PrintDefaults() }
func Lookup(n string) *flag.Flag                  { return CommandLine.Lookup(n) }
func Var(v flag.Value, n, u string)               { CommandLine.Var(v, n, u) }
func Bool(n string, v bool, u string) *bool       { return CommandLine.Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string) { CommandLine.BoolVar(p, n, v, u) }
func String(n, v, u string) *string               { return CommandLine.String(n, v, u) }
func StringVar(p *string, n, v, u string)         { CommandLine.StringVar(p, n, v, u) }
func Int(n string, v int, u string) *int          { return CommandLine.Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)    { CommandLine.IntVar(p, n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
