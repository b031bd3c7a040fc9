// Package vexec replaces os/exec: the real command, announced to the hook of vos first.
package vexec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"strings"

	"vsim/shim/vos"
)

// Cmd is a command of the simulated process.
type Cmd struct {
	Path   string
	Args   []string
	Dir    string
	Env    []string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	Err    error

	ProcessState *os.ProcessState
	started      bool
	res          error
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func LookPath(file string) (string, error) {
	var p string
	err := vos.Do("exec", file, func() (err error) { p, err = exec.LookPath(file); return })
	return p, err
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) run() error {
	return vos.Do("exec", c.String(), func() error {
		x := exec.Command(c.Args[0], c.Args[1:]...)
		x.Dir, x.Env, x.Stdin, x.Stdout, x.Stderr = c.Dir, c.Env, c.Stdin, c.Stdout, c.Stderr
		err := x.Run()
		c.ProcessState = x.ProcessState
		return err
	})
}

func (c *Cmd) Run() error { return c.run() }
func (c *Cmd) Start() error {
	c.started = true
	c.res = c.run()
	var e *exec.ExitError
	if c.res != nil && !errors.As(c.res, &e) {
		return c.res
	}
	return nil
}
func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	return c.res
}
func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.run()
	return b.Bytes(), err
}
func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.run()
	return b.Bytes(), err
}
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	r, w := io.Pipe()
	c.Stdout = w
	return r, nil
}
