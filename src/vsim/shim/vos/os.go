// Package vos replaces os for simulated code: the real calls, on files below the run's scratch
// directory, with every operation announced to a hook that can make it fail, tear it or kill
// the process before or after it.
package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
)

// Op is an operation about to be performed.
type Op struct {
	Kind  string // open, create, read, write, close, rename, remove, mkdir, stat, readdir, chmod, sync, truncate, exec, load, imports, net, stdout, stderr
	Path  string
	To    string
	N     int  // bytes about to be read or written
	Write bool // the file was opened for writing
}

// Decision is the hook's answer.
type Decision struct {
	Err     error  // fail with this
	Partial int    // reads, writes: do this many bytes first (only with Err or After); -1: all
	Short   int    // reads: return at most this many bytes
	Lose    bool   // close: drop the second half of what was written, then fail with Err
	After   func() // called after the effect (kills the process)
}

// Hook decides what happens to an operation; nil performs everything.
var Hook func(op *Op) Decision

// Outside reports a path that code under test must not touch.
var Outside func(path string) bool

func enter(op *Op) Decision {
	if rt.S != nil && !rt.Active() {
		runtime.Goexit()
	}
	if rt.Active() {
		rt.Preempt("os." + op.Kind)
	}
	if Outside != nil && (op.Kind == "create" || op.Kind == "remove" || op.Kind == "rename" || op.Kind == "mkdir" || op.Kind == "chmod" || op.Kind == "truncate") {
		if Outside(op.Path) || (op.To != "" && Outside(op.To)) {
			return Decision{Err: syscall.EPERM}
		}
	}
	if Hook == nil {
		return Decision{}
	}
	return Hook(op)
}

func after(d Decision) {
	if d.After != nil {
		d.After()
	}
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

// Do announces an operation of another shim.
func Do(kind, path string, f func() error) error {
	d := enter(&Op{Kind: kind, Path: path})
	if d.Err != nil {
		return d.Err
	}
	err := f()
	after(d)
	return err
}

// File is an open file.
type File struct {
	f       *os.File
	name    string
	w       bool
	written int64
	sink    io.Writer // standard streams
	kind    string
	closed  bool
}

// Std makes a standard stream.
func Std(kind string, w io.Writer) *File {
	return &File{name: "/dev/" + kind, kind: kind, sink: w, w: true}
}

// The standard streams and arguments of the simulated process.
var (
	Stdout = Std("stdout", os.Stdout)
	Stderr = Std("stderr", os.Stderr)
	Stdin  = &File{name: "/dev/stdin", kind: "stdin"}
	Args   = []string{"gowrap"}
)

func (f *File) ok() bool { return f != nil && !f.closed && (f.f != nil || f.sink != nil) }

func (f *File) kd(k string) string {
	if f.kind != "" {
		return f.kind
	}
	return k
}

func (f *File) Name() string { return f.name }

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.kind != "" {
		return 0, io.EOF
	}
	d := enter(&Op{Kind: "read", Path: f.name, N: len(p)})
	if d.Err != nil {
		n := 0
		if d.Partial > 0 && d.Partial < len(p) {
			n, _ = f.f.Read(p[:d.Partial])
		}
		return n, perr("read", f.name, d.Err)
	}
	if d.Short > 0 && d.Short < len(p) {
		p = p[:d.Short]
	}
	n, err := f.f.Read(p)
	after(d)
	return n, err
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	d := enter(&Op{Kind: "read", Path: f.name, N: len(p)})
	if d.Err != nil {
		return 0, perr("read", f.name, d.Err)
	}
	n, err := f.f.ReadAt(p, off)
	after(d)
	return n, err
}

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	d := enter(&Op{Kind: f.kd("write"), Path: f.name, N: len(p), Write: true})
	var out io.Writer = f.f
	if f.sink != nil {
		out = f.sink
	}
	if d.Err != nil || d.After != nil {
		n := 0
		k := d.Partial
		if k < 0 || k > len(p) {
			k = len(p)
		}
		if k > 0 {
			n, _ = out.Write(p[:k])
			f.written += int64(n)
		}
		after(d)
		if d.Err != nil {
			return n, perr("write", f.name, d.Err)
		}
		return n, nil
	}
	n, err := out.Write(p)
	f.written += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	d := enter(&Op{Kind: "write", Path: f.name, N: len(p), Write: true})
	if d.Err != nil {
		return 0, perr("write", f.name, d.Err)
	}
	n, err := f.f.WriteAt(p, off)
	after(d)
	return n, err
}

// ReadFrom copies in pieces, so that a copy can be torn.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	var n int64
	buf := make([]byte, 512)
	for {
		k, err := r.Read(buf)
		if k > 0 {
			w, werr := f.Write(buf[:k])
			n += int64(w)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	if f.kind != "" {
		f.closed = true
		return nil
	}
	d := enter(&Op{Kind: "close", Path: f.name, Write: f.w && f.written > 0})
	if d.Lose && f.w && f.written > 0 {
		if fi, err := f.f.Stat(); err == nil {
			f.f.Truncate(fi.Size() - (f.written+1)/2)
		}
	}
	f.closed = true
	err := f.f.Close()
	if d.Err != nil {
		return perr("close", f.name, d.Err)
	}
	after(d)
	return err
}

func (f *File) Stat() (os.FileInfo, error) {
	if f.f == nil {
		return nil, perr("stat", f.name, os.ErrInvalid)
	}
	d := enter(&Op{Kind: "stat", Path: f.name})
	if d.Err != nil {
		return nil, perr("stat", f.name, d.Err)
	}
	fi, err := f.f.Stat()
	after(d)
	return fi, err
}

func (f *File) simple(kind, name string, do func() error) error {
	if f.kind != "" {
		return nil
	}
	d := enter(&Op{Kind: kind, Path: f.name, Write: true})
	if d.Err != nil {
		return perr(name, f.name, d.Err)
	}
	err := do()
	after(d)
	return err
}

func (f *File) Sync() error { return f.simple("sync", "sync", func() error { return f.f.Sync() }) }
func (f *File) Truncate(n int64) error {
	return f.simple("truncate", "truncate", func() error { return f.f.Truncate(n) })
}
func (f *File) Chmod(m os.FileMode) error {
	return f.simple("chmod", "chmod", func() error { return f.f.Chmod(m) })
}
func (f *File) Chown(u, g int) error               { return nil }
func (f *File) SetDeadline(t time.Time) error      { return os.ErrNoDeadline }
func (f *File) Seek(o int64, w int) (int64, error) { return f.f.Seek(o, w) }
func (f *File) Fd() uintptr {
	if f.f == nil {
		return ^uintptr(0)
	}
	return f.f.Fd()
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	d := enter(&Op{Kind: "readdir", Path: f.name})
	if d.Err != nil {
		return nil, perr("readdirent", f.name, d.Err)
	}
	l, err := f.f.ReadDir(n)
	// the order of an open directory is up to the file system
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	for i := len(l) - 1; i > 0 && n <= 0; i-- {
		j := i - rt.Choose(i+1)
		l[i], l[j] = l[j], l[i]
	}
	return l, err
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	l, err := f.ReadDir(n)
	var r []os.FileInfo
	for _, e := range l {
		if fi, err := e.Info(); err == nil {
			r = append(r, fi)
		}
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	kind := "open"
	w := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if w || flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		kind = "create"
	}
	d := enter(&Op{Kind: kind, Path: name, Write: w})
	if d.Err != nil {
		return nil, perr("open", name, d.Err)
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	opened = append(opened, f)
	after(d)
	return &File{f: f, name: name, w: w}, nil
}

var opened []*os.File

// CloseAll closes what killed processes left open.
func CloseAll() {
	for _, f := range opened {
		f.Close()
	}
	opened = opened[:0]
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// ReadFile reads in pieces.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(struct{ io.Reader }{f})
	// os.ReadFile does not report close errors
	f.f.Close()
	f.closed = true
	return b, err
}

// WriteFile writes in pieces, as the kernel may.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func two(kind, name, a, b string, do func() error) error {
	d := enter(&Op{Kind: kind, Path: a, To: b, Write: true})
	if d.Err != nil {
		return &os.LinkError{Op: name, Old: a, New: b, Err: d.Err}
	}
	err := do()
	after(d)
	return err
}

func one(kind, name, p string, do func() error) error {
	d := enter(&Op{Kind: kind, Path: p, Write: true})
	if d.Err != nil {
		return perr(name, p, d.Err)
	}
	err := do()
	after(d)
	return err
}

func Rename(a, b string) error {
	return two("rename", "rename", a, b, func() error { return os.Rename(a, b) })
}
func Link(a, b string) error {
	return two("rename", "link", a, b, func() error { return os.Link(a, b) })
}
func Symlink(a, b string) error {
	return two("rename", "symlink", b, b, func() error { return os.Symlink(a, b) })
}
func Remove(p string) error { return one("remove", "remove", p, func() error { return os.Remove(p) }) }
func RemoveAll(p string) error {
	return one("remove", "unlinkat", p, func() error { return os.RemoveAll(p) })
}
func Mkdir(p string, m os.FileMode) error {
	return one("mkdir", "mkdir", p, func() error { return os.Mkdir(p, m) })
}
func MkdirAll(p string, m os.FileMode) error {
	return one("mkdir", "mkdir", p, func() error { return os.MkdirAll(p, m) })
}
func Chmod(p string, m os.FileMode) error {
	return one("chmod", "chmod", p, func() error { return os.Chmod(p, m) })
}
func Truncate(p string, n int64) error {
	return one("truncate", "truncate", p, func() error { return os.Truncate(p, n) })
}
func Chtimes(p string, a, m time.Time) error { return nil }

func info(p string, do func() (os.FileInfo, error)) (os.FileInfo, error) {
	d := enter(&Op{Kind: "stat", Path: p})
	if d.Err != nil {
		return nil, perr("stat", p, d.Err)
	}
	fi, err := do()
	after(d)
	return fi, err
}

func Stat(p string) (os.FileInfo, error) {
	return info(p, func() (os.FileInfo, error) { return os.Stat(p) })
}
func Lstat(p string) (os.FileInfo, error) {
	return info(p, func() (os.FileInfo, error) { return os.Lstat(p) })
}

func ReadDir(p string) ([]os.DirEntry, error) {
	d := enter(&Op{Kind: "readdir", Path: p})
	if d.Err != nil {
		return nil, perr("open", p, d.Err)
	}
	l, err := os.ReadDir(p)
	after(d)
	return l, err
}

var tempN int

// ResetTemp restarts the numbering of temporary files (a new run).
func ResetTemp() { tempN = 0 }

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	tempN++
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return dir + string(os.PathSeparator) + pre + fmt.Sprintf("%09d", 100000000+tempN*7919) + suf
}

func CreateTemp(dir, pattern string) (*File, error) {
	for {
		f, err := OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	for {
		n := tempName(dir, pattern)
		err := Mkdir(n, 0o700)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return n, err
	}
}

// Temp is the temporary directory of the simulated machine.
var Temp string

func TempDir() string {
	if Temp != "" {
		return Temp
	}
	return os.TempDir()
}

// Home is the home directory of the simulated user.
var Home string

func home(f func() (string, error), sub string) (string, error) {
	if Home == "" {
		return f()
	}
	return Home + sub, nil
}

func UserHomeDir() (string, error)   { return home(os.UserHomeDir, "") }
func UserCacheDir() (string, error)  { return home(os.UserCacheDir, "/.cache") }
func UserConfigDir() (string, error) { return home(os.UserConfigDir, "/.config") }

func env(k string) (string, bool) {
	if Home != "" {
		switch k {
		case "HOME":
			return Home, true
		case "XDG_CACHE_HOME":
			return Home + "/.cache", true
		case "XDG_CONFIG_HOME":
			return Home + "/.config", true
		case "TMPDIR":
			return TempDir(), true
		case "PWD":
			d, err := os.Getwd()
			return d, err == nil
		}
	}
	return "", false
}

func LookupEnv(k string) (string, bool) {
	if v, ok := env(k); ok {
		return v, true
	}
	return os.LookupEnv(k)
}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }

func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

// Pid of the simulated process; a restarted process has another one.
var Pid = 4242

// PidOf tells the number of the calling process when several run at once.
var PidOf func() int

func Getpid() int {
	if PidOf != nil {
		return PidOf()
	}
	return Pid
}

// OnExit is told about os.Exit; it must not return.
var OnExit func(code int)

func Exit(code int) {
	if rt.S != nil && !rt.Active() {
		runtime.Goexit()
	}
	if OnExit != nil {
		OnExit(code)
	}
	os.Exit(code)
}

// ReplayReader etc.: nothing else of os is redirected.
