package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	xpackages "golang.org/x/tools/go/packages"
	"golang.org/x/tools/imports"

	"github.com/hexdigest/gowrap"
	"github.com/hexdigest/gowrap/cmd/gowrap"
	"github.com/hexdigest/gowrap/loader"

	"gsim/vimports"
	"gsim/vpackages"
	"vsim/rt"
	"vsim/shim/vflag"
	"vsim/shim/vos"
)

// Violation of a property.
type Violation struct{ Kind, Msg string }

// rec is an operation a process performed.
type rec struct {
	Kind string
	Path string
	N    int
}

// Proc is a simulated process.
type Proc struct {
	n        int
	pid      int
	step     *Step
	dead     bool // killed
	exited   bool
	returned bool
	code     int
	err      error
	panicked string
	out      bytes.Buffer
	errb     bytes.Buffer
	ops      int
	recs     []rec
	fired    []string
	served   int // index of the first response of this process
	open     int
}

// Task is one of several activities of a process.
type Task struct {
	p *Proc
	n int
}

// World of a run.
type World struct {
	sc      *Scenario
	res     *rt.Result
	viol    []Violation
	fired   map[string]int
	antec   int
	procs   []*Proc
	overlap bool
	each    func() // called before every operation
	server  *Server
	served  []*Served
	pid     int
	want    map[string]*Ref
	cwd     string
}

func (w *World) bad(kind, format string, args ...any) {
	msg := norm(fmt.Sprintf(format, args...))
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	w.viol = append(w.viol, Violation{kind, msg})
	rt.Note("VIOLATION %s: %s", kind, msg)
}

func (w *World) cur() *Proc {
	switch t := rt.Tag().(type) {
	case *Proc:
		return t
	case *Task:
		return t.p
	}
	return nil
}

func digest(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

var curWorld *World

var poisonErrs = []error{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EMFILE, syscall.EROFS, syscall.ENOMEM, syscall.EDQUOT, syscall.ENOTDIR, syscall.ELOOP}

func pick[T any](sel int, l ...T) T { return l[sel%len(l)] }

func (w *World) hook(op *vos.Op) vos.Decision {
	p := w.cur()
	if p == nil {
		return vos.Decision{}
	}
	if p.dead || p.exited {
		rt.Kill()
	}
	if w.each != nil {
		w.each()
	}
	i := p.ops
	p.ops++
	path := norm(op.Path)
	if op.To != "" {
		path += " -> " + norm(op.To)
	}
	p.recs = append(p.recs, rec{op.Kind, path, op.N})
	var d vos.Decision
	what := ""
	for _, f := range p.step.Faults {
		if f.At == i {
			d, what = w.fault(p, op, f)
			break
		}
	}
	rt.Note("p%d op %d %s %s %s", p.n, i, op.Kind, path, what)
	if what != "" {
		w.fired[what]++
		p.fired = append(p.fired, fmt.Sprintf("%s at operation %d (%s %s)", what, i, op.Kind, path))
		if what == "kill" {
			w.kill(p)
		}
	}
	return d
}

func (w *World) kill(p *Proc) {
	p.dead = true
	rt.WakeAll(unsafe.Pointer(p))
	rt.Kill()
}

func part(sel, n int) int { return n * (sel % 5) / 5 }

// fault decides how an operation fails.
func (w *World) fault(p *Proc, op *vos.Op, f Fault) (vos.Decision, string) {
	sel := f.Sel
	dest := false // is it the destination package being loaded?
	if op.Kind == "load" && p.step.Gen != nil {
		dir := op.Path
		if !filepath.IsAbs(dir) {
			dir = filepath.Join(treeRoot, p.step.Cwd, dir)
		}
		dest = dir == filepath.Dir(abs(p.step.Gen.File))
	}
	if f.Kill {
		switch op.Kind {
		case "net", "body", "bodyclose", "load", "imports", "exec", "open", "read", "stat", "readdir":
			return vos.Decision{}, "kill"
		}
		after := func() { w.kill(p) }
		switch sel % 4 {
		case 0, 1:
			if op.Kind == "write" || op.Kind == "stdout" {
				return vos.Decision{Partial: part(sel/4, op.N), After: after}, "kill within write"
			}
			return vos.Decision{}, "kill"
		default:
			return vos.Decision{Partial: -1, After: after}, "kill after " + op.Kind
		}
	}
	switch op.Kind {
	case "open":
		return vos.Decision{Err: pick[error](sel, error(syscall.EIO), syscall.EACCES, syscall.EMFILE, syscall.ELOOP, syscall.EPERM, syscall.ENFILE, syscall.ENOMEM, syscall.ESTALE, syscall.ETIMEDOUT)}, "open fails"
	case "create":
		return vos.Decision{Err: pick[error](sel, error(syscall.ENOSPC), syscall.EACCES, syscall.EROFS, syscall.EMFILE, syscall.EPERM, syscall.EDQUOT, syscall.ETXTBSY, syscall.EIO, syscall.ENFILE)}, "create fails"
	case "stat":
		return vos.Decision{Err: pick[error](sel, error(syscall.EIO), syscall.EACCES, syscall.ENOMEM, syscall.ESTALE)}, "stat fails"
	case "readdir":
		return vos.Decision{Err: pick[error](sel, error(syscall.EIO), syscall.EACCES, syscall.EMFILE)}, "readdir fails"
	case "read":
		if sel%3 == 0 {
			return vos.Decision{Short: 1 + sel%7}, "short read"
		}
		return vos.Decision{Err: pick[error](sel/15, error(syscall.EIO), syscall.ESTALE, syscall.ETIMEDOUT, syscall.EISDIR), Partial: part(sel/3, op.N)}, "read fails"
	case "write":
		return vos.Decision{Err: pick[error](sel, error(syscall.ENOSPC), syscall.EIO, syscall.EDQUOT, syscall.EFBIG, io.ErrShortWrite, os.ErrDeadlineExceeded), Partial: part(sel/6, op.N)}, "write fails"
	case "close":
		return vos.Decision{Err: pick[error](sel, error(syscall.EIO), syscall.ENOSPC, syscall.EDQUOT), Lose: sel%2 == 0}, "close fails"
	case "rename":
		return vos.Decision{Err: pick[error](sel, error(syscall.EIO), syscall.EACCES, syscall.ENOSPC, syscall.EBUSY)}, "rename fails"
	case "mkdir":
		return vos.Decision{Err: pick[error](sel, error(syscall.ENOSPC), syscall.EACCES, syscall.EROFS)}, "mkdir fails"
	case "remove", "chmod", "sync", "truncate":
		return vos.Decision{Err: pick[error](sel, error(syscall.EIO), syscall.EPERM)}, op.Kind + " fails"
	case "exec":
		return vos.Decision{Err: pick[error](sel, errors.New("exit status 128"), errors.New(`exec: "git": executable file not found in $PATH`))}, "command fails"
	case "load":
		if sel%2 == 0 || dest {
			return vos.Decision{Err: fmt.Errorf("go command: %w", pick[error](sel/2, error(syscall.ENOMEM), errors.New("signal: killed"), errors.New("fork/exec /usr/bin/go: resource temporarily unavailable")))}, "go tool fails"
		}
		return vos.Decision{Err: vpackages.PackageError{Err: xpackages.Error{Pos: "-", Msg: "could not import something", Kind: xpackages.ListError}}}, "package error"
	case "imports":
		return vos.Decision{Err: errors.New("imports: cannot read directory")}, "imports fails"
	case "net":
		m := netModes[sel%len(netModes)]
		return vos.Decision{Err: netFault{m}}, "net " + m
	case "body":
		return vos.Decision{Err: &netError{"read tcp", pick[error](sel, error(syscall.ECONNRESET), io.ErrUnexpectedEOF, errors.New("i/o timeout"), net.ErrClosed, os.ErrDeadlineExceeded, context.Canceled)}}, "body fails"
	case "bodyclose":
		return vos.Decision{Err: errors.New("close fails")}, "body close fails"
	case "stdout", "stderr":
		return vos.Decision{Err: pick[error](sel, error(syscall.EPIPE), syscall.ENOSPC, syscall.EIO, syscall.EAGAIN, io.ErrShortWrite, os.ErrClosed), Partial: part(sel/6, op.N)}, op.Kind + " fails"
	}
	return vos.Decision{}, ""
}

func outside(path string) bool {
	if path == "" {
		return false
	}
	if !filepath.IsAbs(path) {
		wd, err := os.Getwd()
		if err != nil {
			return true
		}
		path = filepath.Join(wd, path)
	}
	path = filepath.Clean(path)
	in := func(dir string) bool { return path == dir || strings.HasPrefix(path, dir+"/") }
	return !in(treeRoot) && !in(tempDir()) || in(filepath.Join(treeRoot, ".git"))
}

func tempDir() string { return treeRoot + ".tmp" }

func onExit(code int) {
	p := curWorld.cur()
	if p == nil {
		panic("exit of the simulation")
	}
	if !p.dead && !p.exited {
		p.exited = true
		p.code = code
		rt.WakeAll(unsafe.Pointer(p))
	}
	rt.Kill()
}

// client of a simulated process
func (w *World) client() *http.Client { return &http.Client{Transport: w.server} }

// begin makes a fresh process; unless same is given, nothing of earlier processes remains but files.
func (w *World) begin(st *Step) *Proc {
	p := &Proc{n: len(w.procs) + 1, step: st, served: len(w.served)}
	w.procs = append(w.procs, p)
	if !st.Same {
		rt.ResetGlobals()
		imports.LocalPrefix = ""
		vflag.Reset()
		vos.ResetTemp()
		if !st.SamePid {
			w.pid += 17
		}
		vos.Pid = w.pid
	}
	p.pid = vos.Pid
	vos.Stdout = vos.Std("stdout", &p.out)
	vos.Stderr = vos.Std("stderr", &p.errb)
	if err := os.MkdirAll(abs(st.Cwd), 0o755); err != nil {
		panic(err)
	}
	if err := os.Chdir(abs(st.Cwd)); err != nil {
		panic(err)
	}
	return p
}

// exec runs a command to its end or death.
func (w *World) exec(st *Step) *Proc {
	w.server.change(st.Remote)
	p := w.begin(st)
	args := w.args(st)
	rt.Note("p%d starts: %s", p.n, strings.Join(args, " "))
	vos.Args = append([]string{"gowrap"}, args...)
	for i := range vos.Args {
		vos.Args[i] = strings.ReplaceAll(vos.Args[i], "/T", treeRoot)
	}
	argv := vos.Args[1:]
	w.spawn(p, func() {
		if st.Via == "main" {
			gowrapcmd.VsimInit()
			gowrapcmd.VsimMain()
			p.exited = true
			return
		}
		p.err = w.api(argv)
		if p.err != nil {
			p.code = 1
		}
	})
	w.wait(p)
	rt.Note("p%d ends: dead=%v code=%d err=%v panic=%q out=%x %s", p.n, p.dead, p.code, errText(p.err), p.panicked, digest(norm(p.out.String())), norm(p.errb.String()))
	if p.panicked != "" {
		w.bad("panic", "gowrap %s panics: %s", strings.Join(args, " "), p.panicked)
	}
	for _, s := range w.served[p.served:] {
		if s.opened && !s.closed && !p.dead {
			w.bad("body-leak", "gowrap %s never closes the body of the response from %s", strings.Join(args, " "), s.url)
		}
	}
	os.Chdir("/")
	return p
}

// execAll runs gen commands as processes that overlap: they share nothing but the files.
func (w *World) execAll(steps []Step) []*Proc {
	var l []*Proc
	vos.PidOf = func() int {
		if p := w.cur(); p != nil {
			return p.pid
		}
		return vos.Pid
	}
	defer func() { vos.PidOf = nil }()
	for i := range steps {
		st := &steps[i]
		if i == 0 {
			l = append(l, w.begin(st))
			continue
		}
		p := &Proc{n: len(w.procs) + 1, step: st, served: len(w.served), pid: vos.Pid + 29*i}
		w.procs = append(w.procs, p)
		l = append(l, p)
	}
	for _, p := range l {
		args := w.args(p.step)
		rt.Note("p%d starts: %s", p.n, strings.Join(args, " "))
		w.spawn(p, func() {
			if d := p.step.Delay; d > 0 {
				rt.Sleep(d)
			}
			p.err = w.api(append([]string(nil), args...))
			if p.err != nil {
				p.code = 1
			}
		})
	}
	for _, p := range l {
		for !p.dead && !p.exited && !p.returned {
			rt.WaitOn(unsafe.Pointer(p), "waits for process")
		}
		rt.Note("p%d ends: dead=%v code=%d err=%v panic=%q", p.n, p.dead, p.code, errText(p.err), p.panicked)
		if p.panicked != "" {
			w.bad("panic", "gowrap %s panics: %s", strings.Join(w.args(p.step), " "), p.panicked)
		}
	}
	vos.CloseAll()
	os.Chdir("/")
	return l
}

// api runs a command the way a program using the package would.
func (w *World) api(argv []string) error {
	return w.apiWith(loader.New(w.client()), true, argv)
}

func (w *World) apiWith(ld loader.Loader, shared bool, argv []string) error {
	if !shared {
		ld = loader.New(w.client())
	}
	for i := range argv {
		argv[i] = strings.ReplaceAll(argv[i], "/T", treeRoot)
	}
	if len(argv) > 0 && argv[0] == "gen" {
		c := gowrap.NewGenerateCommand(ld)
		c.FlagSet().SetOutput(io.Discard)
		return c.Run(argv[1:], vos.Stdout)
	}
	if len(argv) > 0 && argv[0] == "template" {
		return gowrap.NewTemplateCommand(ld).Run(argv[1:], vos.Stdout)
	}
	return errors.New("no command")
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return norm(err.Error())
}

func (w *World) spawn(p *Proc, f func()) {
	rt.GoHarness(fmt.Sprintf("p%d", p.n), func() {
		rt.SetTag(p)
		defer func() {
			if rt.S == nil || !rt.Active() {
				return
			}
			if r := recover(); r != nil {
				p.panicked = fmt.Sprintf("%v\n%s", r, stack())
				p.code = 2
				p.errb.WriteString("panic: ")
			}
			p.returned = true
			rt.WakeAll(unsafe.Pointer(p))
		}()
		f()
	})
}

func stack() string {
	b := make([]byte, 1<<14)
	b = b[:runtime.Stack(b, false)]
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "/gsim/") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/vsim/") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			l, _, _ = strings.Cut(l, " ")
			r = append(r, l)
		}
	}
	if len(r) > 8 {
		r = r[:8]
	}
	return strings.Join(r, " < ")
}

func (w *World) wait(p *Proc) {
	for !p.dead && !p.exited && !p.returned {
		rt.WaitOn(unsafe.Pointer(p), "waits for process")
	}
	if p.panicked != "" {
		p.code = 2
	}
	vos.CloseAll()
}

// failed reports whether the process told its caller that it failed.
func (p *Proc) failed() bool { return p.code != 0 || p.err != nil || p.panicked != "" }

// say is what the process said about its failure.
func (p *Proc) say() string {
	if p.err != nil {
		return p.err.Error()
	}
	return p.errb.String()
}

func (p *Proc) faults() string {
	if len(p.fired) == 0 {
		return "without faults"
	}
	return "with " + strings.Join(p.fired, ", ")
}

func simulate(sc *Scenario, replay bool, choices []rt.Choice, keepLog bool) *World {
	w := &World{sc: sc, fired: map[string]int{}, pid: 4000, want: map[string]*Ref{}}
	pr := props[sc.Prop]
	if pr.prepare != nil {
		pr.prepare(w)
	}
	if err := resetTree(sc.Files); err != nil {
		fail(err)
	}
	os.RemoveAll(tempDir())
	os.MkdirAll(tempDir()+"/home", 0o755)
	for at, to := range sc.Links {
		os.Remove(abs(at))
		if err := os.Symlink(to, abs(at)); err != nil {
			fail(err)
		}
	}
	curWorld = w
	http.DefaultTransport = rtripper{}
	http.DefaultClient = &http.Client{}
	vos.Hook = w.hook
	vos.Outside = outside
	vos.Temp = tempDir()
	vos.Home = tempDir() + "/home"
	vos.OnExit = onExit
	vpackages.State = loadState
	vimports.State = importState
	w.server = newServer(w)
	cfg := rt.Config{Seed: sc.Seed, Strategy: sc.Strategy, Replay: replay, Choices: choices, KeepLog: keepLog, NoRace: sc.Prop != "G02", SyncTimers: true, MaxSteps: 400000}
	w.res = rt.Run(cfg, func() {
		for _, c := range strings.Split(sc.Remote, ";") {
			w.server.change(c)
		}
		pr.run(w)
	})
	vos.CloseAll()
	vos.Hook, vos.Outside = nil, nil
	os.Chdir("/")
	if w.res.Crash != nil {
		w.viol = append(w.viol, Violation{"panic", norm("goroutine " + w.res.Crash.G + ": " + w.res.Crash.Value + "\n" + w.res.Crash.Stack)})
	}
	if w.res.Exhausted && len(w.viol) == 0 {
		w.viol = append(w.viol, Violation{"stuck", "the command makes no progress: step limit reached"})
	}
	if pr.after != nil {
		pr.after(w)
	}
	return w
}

type rtripper struct{}

func (rtripper) RoundTrip(r *http.Request) (*http.Response, error) {
	return curWorld.server.RoundTrip(r)
}
