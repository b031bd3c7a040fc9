package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"unsafe"

	"github.com/Masterminds/sprig/v3"

	"github.com/hexdigest/gowrap/generator"
	"github.com/hexdigest/gowrap/loader"
	"github.com/hexdigest/gowrap/pkg"

	"vsim/rt"
)

type prop struct {
	gen     func(r *rand.Rand, k int) *Scenario
	prepare func(w *World)
	run     func(w *World)
	after   func(w *World)
}

var props map[string]*prop

func init() {
	props = map[string]*prop{
		"ref": {run: runReference},
		"G01": {gen: genG01, prepare: prepareAll, run: runG01},
		"G02": {gen: genG02, run: runG02, after: afterG02},
		"G03": {gen: genG03, prepare: prepareAll, run: runG03},
		"G04": {gen: genG04, prepare: prepareAll, run: runG04},
		"G05": {gen: genG05, prepare: prepareAll, run: runG05},
		"G06": {gen: genG06, run: runG06},
		"G07": {gen: genG07, prepare: prepareAll, run: runG07},
		"G08": {gen: genG08, prepare: prepareAll, run: runG08},
		"G09": {gen: genG09, prepare: prepareAll, run: runG09},
	}
}

// prepareAll finds out what every step does undisturbed.
func prepareAll(w *World) {
	for i := range w.sc.Steps {
		w.want[strconv.Itoa(i)] = reference(w.sc, &w.sc.Steps[i], i)
	}
}

func (w *World) ref(i int) *Ref {
	r := w.want[strconv.Itoa(i)]
	for i := range w.sc.Steps {
		if g := w.sc.Steps[i].Gen; g != nil {
			g.size = len(r.Content)
		}
	}
	return r
}

func line(st *Step) string {
	a := st.Args
	if st.Gen != nil {
		a = st.Gen.args()
	}
	return fmt.Sprintf("`gowrap %s` in /T/%s", strings.Join(a, " "), st.Cwd)
}

// diff shows where two texts differ.
func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "(end)", "(end)"
		if i < len(x) {
			p = strconv.Quote(x[i])
		}
		if i < len(y) {
			q = strconv.Quote(y[i])
		}
		if p != q {
			return fmt.Sprintf("line %d is %s instead of %s", i+1, p, q)
		}
	}
	return "equal"
}

// place spreads faults over the operations of an undisturbed run.
func place(r *rand.Rand, ref *Ref, n int, kill bool) []Fault {
	var l []Fault
	ops := len(ref.Ops)
	if ops == 0 {
		return nil
	}
	for i := 0; i < n; i++ {
		at := r.Intn(ops + 1)
		switch r.Intn(4) {
		case 0, 1:
			at = max(0, ops-1-r.Intn(min(ops, 9)))
		case 2:
			// an operation of a kind that is rare
			byKind := map[string][]int{}
			var kinds []string
			for j, o := range ref.Ops {
				if byKind[o.Kind] == nil {
					kinds = append(kinds, o.Kind)
				}
				byKind[o.Kind] = append(byKind[o.Kind], j)
			}
			k := byKind[kinds[r.Intn(len(kinds))]]
			at = k[r.Intn(len(k))]
		}
		l = append(l, Fault{At: at, Sel: r.Intn(3000), Kill: kill})
	}
	return l
}

func remoteStart(r *rand.Rand) string {
	return []string{"", "", "edit:full,other:x", "edit:log", "other:x;edit:fallback;edit:full;other:x"}[r.Intn(5)]
}

// ---- G01

func genG01(r *rand.Rand, k int) *Scenario {
	sc := &Scenario{Kind: "repeat", Strategy: strategy(r), Remote: remoteStart(r)}
	a := genCmd(r, k, r.Intn(6) == 0)
	b := genCmd(r, k+r.Intn(5), r.Intn(5) == 0)
	n := 2 + r.Intn(3)
	if r.Intn(2) == 0 {
		sc.Kind = "one process"
	}
	for i := 0; i < n; i++ {
		st := a
		if i%2 == 1 && r.Intn(2) == 0 {
			st = b
		}
		g := *st.Gen
		st.Gen = &g
		if sc.Kind == "one process" {
			st.Via = ""
			st.Same = i > 0
		} else if r.Intn(3) == 0 {
			st.Via = "main"
		}
		sc.Steps = append(sc.Steps, st)
	}
	return sc
}

// clear removes what a step left.
func (g *GenCmd) clear() {
	os.Remove(abs(g.File))
	os.Remove(abs("store/" + path.Base(g.File)))
	if kit[g.File] != "" {
		panic("output over a kit file")
	}
}

func runG01(w *World) {
	for i := range w.sc.Steps {
		st := &w.sc.Steps[i]
		ref := w.ref(i)
		st.Gen.setPrior()
		p := w.exec(st)
		w.antec++
		got, _ := get(st.Gen.File)
		st.Gen.clear()
		if p.failed() != ref.Failed {
			w.bad("outcome", "%s: once it %s, once it %s (%s%s), although nothing differs but orders of unordered collections", line(st), outcome(ref.Failed), outcome(p.failed()), errText(p.err), ref.Say)
			return
		}
		if !p.failed() && got != ref.Content {
			w.bad("bytes", "%s: the result depends on an order: %s", line(st), diff(got, ref.Content))
			return
		}
	}
}

func outcome(failed bool) string {
	if failed {
		return "fails"
	}
	return "succeeds"
}

// ---- G02

func genG02(r *rand.Rand, k int) *Scenario {
	sc := &Scenario{Kind: []string{"commands", "generators", "shared options", "mixed"}[k%4], Strategy: strategy(r)}
	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		st := genCmd(r, k+r.Intn(4), r.Intn(10) == 0)
		st.Cwd, st.Via = "", ""
		g := st.Gen
		if strings.HasPrefix(g.Src, "std:") {
			g.Pkg = strings.TrimPrefix(g.Src, "std:")
		} else if g.Pkg = modPath + "/" + g.Src; r.Intn(2) == 0 {
			g.Pkg = "./" + g.Src
		}
		g.Pname = fmt.Sprintf("t%d", i)
		g.File = g.Pname + "/gen.go"
		g.Out = g.File
		g.Prior = ""
		g.setTpl(r, "", false)
		if g.Local == "" && r.Intn(2) == 0 {
			g.Local = []string{modPath, "example.com/shop/other"}[r.Intn(2)]
		}
		st.Delay = int64(r.Intn(3)) * 1e6
		if i > 0 && r.Intn(2) == 0 {
			// the same interface and template as before, other settings
			o := sc.Steps[i-1].Gen
			g.Src, g.Pkg, g.Iface = o.Src, o.Pkg, o.Iface
			if r.Intn(2) == 0 {
				g.Tpl, g.Body, g.Hosted = o.Tpl, o.Body, o.Hosted
			}
		}
		sc.Steps = append(sc.Steps, st)
	}
	return sc
}

type job struct {
	st   *Step
	run  func() (string, error)
	solo string
	err  error
	got  string
	gerr error
	done bool
}

func snapshot(o generator.Options) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%q|%s|%s|%s|%s|%s|%s|", o.InterfaceName, o.Imports[:cap(o.Imports)], o.SourcePackage, o.SourcePackageAlias, o.OutputFile, o.HeaderTemplate, o.BodyTemplate, o.LocalPrefix)
	j, _ := json.Marshal([]any{o.Vars, o.HeaderVars})
	b.Write(j)
	var fn []string
	for k := range o.Funcs {
		fn = append(fn, k)
	}
	sort.Strings(fn)
	fmt.Fprintf(&b, "%q", fn)
	if p := o.SourcePackageInstance; p != nil {
		j, _ := json.Marshal(p)
		b.Write(j)
		var l []string
		for k, i := range p.Imports {
			l = append(l, k+"="+i.PkgPath+"/"+i.Name)
		}
		sort.Strings(l)
		fmt.Fprintf(&b, "%q", l)
	}
	return b.String()
}

const shortHeader = "// Code generated by gowrap. DO NOT EDIT.\n// template: {{.Options.HeaderVars.Template}}\n\npackage {{.Package.Name}}\n\nimport(\n{{range $import := .Options.Imports}}{{$import}}\n\t{{end}}\n)\n"

func runG02(w *World) {
	sc := w.sc
	p := w.begin(&Step{})
	ld := loader.New(w.client())
	var jobs []*job
	funcs := template.FuncMap(sprig.TxtFuncMap())
	shared := generator.Options{Vars: map[string]any{"extra": "shared", "k": "v"}, HeaderVars: map[string]any{"Template": "x", "DisableGoGenerate": true}, Funcs: funcs, HeaderTemplate: shortHeader}
	shared.Imports = append(make([]string, 0, 8), `"fmt"`, `othr "example.com/shop/other"`)
	var opts []generator.Options
	for i := range sc.Steps {
		st := &sc.Steps[i]
		g := st.Gen
		j := &job{st: st}
		kind := sc.Kind
		if kind == "mixed" {
			kind = []string{"commands", "generators", "shared options"}[i%3]
		}
		switch kind {
		case "commands":
			j.run = func() (string, error) {
				os.Remove(abs(g.File))
				err := w.apiWith(ld, i%2 == 0, g.args())
				s, _ := get(g.File)
				return s, err
			}
		default:
			o := shared
			if kind == "generators" {
				o.Vars = map[string]any{"extra": fmt.Sprint("own", i)}
				o.Imports = []string{`"fmt"`}
				o.HeaderVars = map[string]any{"Template": g.Body}
			}
			o.InterfaceName, o.SourcePackage, o.OutputFile, o.LocalPrefix = g.Iface, strings.ReplaceAll(g.Pkg, "/T", treeRoot), abs(g.File), g.Local
			o.BodyTemplate = kit["tpl/"+g.Body+".tpl"]
			if o.BodyTemplate == "" {
				o.BodyTemplate = hosted[g.Hosted]
			}
			if kind == "generators" {
				// functions of its own
				o.Funcs = template.FuncMap{"stamp": func() string { return fmt.Sprint("own", i) }}
				for k, v := range funcs {
					o.Funcs[k] = v
				}
				o.BodyTemplate += "\n// {{stamp}}\n"
			}
			if kind == "shared options" && i%2 == 0 {
				// one loaded package for all that use it
				for _, q := range opts {
					if q.SourcePackage == o.SourcePackage && q.SourcePackageInstance != nil {
						o.SourcePackageInstance = q.SourcePackageInstance
					}
				}
				if o.SourcePackageInstance == nil {
					rt.AsCode(p, func() {
						os.Chdir(treeRoot)
						if sp, err := pkg.Load(o.SourcePackage); err == nil {
							o.SourcePackageInstance = sp
							o.SourcePackage = sp.PkgPath
						}
					})
				}
			}
			opts = append(opts, o)
			j.run = func() (string, error) {
				gen, err := generator.NewGenerator(o)
				if err != nil {
					return "", err
				}
				var b bytes.Buffer
				err = gen.Generate(&b)
				return b.String(), err
			}
		}
		jobs = append(jobs, j)
	}
	var before []string
	for _, o := range opts {
		before = append(before, snapshot(o))
	}
	// alone
	for i, j := range jobs {
		w.task(p, i, func() { j.solo, j.err = j.run() }, func() { j.done = true })
		w.join(jobs[i : i+1])
		j.done = false
		os.RemoveAll(abs(j.st.Gen.Pname))
	}
	// together
	w.overlap = true
	for i, j := range jobs {
		w.task(p, 100+i, func() {
			if j.st.Delay > 0 {
				rt.Sleep(j.st.Delay)
			}
			j.got, j.gerr = j.run()
		}, func() { j.done = true })
	}
	w.join(jobs)
	w.antec++
	for _, j := range jobs {
		if (j.err != nil) != (j.gerr != nil) {
			w.bad("outcome", "%s: alone it %s, next to others it %s (%s%s)", line(j.st), outcome(j.err != nil), outcome(j.gerr != nil), errText(j.err), errText(j.gerr))
		} else if j.err == nil && j.got != j.solo {
			w.bad("bytes", "%s: the result differs when others run at the same time: %s", line(j.st), diff(j.got, j.solo))
		}
	}
	for i, o := range opts {
		if s := snapshot(o); s != before[i] {
			w.bad("input", "the options given to a generator were modified: %s", diff(strings.ReplaceAll(s, "|", "\n"), strings.ReplaceAll(before[i], "|", "\n")))
		}
	}
	os.Chdir("/")
}

func (w *World) task(p *Proc, n int, f, done func()) {
	rt.GoHarness(fmt.Sprintf("task%d", n), func() {
		rt.SetTag(&Task{p, n})
		defer func() {
			if rt.S == nil || !rt.Active() {
				return
			}
			if r := recover(); r != nil {
				w.bad("panic", "task %d: %v %s", n, r, stack())
			}
			done()
			rt.WakeAll(unsafe.Pointer(w))
		}()
		f()
	})
}

func (w *World) join(jobs []*job) {
	for {
		all := true
		for _, j := range jobs {
			all = all && j.done
		}
		if all {
			return
		}
		rt.WaitOn(unsafe.Pointer(w), "waits for tasks")
	}
}

func afterG02(w *World) {
	for _, r := range w.res.Races {
		a, b := siteNames[r.SiteA], siteNames[r.SiteB]
		w.viol = append(w.viol, Violation{"race", fmt.Sprintf("data race (%s) between %s and %s", r.Kind, a, b)})
	}
}

// ---- G03

func genG03(r *rand.Rand, k int) *Scenario {
	st := genCmd(r, k, r.Intn(3) == 0)
	sc := &Scenario{Kind: "generate", Strategy: strategy(r), Remote: remoteStart(r), Steps: []Step{st}}
	s := &sc.Steps[0]
	switch r.Intn(12) {
	case 0:
		sc.Kind = "bad arguments"
		g := s.Gen
		a := g.args()
		switch r.Intn(5) {
		case 0:
			a = drop(a, "-i")
		case 1:
			a = drop(a, "-t")
		case 2:
			a = append(a, "-nosuch")
		case 3:
			a = append(a[:1:1], append([]string{"-l"}, a[1:]...)...)
			a = a[:len(a)-1]
		case 4:
			a = drop(a, "-o")
		}
		s.Args = a
		s.Dst = g.File
		s.Must = -1
		sc.Files = map[string]string{}
		if c, ok := g.prior(); ok {
			sc.Files[g.File] = c
		}
		s.Gen = nil
		if r.Intn(5) == 3 { // may be a command that works
			s.Must = 0
		}
		s.Must = 0
		return sc
	case 1:
		sc.Kind = "impossible output"
		s.Gen.Out = []string{"/T/svc/svc.go/gen.go", "/T/svc", "/T/tpl/full.tpl/x/gen.go"}[r.Intn(3)]
		s.Gen.File = strings.TrimPrefix(s.Gen.Out, "/T/")
		s.Gen.Prior = "keep"
		s.Must = -1
	case 2:
		if strings.HasPrefix(s.Gen.Src, "std:") {
			// outside of all modules: the package of the output is called like its directory
			sc.Kind = "no module"
			sc.Files = map[string]string{"go.mod": "@gone"}
			s.Gen.Pname = []string{"newdir", "sub"}[r.Intn(2)]
			s.Gen.File = map[string]string{"newdir": "newdir/gen.go", "sub": "newdir/sub/gen.go"}[s.Gen.Pname]
			s.Gen.Out = []string{"/T/" + s.Gen.File, relTo(s.Cwd, s.Gen.File)}[r.Intn(2)]
		}
	}
	if r.Intn(5) > 0 {
		s.Faults = place(r, reference(sc, s, 0), 1+r.Intn(2), false)
	}
	return sc
}

// drop removes a flag and its value.
func drop(a []string, flag string) []string {
	var r []string
	for i := 0; i < len(a); i++ {
		if a[i] == flag {
			i++
			continue
		}
		r = append(r, a[i])
	}
	return r
}

func runG03(w *World) {
	st := &w.sc.Steps[0]
	ref := w.ref(0)
	f := st.file()
	if st.Gen != nil && st.Gen.Prior != "keep" {
		st.Gen.setPrior()
	}
	prior, had := get(f)
	tree := listing()
	p := w.exec(st)
	got, has := get(f)
	must := st.Must
	if st.Gen != nil && must == 0 {
		must = st.Gen.must()
	}
	if len(p.fired) > 0 || must < 0 || ref.Failed {
		w.antec++
	}
	if p.failed() {
		if has != had || got != prior {
			w.bad("output-touched", "%s fails (%s) %s, but the output file %s", line(st), errText(fmt.Errorf("%s", p.say())), p.faults(), changed(had, has, prior, got))
		}
		if must > 0 && len(p.fired) == 0 {
			w.bad("refused", "%s fails: %s", line(st), p.say())
		}
		if strings.TrimSpace(p.say()) == "" && st.Via != "main" {
			w.bad("no-error", "%s fails without saying why", line(st))
		}
		return
	}
	if st.Gen == nil && must == 0 {
		// arguments that only happen to be complete
		if has && got != ref.Content {
			w.bad("incomplete", "%s reports success %s, but the output file differs from what it should be: %s", line(st), p.faults(), diff(got, ref.Content))
		}
		return
	}
	switch {
	case must < 0:
		w.bad("unreported", "%s reports success, although it cannot be done", line(st))
	case ref.Failed:
		w.bad("unreported", "%s reports success %s, although it fails otherwise: %s", line(st), p.faults(), ref.Say)
	case !has:
		w.bad("incomplete", "%s reports success %s, but there is no output file", line(st), p.faults())
	case got != ref.Content:
		w.bad("incomplete", "%s reports success %s, but the output file is not what it should be: %s", line(st), p.faults(), diff(got, ref.Content))
	default:
		if err := st.Gen.check(got); err != nil && ref.Panicked == "" {
			w.bad("incomplete", "%s reports success, but %v", line(st), err)
		}
	}
	// nothing else may have been touched
	for n, h := range listing() {
		if n == f || strings.HasPrefix(n, "store/") {
			continue
		}
		if old, ok := tree[n]; ok && old != h {
			w.bad("other-file", "%s changes %s", line(st), n)
		}
	}
}

func changed(had, has bool, prior, got string) string {
	switch {
	case !had && has:
		return "has come into being"
	case had && !has:
		return "is gone"
	}
	return "has changed: " + diff(got, prior)
}

// listing of the tree's files.
func listing() map[string]uint64 {
	m := map[string]uint64{}
	var walk func(rel string)
	walk = func(rel string) {
		l, _ := os.ReadDir(abs(rel))
		for _, e := range l {
			n := path.Join(rel, e.Name())
			if n == ".git" {
				continue
			}
			if e.IsDir() {
				walk(n)
				continue
			}
			c, _ := get(n)
			m[n] = digest(c)
		}
	}
	walk("")
	return m
}

// ---- G04

func genG04(r *rand.Rand, k int) *Scenario {
	st := genCmd(r, k, r.Intn(12) == 0)
	sc := &Scenario{Kind: "killed", Strategy: strategy(r), Remote: remoteStart(r), Steps: []Step{st}}
	ref := reference(sc, &sc.Steps[0], 0)
	n := 1 + r.Intn(3)
	sc.Steps = nil
	if r.Intn(3) == 0 {
		sc.Kind = "overlapping"
		if r.Intn(4) > 0 {
			sc.Strategy = rt.Strategy{Kind: "random", SwitchP: 0.2 + 0.2*float64(r.Intn(3)), MemP: 0.1}
		}
		st.Via = ""
		for i := 0; i < 2+r.Intn(2); i++ {
			s := st
			s.Delay = int64(r.Intn(3)/2) * 1e6
			if r.Intn(3) == 0 {
				s.Faults = place(r, ref, 1, true)
			}
			sc.Steps = append(sc.Steps, s)
		}
		return sc
	}
	for i := 0; i < n; i++ {
		s := st
		s.Faults = place(r, ref, 1, true)
		s.SamePid = r.Intn(2) == 0
		sc.Steps = append(sc.Steps, s)
	}
	st.SamePid = r.Intn(2) == 0
	sc.Steps = append(sc.Steps, st)
	return sc
}

func runG04(w *World) {
	sc := w.sc
	ref := w.ref(len(sc.Steps) - 1)
	g := sc.Steps[0].Gen
	g.setPrior()
	prior, had := get(g.File)
	ok := func(when string) bool {
		got, has := get(g.File)
		if has == had && got == prior || has && !ref.Failed && got == ref.Content {
			return true
		}
		if !has {
			w.bad("torn", "%s: %s the output file is gone", line(&sc.Steps[0]), when)
			return false
		}
		w.bad("torn", "%s: %s the output file holds neither its earlier nor the complete new content, but %d bytes: compared to the new content, %s", line(&sc.Steps[0]), when, len(got), diff(got, ref.Content))
		return false
	}
	if sc.Kind == "overlapping" {
		torn := false
		w.each = func() { torn = torn || !ok("while runs overlap,") }
		procs := w.execAll(sc.Steps)
		w.each = nil
		w.antec++
		done := false
		for _, p := range procs {
			done = done || !p.dead && !p.failed()
		}
		if torn || !ok("after overlapping runs") {
			return
		}
		if got, _ := get(g.File); done && !ref.Failed && got != ref.Content {
			w.bad("torn", "%s reports success next to other runs of the same command, but the output file does not hold the new content", line(&sc.Steps[0]))
		}
		return
	}
	for i := range sc.Steps {
		st := &sc.Steps[i]
		p := w.exec(st)
		when := "after it ends"
		if p.dead {
			w.antec++
			when = "killed (" + strings.Join(p.fired, ", ") + ")"
		}
		if !ok(when) {
			return
		}
		if p.dead || len(st.Faults) > 0 && i < len(sc.Steps)-1 {
			continue
		}
		if ref.Failed {
			continue
		}
		if p.failed() {
			w.bad("no-rerun", "%s fails after having been killed %d times: %s", line(st), i, p.say())
			return
		}
		if got, _ := get(g.File); got != ref.Content {
			w.bad("rerun-differs", "%s, run again after having been killed, gives another result: %s", line(st), diff(got, ref.Content))
			return
		}
	}
}

// ---- G05

func genG05(r *rand.Rand, k int) *Scenario {
	st := genCmd(r, k, false)
	st.Gen.NoGen = false
	sc := &Scenario{Kind: "regenerate", Strategy: strategy(r), Remote: remoteStart(r)}
	if st.Gen.Hosted == "" && r.Intn(3) == 0 {
		st.Gen.Hosted = hostedNames[r.Intn(len(hostedNames))]
		st.Gen.Tpl, st.Gen.Body = st.Gen.Hosted, path.Base(st.Gen.Hosted)
	}
	sc.Steps = []Step{st}
	sc.Case = []string{"", "edited file", "twice"}[r.Intn(3)]
	again := Step{Via: "main", Cwd: path.Dir(st.Gen.File), Args: []string{"recorded"}}
	if h := st.Gen.Hosted; h != "" {
		sc.Kind = "hosted"
		again.Remote = []string{"", "edit:" + h, "remove:" + h, "edit:" + h + ",other:x,edit:" + h, "remove:" + h + ",add:" + h, "other:x"}[r.Intn(6)]
	}
	sc.Steps = append(sc.Steps, again)
	return sc
}

// goGenerate splits a go:generate line as the go command does.
func goGenerate(l, file, pkgName string) ([]string, error) {
	l = strings.TrimSpace(strings.TrimPrefix(l, "//go:generate "))
	var words []string
	for l = strings.TrimLeft(l, " \t"); l != ""; l = strings.TrimLeft(l, " \t") {
		if l[0] == '"' {
			i := 1
			for i < len(l) && l[i] != '"' {
				if l[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(l) {
				return nil, fmt.Errorf("mismatched quoted string")
			}
			w, err := strconv.Unquote(l[:i+1])
			if err != nil {
				return nil, err
			}
			words = append(words, w)
			l = l[i+1:]
			if l != "" && l[0] != ' ' && l[0] != '\t' {
				return nil, fmt.Errorf("expect space after quoted argument")
			}
			continue
		}
		i := strings.IndexAny(l, " \t")
		if i < 0 {
			i = len(l)
		}
		words = append(words, l[:i])
		l = l[i:]
	}
	for i := range words {
		words[i] = os.Expand(words[i], func(k string) string {
			switch k {
			case "GOFILE":
				return file
			case "GOPACKAGE":
				return pkgName
			case "DOLLAR":
				return "$"
			}
			return ""
		})
	}
	return words, nil
}

func runG05(w *World) {
	st := &w.sc.Steps[0]
	g := st.Gen
	ref := w.ref(0)
	g.setPrior()
	p := w.exec(st)
	first, has := get(g.File)
	if p.failed() {
		if g.must() > 0 {
			w.bad("refused", "%s fails: %s", line(st), p.say())
		}
		return
	}
	if !has {
		w.bad("incomplete", "%s reports success, but there is no output file", line(st))
		return
	}
	_ = ref
	rounds := 1
	if w.sc.Case == "twice" {
		rounds = 2
	}
	if len(w.sc.Steps) < 2 {
		return
	}
	if !strings.HasPrefix(w.sc.Steps[1].Cwd, path.Dir(g.File)) {
		return
	}
	for n := 0; n < rounds; n++ {
		var cmd string
		for _, l := range strings.Split(first, "\n") {
			if strings.HasPrefix(l, "//go:generate ") {
				cmd = l
				break
			}
		}
		if cmd == "" {
			w.bad("not-recorded", "%s records no go:generate command", line(st))
			return
		}
		words, err := goGenerate(cmd, path.Base(g.File), g.Pname)
		if err != nil || len(words) < 2 || words[0] != "gowrap" {
			w.bad("not-recorded", "%s records %s, which go generate does not run (%v)", line(st), cmd, err)
			return
		}
		again := w.sc.Steps[1]
		again.Args = words[1:]
		if n > 0 {
			again.Remote = ""
		}
		for _, a := range words {
			if strings.HasPrefix(norm(a), "/T") || strings.Contains(norm(a), "=/T") || strings.HasPrefix(norm(a), "file:///T") {
				w.bad("absolute", "%s records %s, which depends on where the project lies", line(st), cmd)
				return
			}
		}
		if w.sc.Case == "edited file" {
			// what is generated can be replaced by anything that still is Go
			os.WriteFile(abs(g.File), []byte("package "+g.Pname+"\n\n"+cmd+"\n"), 0o644)
		}
		w.antec++
		q := w.exec(&again)
		got, has := get(g.File)
		if q.failed() {
			w.bad("regenerate-fails", "the recorded command of %s, %s, fails in the file's directory: %s", line(st), cmd, q.say())
			return
		}
		if !has || got != first {
			w.bad("regenerate-differs", "the recorded command of %s, %s, run in the file's directory %s, gives another file: %s", line(st), cmd, w.sc.Steps[1].Remote, diff(got, first))
			return
		}
	}
}

// ---- G06

func genG06(r *rand.Rand, k int) *Scenario {
	sc := &Scenario{Kind: []string{"one", "several", "shared", "changing"}[k%4], Strategy: strategy(r), Remote: remoteStart(r)}
	n := 1
	if sc.Kind != "one" {
		n = 2 + r.Intn(3)
	}
	us := []string{"https://tpl.example/t/full.tpl", "https://tpl.example/t/tiny.tpl", "http://plain.example:8080/full?rev=3&x=y", "https://raw.githubusercontent.com/someone/else/main/full", "https://tpl.example/nothing", "https://user@tpl.example/a%20b/full.tpl#frag"}
	for i := 0; i < n; i++ {
		st := Step{Args: []string{"load", append(hostedNames, "v2/log", "huge")[r.Intn(len(hostedNames)+2)]}, Delay: int64(r.Intn(4)) * 20e6}
		switch r.Intn(8) {
		case 0, 1:
			st.Args = []string{"list"}
		case 2:
			st.Args[1] = us[r.Intn(len(us))]
		case 3:
			st.Args[1] = []string{"nosuch", "v2", "v2/nosuch", "full/x", "../README.md", "Full"}[r.Intn(6)]
		}
		sc.Steps = append(sc.Steps, st)
	}
	if sc.Kind == "changing" {
		for i := 1 + r.Intn(4); i > 0; i-- {
			h := hostedNames[r.Intn(len(hostedNames))]
			if a := sc.Steps[0].Args; len(a) > 1 && r.Intn(2) == 0 {
				h = a[1]
			}
			sc.Steps = append(sc.Steps, Step{Args: []string{"remote", []string{"edit:", "edit:", "remove:", "add:"}[r.Intn(4)] + h}, Delay: int64(r.Intn(40)) * 10e6})
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		at := r.Intn(6)
		if r.Intn(3) == 0 {
			at = r.Intn(12 * n)
		}
		sc.Steps[0].Faults = append(sc.Steps[0].Faults, Fault{At: at, Sel: r.Intn(3000)})
	}
	return sc
}

func runG06(w *World) {
	sc := w.sc
	p := w.begin(&sc.Steps[0])
	os.Chdir(treeRoot)
	shared := loader.New(w.client())
	var jobs []*job
	for i := range sc.Steps {
		st := &sc.Steps[i]
		j := &job{st: st}
		jobs = append(jobs, j)
		if st.Args[0] == "remote" {
			rt.GoHarness("remote", func() {
				rt.Sleep(st.Delay)
				w.server.change(st.Args[1])
				j.done = true
				rt.WakeAll(unsafe.Pointer(w))
			})
			continue
		}
		var names []string
		var from int64
		var task *Task
		task0 := func() {
			task = rt.Tag().(*Task)
			if st.Delay > 0 {
				rt.Sleep(st.Delay)
			}
			from = rt.Seq()
			ld := shared
			if sc.Kind != "shared" {
				ld = loader.New(w.client())
				if i%2 == 1 {
					ld = loader.New(nil)
				}
			}
			if st.Args[0] == "list" {
				names, j.gerr = ld.List()
				return
			}
			var b []byte
			b, j.solo, j.gerr = ld.Load(st.Args[1])
			j.got = string(b)
		}
		w.task(p, i, task0, func() {
			j.done = true
			rt.Note("task %d: %s -> %v %q %x %q", i, strings.Join(st.Args, " "), errText(j.gerr), j.solo, digest(j.got), names)
			w.judge06(st, j, names, task, from)
		})
	}
	w.join(jobs)
	for _, s := range w.served {
		if !s.closed {
			w.bad("body-leak", "the body of the response from %s is never closed", s.url)
		}
	}
}

// judge06 compares the result of a load to what the server sent to it.
func (w *World) judge06(st *Step, j *job, names []string, task *Task, from int64) {
	w.antec++
	var mine []*Served
	for _, s := range w.served {
		if s.task == any(task) {
			mine = append(mine, s)
		}
	}
	faulty := false
	for _, s := range mine {
		if !s.whole && s.status != 302 {
			faulty = true
		}
		if s.fail {
			faulty = true
		}
	}
	fired := len(w.procs[0].fired) > 0
	changing := false
	for _, s := range w.sc.Steps {
		changing = changing || s.Args[0] == "remote"
	}
	what := strings.Join(st.Args, " ")
	if j.gerr != nil {
		if fired || faulty {
			return
		}
		if st.Args[0] == "list" {
			w.bad("refused", "listing fails although the server answered properly: %v", j.gerr)
			return
		}
		if !changing {
			_, inHead := w.server.head()[st.Args[1]]
			_, inURL := w.server.urls[st.Args[1]]
			if inHead || inURL {
				w.bad("refused", "%s fails although the server answered properly: %v", what, j.gerr)
			}
		}
		return
	}
	// success: some complete answer of this very call must say just this
	if st.Args[0] == "list" {
		for _, s := range mine {
			if !s.whole || !s.isJSON {
				continue
			}
			var t struct{ Tree []struct{ Path string } }
			if json.Unmarshal([]byte(s.body), &t) != nil {
				continue
			}
			var l []string
			for _, e := range t.Tree {
				if strings.HasPrefix(e.Path, "templates/") {
					l = append(l, strings.TrimPrefix(e.Path, "templates/"))
				}
			}
			if strings.Join(l, "\n") == strings.Join(names, "\n") {
				return
			}
		}
		w.bad("list", "listing yields %q, which is not what any complete answer of the server says", names)
		return
	}
	if strings.HasPrefix(st.Args[1], "http") {
		for _, s := range mine {
			if s.status == 200 && !s.fail && s.body == j.got {
				if j.solo != st.Args[1] {
					w.bad("url", "loading %s reports the URL %s", st.Args[1], j.solo)
				}
				return
			}
		}
		w.bad("content", "loading %s yields %d bytes that no complete answer of the server consisted of", st.Args[1], len(j.got))
		return
	}
	sha, where := "", ""
	for _, s := range mine {
		if s.isJSON && s.status == 200 && !s.fail {
			var c []struct{ SHA string }
			if json.Unmarshal([]byte(s.body), &c) == nil && len(c) > 0 {
				sha = c[0].SHA
			}
		}
		if !s.isJSON && s.status == 200 && !s.fail && s.body == j.got {
			where = s.url
		}
	}
	if where == "" {
		w.bad("content", "loading %s yields %d bytes that no complete answer of the server consisted of", st.Args[1], len(j.got))
		return
	}
	if sha == "" {
		w.bad("revision", "loading %s succeeds although the server never told a revision", st.Args[1])
		return
	}
	for _, c := range w.server.commits {
		if c.sha == sha && c.files[st.Args[1]] == j.got {
			want := "https://raw.githubusercontent.com/hexdigest/gowrap/" + sha + "/templates/" + st.Args[1]
			if j.solo != want {
				w.bad("url", "loading %s yields revision %s but reports %s", st.Args[1], sha[:7], j.solo)
			}
			return
		}
	}
	w.bad("revision", "loading %s yields %d bytes that are not those of revision %s, which the server had reported", st.Args[1], len(j.got), sha[:7])
}

// ---- G07

const localBody = "type {{.Interface.Name}}Local%s struct{ n [{{len .Interface.Methods}}]int }\n"

// a local template takes several reads, and is a valid one wherever it is cut at a line
var localTail = strings.Repeat("// of a local template that is longer than what is read at once\n", 40)

func genG07(r *rand.Rand, k int) *Scenario {
	st := genCmd(r, 4, false)
	g := st.Gen
	g.Iface, g.Src, g.Pkg = "Quiet", "svc", modPath+"/svc"
	if r.Intn(2) == 0 {
		g.Iface, g.Src, g.Pkg = "ByteScanner", "std:io", "io"
	}
	st.Cwd = []string{"", "svc", "tpl", "nested", "other"}[r.Intn(5)]
	g.File = "newdir/gen.go"
	g.Pname = "newdir"
	g.Out = "/T/" + g.File
	g.Vars = nil
	sc := &Scenario{Strategy: strategy(r), Files: map[string]string{}, Links: map[string]string{}, Remote: remoteStart(r)}
	h := []string{"log", "full", "fallback", "tiny2", "v2/tiny"}[r.Intn(5)]
	if h == "log" && st.Cwd == "nested" {
		h = "fallback"
	}
	kinds := []string{"shadows hosted", "shadowing fails", "is a directory", "hosted only", "file in cwd", "file in git root", "file nowhere", "file fails", "link", "parent", "absolute missing", "file hosted name", "git fails", "shadowing fails", "file fails", "shadows hosted"}
	sc.Kind = kinds[k%len(kinds)]
	in := func(p, mark string) { sc.Files[p] = fmt.Sprintf(localBody, mark) + localTail }
	g.Hosted = ""
	g.Body = ""
	switch sc.Kind {
	case "shadows hosted", "shadowing fails":
		g.Tpl, g.Body = h, "A"
		in(path.Join(st.Cwd, h), "A")
	case "is a directory":
		g.Tpl, g.Body = h, "missing"
		in(path.Join(st.Cwd, h, "x"), "A")
	case "hosted only":
		h = []string{"full", "fallback", "v2/tiny"}[r.Intn(3)]
		g.Tpl, g.Hosted, g.Body = h, h, path.Base(h)
	case "file in cwd", "file fails", "file hosted name":
		n := "q/" + h
		if sc.Kind == "file hosted name" {
			n = h
		}
		g.Tpl, g.Body = "file://"+n, "A"
		in(path.Join(st.Cwd, n), "A")
		if st.Cwd != "" {
			in(n, "B")
		}
	case "file in git root", "git fails":
		g.Tpl, g.Body = "file://root/"+h, "B"
		in("root/"+h, "B")
	case "file nowhere":
		g.Tpl, g.Body = "file://"+h, "missing"
	case "link":
		g.Tpl, g.Body = h, "A"
		in("real/file", "A")
		sc.Files[path.Join(st.Cwd, h)+".txt"] = "x" // makes the directory
		to := relTo(path.Dir(path.Join(st.Cwd, h)), "real/file")
		sc.Links[path.Join(st.Cwd, h)] = to
	case "parent":
		g.Tpl, g.Body = relTo(st.Cwd, "up/"+h), "A"
		in("up/"+h, "A")
		if r.Intn(2) == 0 {
			g.Tpl = "./" + g.Tpl
		}
	case "absolute missing":
		g.Tpl, g.Body = "/T/none/"+h, "missing"
	}
	sc.Steps = []Step{st}
	if len(sc.Links) == 0 {
		sc.Links = nil
	}
	if strings.HasSuffix(sc.Kind, "fails") {
		ref := reference(sc, &sc.Steps[0], 0)
		// where the template is found and read
		at := -1
		for i, o := range ref.Ops {
			if strings.Contains(o.Path, h) || o.Kind == "exec" {
				if at < 0 || r.Intn(2) == 0 {
					at = i
				}
			}
		}
		if at >= 0 {
			sc.Steps[0].Faults = []Fault{{At: at, Sel: r.Intn(3000)}}
		}
		if r.Intn(4) == 0 {
			sc.Steps[0].Faults = append(sc.Steps[0].Faults, place(r, ref, 1, false)...)
		}
	}
	return sc
}

func runG07(w *World) {
	st := &w.sc.Steps[0]
	g := st.Gen
	ref := w.ref(0)
	g.setPrior()
	p := w.exec(st)
	w.antec++
	net := 0
	for _, o := range p.recs {
		if o.Kind == "net" {
			net++
		}
	}
	local := w.sc.Kind != "hosted only" && w.sc.Kind != "absolute missing"
	if local && net > 0 {
		w.bad("network", "%s uses the network (%s) %s", line(st), w.sc.Kind, p.faults())
	}
	got, _ := get(g.File)
	if p.failed() {
		if len(p.fired) == 0 && (g.Body == "A" || g.Body == "B" || g.Hosted != "") {
			w.bad("refused", "%s fails (%s): %s", line(st), w.sc.Kind, p.say())
		}
		return
	}
	if g.Body == "missing" {
		w.bad("papered-over", "%s succeeds (%s)", line(st), w.sc.Kind)
		return
	}
	if g.Body == "A" || g.Body == "B" {
		if !strings.Contains(got, "type "+g.Iface+"Local"+g.Body+" struct") {
			w.bad("template", "%s does not use the local template (%s) %s: %s", line(st), w.sc.Kind, p.faults(), got)
			return
		}
	}
	if g.Hosted != "" && net == 0 {
		w.bad("template", "%s does not use the hosted template", line(st))
	}
	if got != ref.Content {
		w.bad("papered-over", "%s succeeds %s, but with another result: %s", line(st), p.faults(), diff(got, ref.Content))
	}
}

// ---- G08

func genG08(r *rand.Rand, k int) *Scenario {
	kinds := []string{"copy", "copy killed", "list", "copy", "copy fails", "list fails", "copy fails", "copy killed"}
	sc := &Scenario{Kind: kinds[k%len(kinds)], Strategy: strategy(r), Files: map[string]string{}, Links: map[string]string{}, Remote: remoteStart(r)}
	st := Step{Cwd: []string{"", "svc", "newd"}[r.Intn(3)]}
	if r.Intn(3) == 0 {
		st.Via = "main"
	}
	if st.Cwd == "newd" {
		sc.Files["newd/x"] = "x"
	}
	if strings.HasPrefix(sc.Kind, "list") {
		st.Args = []string{"template", "list"}
	} else {
		ref := append(hostedNames, "v2/log", "huge")[r.Intn(len(hostedNames)+2)]
		switch r.Intn(6) {
		case 0:
			ref = "https://tpl.example/t/full.tpl"
		case 1:
			ref = []string{"file:///T/tpl/big.tpl", "file://tpl/full.tpl"}[r.Intn(2)]
		case 2:
			if r.Intn(3) == 0 {
				ref = []string{"nosuch", "https://tpl.example/nothing", "file://nothing"}[r.Intn(3)]
				st.Must = -1
			}
		}
		dst := path.Join(st.Cwd, []string{"mine.tpl", "fallback", "a.b.c"}[r.Intn(3)])
		arg := relTo(st.Cwd, dst)
		switch r.Intn(5) {
		case 0:
			arg = "/T/" + dst
		case 1:
			arg = "./" + arg
		}
		switch r.Intn(9) {
		case 0, 1:
			sc.Files[dst] = "my own template\n"
		case 2:
			sc.Files[dst] = "@same"
		case 3:
			sc.Files[dst] = strings.Repeat("my own long template\n", 3000)
		case 4:
			sc.Files["real/tpl"] = "behind a link\n"
			sc.Links[dst] = relTo(path.Dir(dst), "real/tpl")
		case 5:
			if sc.Kind == "copy" {
				dst = path.Join(st.Cwd, "nodir/x")
				arg = relTo(st.Cwd, dst)
				st.Must = -1
			}
		case 6:
			if sc.Kind == "copy" {
				dst = path.Join(st.Cwd, "dir")
				sc.Files[dst+"/y"] = "y"
				arg = relTo(st.Cwd, dst)
				st.Must = -1
			}
		}
		st.Dst = dst
		st.Args = []string{"template", "copy", ref, arg}
	}
	if len(sc.Links) == 0 {
		sc.Links = nil
	}
	sc.Steps = []Step{st}
	ref := reference(sc, &sc.Steps[0], 0)
	switch {
	case strings.HasSuffix(sc.Kind, "fails"):
		sc.Steps[0].Faults = place(r, ref, 1+r.Intn(2), false)
	case strings.HasSuffix(sc.Kind, "killed"):
		again := st
		sc.Steps[0].Faults = place(r, ref, 1, true)
		again.SamePid = r.Intn(2) == 0
		sc.Steps = append(sc.Steps, again)
	}
	return sc
}

// template content a reference stands for at the moment
func (w *World) content(ref string) (string, bool) {
	if c, ok := w.server.urls[ref]; ok {
		return c, true
	}
	if strings.HasPrefix(ref, "file://") {
		n := strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(ref, "file://"), "/T"), "/")
		return get(n)
	}
	c, ok := w.server.head()[ref]
	return c, ok
}

func runG08(w *World) {
	if st := &w.sc.Steps[0]; w.sc.Files[st.Dst] == "@same" && st.Dst != "" {
		// as many bytes as the template
		want, _ := w.content(st.Args[2])
		os.WriteFile(abs(st.Dst), []byte(strings.Repeat("o", len(want))), 0o644)
	}
	if w.sc.Steps[0].Args[1] == "list" {
		st := &w.sc.Steps[0]
		p := w.exec(st)
		w.antec++
		listed := true
		var got []string
		for i, l := range strings.Split(strings.TrimSuffix(p.out.String(), "\n"), "\n") {
			if i > 0 {
				got = append(got, strings.TrimSpace(l))
			}
		}
		sort.Strings(got)
		listed = reflect.DeepEqual(got, w.server.tree()) && strings.HasSuffix(p.out.String(), "\n")
		if !p.failed() && !listed {
			w.bad("list", "%s reports success %s, but printed %q", line(st), p.faults(), p.out.String())
		}
		if p.failed() && len(p.fired) == 0 {
			w.bad("refused", "%s fails: %s", line(st), p.say())
		}
		return
	}
	for i := range w.sc.Steps {
		st := &w.sc.Steps[i]
		f := st.Dst
		prior, had := get(f)
		want, exists := w.content(st.Args[2])
		p := w.exec(st)
		got, has := get(f)
		kept := has == had && got == prior
		is := has && exists && got == want
		quiet := true // no fault of standard output
		for _, x := range p.fired {
			quiet = quiet && !strings.HasPrefix(x, "stdout")
		}
		w.antec++
		switch {
		case p.dead:
			if !kept && !is {
				w.bad("torn", "%s, killed (%s), leaves the destination with neither its earlier nor the complete new content: %s", line(st), strings.Join(p.fired, ", "), changed(had, has, prior, got))
				return
			}
		case p.failed():
			if !kept && (quiet || !is) {
				w.bad("destination-touched", "%s fails (%s) %s, but the destination %s", line(st), p.say(), p.faults(), changed(had, has, prior, got))
				return
			}
			if len(p.fired) == 0 && exists && st.Must == 0 {
				w.bad("refused", "%s fails: %s", line(st), p.say())
				return
			}
			if strings.Contains(p.out.String(), "successfully") && quiet {
				w.bad("unreported", "%s says %q although it fails: %s", line(st), p.out.String(), p.say())
				return
			}
		default:
			if st.Must < 0 {
				w.bad("unreported", "%s reports success, although it cannot be done", line(st))
				return
			}
			if !is {
				w.bad("incomplete", "%s reports success %s, but the destination does not hold the template: %s", line(st), p.faults(), diff(got, want))
				return
			}
		}
	}
}

// ---- G09

func genG09(r *rand.Rand, k int) *Scenario {
	kinds := []string{"gen", "gen", "copy", "list", "help", "usage", "gen", "wrong"}
	sc := &Scenario{Kind: kinds[k%len(kinds)], Strategy: strategy(r), Remote: remoteStart(r), Files: map[string]string{}}
	var st Step
	switch sc.Kind {
	case "gen":
		st = genCmd(r, k/len(kinds), r.Intn(3) == 0)
		st.Must = st.Gen.must()
	case "copy":
		st = Step{Args: []string{"template", "copy", []string{"full", "fallback", "https://tpl.example/t/full.tpl", "nosuch", "v2/tiny"}[r.Intn(5)], "mine.tpl"}, Dst: "mine.tpl", Must: 1}
		if st.Args[2] == "nosuch" {
			st.Must = -1
		}
		if r.Intn(2) == 0 {
			sc.Files["mine.tpl"] = "old"
		}
	case "list":
		st = Step{Args: []string{"template", "list"}, Must: 1}
	case "help":
		st = Step{Args: [][]string{{"help"}, {"help", "gen"}, {"help", "template"}}[r.Intn(3)], Must: 1}
	case "usage", "wrong":
		st = Step{Must: -1, Args: [][]string{{}, {"nosuch"}, {"help", "nosuch"}, {"help", "gen", "x"}, {"template"}, {"template", "nosuch"}, {"template", "copy"}, {"template", "copy", "full"}, {"gen"}, {"gen", "-i", "Store"}, {"gen", "-o", "x.go"}, {"gen", "-i", "Store", "-o", "newdir/x.go"}, {"gen", "-i", "Store", "-t", "tpl/full.tpl"}, {"gen", "-nosuch"}, {"-nosuch"}, {"-x", "help"}, {"gen", "-p"}, {"--"}, {"template", "List"}, {"Gen"}, {"100%s"}, {"help", "%d"}}[r.Intn(22)]}
	}
	st.Via = "main"
	sc.Steps = []Step{st}
	if r.Intn(4) > 0 {
		sc.Steps[0].Faults = place(r, reference(sc, &sc.Steps[0], 0), 1+r.Intn(2), false)
	}
	return sc
}

func runG09(w *World) {
	st := &w.sc.Steps[0]
	ref := w.ref(0)
	if st.Gen != nil {
		st.Gen.setPrior()
	}
	p := w.exec(st)
	w.antec++
	errFault, outFault := false, false
	for _, x := range p.fired {
		errFault = errFault || strings.HasPrefix(x, "stderr")
		outFault = outFault || strings.HasPrefix(x, "stdout")
	}
	got, has := "", false
	if f := st.file(); f != "" {
		got, has = get(f)
	}
	// was the work done?
	done, sure := false, true
	switch {
	case st.Must < 0:
	case st.Gen != nil:
		done = !ref.Failed && has && got == ref.Content && st.Gen.check(got) == nil
		if prior, had := st.Gen.prior(); had && got == prior && prior == ref.Content {
			sure = false
		}
	case st.Dst != "":
		want, _ := w.content(st.Args[2])
		done = has && got == want
		if outFault {
			sure = false // copied, but not said so
		}
	case st.Args[0] == "template":
		done = true
		for _, n := range w.server.tree() {
			done = done && strings.Contains(p.out.String(), "  "+n+"\n")
		}
	default:
		done = helped(st.Args, p.out.String()) && p.out.String() == ref.Out
	}
	switch {
	case p.code == 0 && !done && (sure || st.Dst == ""):
		w.bad("zero", "%s exits with status zero %s, but its work is not done (standard output %q)", line(st), p.faults(), clip(p.out.String()))
	case p.code != 0 && done && sure && !errFault && !outFault:
		w.bad("nonzero", "%s exits with status %d %s, although its work is done: %s", line(st), p.code, p.faults(), p.errb.String())
	case p.code != 0 && strings.TrimSpace(p.errb.String()) == "" && !errFault:
		w.bad("silent", "%s exits with status %d %s without a message on standard error", line(st), p.code, p.faults())
	case p.code != 0 && st.Must > 0 && len(p.fired) == 0:
		w.bad("nonzero", "%s exits with status %d: %s", line(st), p.code, p.errb.String())
	}
	if strings.Contains(p.errb.String(), "%!") {
		w.bad("message", "%s prints a garbled message: %s", line(st), p.errb.String())
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// helped tells whether a help text has what it must have.
func helped(args []string, out string) bool {
	var need []string
	switch {
	case len(args) == 1:
		need = []string{"gen ", "template ", "generate decorators", "manage decorators templates", "Usage:", `Use "gowrap help [command]" for more information`}
	case args[1] == "gen":
		need = []string{"Usage: gowrap gen ", " -g", " -i ", " -l ", " -o ", " -p ", " -t ", " -v "}
	case args[1] == "template":
		need = []string{"Usage: gowrap template", "list - ", "copy - ", "gowrap template copy fallback templates/fallback"}
	}
	for _, n := range need {
		if !strings.Contains(out, n) {
			return false
		}
	}
	return strings.HasSuffix(out, "\n")
}
