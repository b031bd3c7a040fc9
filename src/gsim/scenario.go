package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"gsim/vimports"
	"gsim/vpackages"
	"vsim/rt"
)

// Scenario of a run. Places in the tree are relative to its root; /T in arguments is its root.
type Scenario struct {
	Prop     string            `json:"prop"`
	Kind     string            `json:"kind"`
	Seed     int64             `json:"seed"`
	Strategy rt.Strategy       `json:"strategy"`
	Files    map[string]string `json:"files,omitempty"`
	Links    map[string]string `json:"links,omitempty"`
	Remote   string            `json:"remote,omitempty"` // revisions made before, separated by ;
	Steps    []Step            `json:"steps"`
	Case     string            `json:"case,omitempty"`
}

// Step is a command.
type Step struct {
	Via     string   `json:"via,omitempty"` // main: the whole program; otherwise the package's API
	Cwd     string   `json:"cwd,omitempty"`
	Gen     *GenCmd  `json:"gen,omitempty"`
	Args    []string `json:"args,omitempty"`
	Faults  []Fault  `json:"faults,omitempty"`
	Remote  string   `json:"remote,omitempty"` // changes of the server before the step
	Same    bool     `json:"same,omitempty"`   // in the process of the step before
	SamePid bool     `json:"same_pid,omitempty"`
	Delay   int64    `json:"delay,omitempty"`
	Dst     string   `json:"dst,omitempty"` // file the command writes
	Must    int      `json:"must,omitempty"`
}

// GenCmd is a gen command.
type GenCmd struct {
	Pkg   string   `json:"pkg"`
	Iface string   `json:"iface"`
	Tpl   string   `json:"tpl"`
	Out   string   `json:"out"`
	Vars  []string `json:"vars,omitempty"`
	Local string   `json:"local,omitempty"`
	NoGen bool     `json:"no_gen,omitempty"`
	Prior string   `json:"prior,omitempty"`
	size  int      // of the new content

	Src    string `json:"src"`  // directory of the source package, if it is in the tree
	File   string `json:"file"` // place of the output
	Body   string `json:"body"` // which template it is
	Pname  string `json:"pname"`
	Hosted string `json:"hosted,omitempty"` // name of a hosted template
}

// Fault hits the operation with the given index of a process.
type Fault struct {
	At   int  `json:"at"`
	Sel  int  `json:"sel"`
	Kill bool `json:"kill,omitempty"`
}

func (g *GenCmd) args() []string {
	a := []string{"gen"}
	if g.Pkg != "" {
		a = append(a, "-p", g.Pkg)
	}
	a = append(a, "-i", g.Iface, "-t", g.Tpl, "-o", g.Out)
	for _, v := range g.Vars {
		a = append(a, "-v", v)
	}
	if g.Local != "" {
		a = append(a, "-l", g.Local)
	}
	if g.NoGen {
		a = append(a, "-g")
	}
	return a
}

func (w *World) args(st *Step) []string {
	if st.Gen != nil {
		return st.Gen.args()
	}
	return st.Args
}

// iface describes an interface of the kit.
type iface struct {
	dir     string
	name    string
	must    int // 1: can be decorated from elsewhere, -1: cannot, 0: not known
	methods string
	generic bool
}

var ifaces = []iface{
	{"svc", "Store", 1, "Close Each Get Kind Put", false},
	{"svc", "Quiet", 1, "Count Ping Range Watch", false},
	{"svc", "Full", 0, "", false},
	{"svc", "Extra", 1, "Do Extra Reset Size", false},
	{"svc", "Both", 1, "Count Ping Range Size Watch", false},
	{"svc", "Pages", 1, "Next Show", false},
	{"svc", "Repo", 1, "All Find First Keys", true},
	{"svc", "Base", 1, "All First", true},
	{"svc", "Items", 1, "All First Len", false},
	{"svc", "Alias", 0, "", false},
	{"svc", "Local", 0, "Local", false},
	{"svc", "Missing", -1, "", false},
	{"svc", "Item", -1, "", false},
	{"other", "Base", 1, "Do Reset", false},
	{"other", "Plain", 1, "Plain", false},
	{"a/types", "Named", 1, "Name", false},
	{"b/types", "Sized", 1, "Size", false},
	{"plat", "Device", 1, "Flags Open Sync", false},
	{"cmds/deep", "Runner", 0, "Run", false},
	{"broken", "Empty", -1, "", false},
	{"broken", "Hidden", -1, "", false},
	{"broken", "Bad", -1, "", false},
	{"broken", "Private", 0, "", false},
	{"syntax", "Fine", -1, "", false},
	{"std:io", "ReadWriteSeeker", 1, "Read Seek Write", false},
	{"std:io", "ByteScanner", 1, "ReadByte UnreadByte", false},
	{"std:io/fs", "ReadDirFS", 1, "Open ReadDir", false},
	{"std:net/http", "ResponseWriter", 1, "Header Write WriteHeader", false},
	{"std:sort", "Interface", 1, "Len Less Swap", false},
	{"std:nosuch/package", "Reader", -1, "", false},
	{"std:hash", "Hash64", 1, "BlockSize Reset Size Sum Sum64 Write", false},
	{"std:database/sql/driver", "Conn", 1, "Begin Close Prepare", false},
	{"std:container/heap", "Interface", 1, "Len Less Pop Push Swap", false},
}

func findIface(dir, name string) *iface {
	for i := range ifaces {
		if ifaces[i].dir == dir && ifaces[i].name == name {
			return &ifaces[i]
		}
	}
	return nil
}

// kit templates: 1: always works, -1: never
var bodies = map[string]int{"full": 1, "vars": 1, "imports": 1, "import": 1, "tiny": 1, "big": 1, "failmid": -1, "failindex": 0, "parse": -1, "invalid": -1}

// layout is a way to lay out working directory, source and destination.
type layout struct {
	cwd   string
	pkg   string // rel, path, abs(, none for the working directory)
	out   string // where the output lies: same (package), pkg out, new dir, in the working directory
	file  string
	outAs string // rel, abs
}

var outDirs = map[string]string{"out": "output", "newdir": "newdir", "newdir/sub": "sub", "other": "other", "a/types": "types", "cmds/deep": "main", "svc": "svc"}

var fileNames = []string{"gen.go", "zz_gen.go", "a_gen.go", "gen_test.go", "gen_linux.go", "svc_gen.go", "type.go"}

func relTo(cwd, p string) string {
	r, err := filepath.Rel("/T/"+cwd, "/T/"+p)
	if err != nil {
		panic(err)
	}
	return r
}

// dotted makes a path a package pattern.
func dotted(p string) string {
	if p == "." || strings.HasPrefix(p, "./") || p == ".." || strings.HasPrefix(p, "../") {
		return p
	}
	return "./" + p
}

var someVars = []string{"extra=some", "extra", "k=v", "k=a=b", "empty=", "Name=MyThing", "path=x/y.z", "list=a,b;c", "flag", "u=héé", "p=%d%s", "t={{.}}", "neg=-1", "h=#x", "q=?*"}

// genCmd makes a gen command; k selects the layout.
func genCmd(r *rand.Rand, k int, bad bool) Step {
	dirs := []string{"svc", "svc", "svc", "other", "svc", "std", "a/types", "svc", "plat", "cmds/deep", "svc", "b/types"}
	if bad {
		dirs = append(dirs, "broken", "syntax", "std-bad")
	}
	dir := dirs[k%len(dirs)]
	var cand []*iface
	for i := range ifaces {
		f := &ifaces[i]
		if f.dir == dir || dir == "std" && strings.HasPrefix(f.dir, "std:") && f.must >= 0 || dir == "std-bad" && f.must < 0 && strings.HasPrefix(f.dir, "std:") {
			if bad || f.must >= 0 {
				cand = append(cand, f)
			}
		}
	}
	f := cand[r.Intn(len(cand))]
	g := &GenCmd{Iface: f.name, Src: f.dir}
	cwds := []string{"", "svc", "newdir", "cmds", "out", "tpl"}
	st := Step{Cwd: cwds[(k/len(dirs)+r.Intn(2))%len(cwds)], Gen: g}
	if strings.HasPrefix(f.dir, "std:") {
		g.Pkg = strings.TrimPrefix(f.dir, "std:")
	} else {
		switch r.Intn(4) {
		case 0:
			g.Pkg = modPath + "/" + f.dir
		case 1:
			if r.Intn(2) == 0 {
				st.Cwd = f.dir
				g.Pkg = []string{"", "./", "."}[r.Intn(3)]
				break
			}
			fallthrough
		default:
			g.Pkg = dotted(relTo(st.Cwd, f.dir))
		}
	}
	// destination
	var odirs []string
	for d := range outDirs {
		odirs = append(odirs, d)
	}
	sort.Strings(odirs)
	od := odirs[r.Intn(len(odirs))]
	if r.Intn(3) == 0 && !strings.HasPrefix(f.dir, "std:") {
		od = f.dir
	}
	switch {
	case f.dir == "cmds/deep":
		od = f.dir // nobody can import it
	case f.dir == "svc" && (od == "other" || od == "a/types"):
		od = "out" // it would import its importer
	}
	pname, ok := outDirs[od]
	if !ok {
		pname = path.Base(od)
	}
	name := fileNames[r.Intn(len(fileNames))]
	g.File = path.Join(od, name)
	g.Pname = pname
	switch r.Intn(5) {
	case 0:
		g.Out = "/T/" + g.File
	case 1:
		g.Out = dotted(relTo(st.Cwd, g.File))
	default:
		g.Out = relTo(st.Cwd, g.File)
	}
	// template
	g.setTpl(r, st.Cwd, bad)
	for i := r.Intn(4); i > 0; i-- {
		g.Vars = append(g.Vars, someVars[r.Intn(len(someVars))])
	}
	if r.Intn(3) == 0 {
		g.Local = []string{modPath, "example.com", "io,example.com/shop/a", modPath + "/other"}[r.Intn(4)]
	}
	g.NoGen = r.Intn(6) == 0
	g.Prior = []string{"", "", "old", "made", "long", "link", "same"}[r.Intn(7)]
	if r.Intn(4) == 0 {
		st.Via = "main"
	}
	return st
}

// setTpl selects the template. What imports.tpl writes imports the packages
// b/types and other: within these (and what they import) it cannot work.
func (g *GenCmd) setTpl(r *rand.Rand, cwd string, bad bool) {
	for {
		g.selectTpl(r, cwd, bad)
		switch d := path.Dir(g.File); {
		case g.Body == "imports" && (d == "other" || d == "a/types" || d == "b/types"):
			continue
		}
		return
	}
}

func (g *GenCmd) selectTpl(r *rand.Rand, cwd string, bad bool) {
	local := []string{"full", "vars", "imports", "import", "tiny", "big", "full", "vars"}
	if bad {
		local = append(local, "failmid", "failindex", "parse", "invalid", "missing", "failmid", "invalid")
	}
	b := local[r.Intn(len(local))]
	file := "tpl/" + b + ".tpl"
	g.Body, g.Hosted = b, ""
	switch r.Intn(9) {
	case 0, 1:
		g.Tpl = relTo(cwd, file)
	case 2:
		g.Tpl = "/T/" + file
	case 3:
		g.Tpl = "file://" + relTo(cwd, file)
	case 4:
		g.Tpl = "file:///T/" + file
	case 5:
		// relative to the root of the git repository, if not there in the working directory
		g.Tpl = "file://" + file
	case 6:
		us := []string{"full", "vars", "tiny", "imports", "import"}
		if bad {
			us = append(us, "failmid", "parse", "missing")
		}
		g.Body = us[r.Intn(len(us))]
		g.Tpl = "https://tpl.example/t/" + g.Body + ".tpl"
		switch r.Intn(7) {
		case 0:
			g.Tpl, g.Body = "http://plain.example:8080/full?rev=3&x=y", "full"
		case 1:
			g.Tpl, g.Body = "https://raw.githubusercontent.com/someone/else/main/full", "full"
		case 2:
			g.Tpl, g.Body = "https://tpl.example/a%20b/full.tpl", "full"
		}
	default:
		g.Hosted = hostedNames[r.Intn(len(hostedNames))]
		g.Tpl, g.Body = g.Hosted, path.Base(g.Hosted)
		if bad && r.Intn(6) == 0 {
			g.Hosted, g.Tpl, g.Body = "nosuch", "nosuch", "missing"
		}
	}
}

// must tells whether a gen command has to work (1), cannot (-1), or neither is known (0).
func (g *GenCmd) must() int {
	f := findIface(g.Src, g.Iface)
	b, known := bodies[g.Body]
	if g.Body == "missing" {
		b, known = -1, true
	}
	if g.Hosted != "" && g.Body != "missing" {
		known = g.Body == "full" || g.Body == "vars" || g.Body == "tiny" || g.Body == "big"
	}
	if f == nil {
		return 0
	}
	if f.must < 0 {
		if f.dir == "broken" && f.name == "Hidden" && path.Dir(g.File) == "broken" {
			return 0 // its own package may
		}
		return -1
	}
	if known && b < 0 {
		return -1
	}
	for _, v := range g.Vars {
		if v == "extra" || strings.HasPrefix(v, "t=") || strings.HasPrefix(v, "Name=") {
			return 0
		}
	}
	if known && b > 0 && f.must > 0 {
		return 1
	}
	return 0
}

func (g *GenCmd) prior() (string, bool) {
	switch g.Prior {
	case "old", "link":
		return "package " + g.Pname + "\n\n// old content of " + g.File + "\n", true
	case "made":
		return "// Code generated by gowrap. DO NOT EDIT.\n// template: ../tpl/full.tpl\n// gowrap: http://github.com/hexdigest/gowrap\n\npackage " + g.Pname + "\n\n//go:generate gowrap gen -p " + g.Pkg + " -i " + g.Iface + " -t ../tpl/full.tpl -o " + path.Base(g.File) + " -l \"\"\n\n// old content of " + g.File + "\n", true
	case "same":
		// as many bytes as the new content
		c := "package " + g.Pname + "\n\n// old content of the same size"
		return c + strings.Repeat("x", max(0, g.size-len(c)-1)) + "\n", true
	case "long":
		return "package " + g.Pname + "\n\n" + strings.Repeat("// old content, longer than any new one\n", 2000), true
	}
	return "", false
}

// setPrior puts the output file's earlier content in place.
func (g *GenCmd) setPrior() {
	c, ok := g.prior()
	dst := abs(g.File)
	os.Remove(dst)
	os.Remove(abs("store/" + path.Base(g.File)))
	if !ok {
		return
	}
	os.MkdirAll(filepath.Dir(dst), 0o755)
	if g.Prior == "link" {
		os.MkdirAll(abs("store"), 0o755)
		real := abs("store/" + path.Base(g.File))
		os.WriteFile(real, []byte(c), 0o644)
		rel, _ := filepath.Rel(filepath.Dir(dst), real)
		os.Symlink(rel, dst)
		return
	}
	os.WriteFile(dst, []byte(c), 0o644)
}

// Ref is what a command does by itself in an undisturbed world.
type Ref struct {
	Failed   bool
	Say      string
	Code     int
	Content  string
	Exists   bool
	Ops      []rec
	Out      string
	Err      string
	Panicked string
	Served   int
}

var refs = map[string]*Ref{}

// reference runs the step alone, without faults, in the default order.
func reference(sc *Scenario, st *Step, upto int) *Ref {
	c := Step{Via: st.Via, Cwd: st.Cwd, Gen: st.Gen, Args: st.Args, Dst: st.Dst}
	remote := sc.Remote
	for i := 0; i <= upto && i < len(sc.Steps); i++ {
		if r := sc.Steps[i].Remote; r != "" {
			remote += ";" + r
		}
	}
	rs := &Scenario{Prop: "ref", Kind: "reference", Seed: 1, Files: sc.Files, Links: sc.Links, Remote: remote, Steps: []Step{c}, Strategy: rt.Strategy{Kind: "random"}}
	b, err := json.Marshal(rs)
	if err != nil {
		fail(err)
	}
	key := string(b)
	if r := refs[key]; r != nil {
		return r
	}
	w := simulate(rs, true, nil, false)
	r := w.want["ref"]
	if r == nil {
		r = &Ref{Failed: true, Panicked: "no result"}
	}
	for _, v := range w.viol {
		if v.Kind == "panic" || v.Kind == "stuck" {
			r.Panicked = v.Msg
		}
	}
	refs[key] = r
	return r
}

func runReference(w *World) {
	st := &w.sc.Steps[0]
	if st.Gen != nil {
		st.Gen.setPrior()
	}
	p := w.exec(st)
	r := &Ref{Failed: p.failed(), Say: norm(p.say()), Code: p.code, Ops: p.recs, Out: p.out.String(), Err: p.errb.String(), Panicked: p.panicked, Served: len(w.served)}
	if f := st.file(); f != "" {
		r.Content, r.Exists = get(f)
	}
	w.want["ref"] = r
}

// file is the file a step writes.
func (st *Step) file() string {
	if st.Gen != nil {
		return st.Gen.File
	}
	return st.Dst
}

// check looks at a generated file on its own: is it what was asked for?
func (g *GenCmd) check(src string) error {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return fmt.Errorf("the generated file is not Go: %v", err)
	}
	if f.Name.Name != g.Pname {
		return fmt.Errorf("the generated file belongs to package %s instead of %s", f.Name.Name, g.Pname)
	}
	if !strings.HasPrefix(src, "// Code generated by gowrap. DO NOT EDIT.\n// template: ") {
		return fmt.Errorf("the generated file lacks the header")
	}
	cmds := 0
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "//go:generate ") {
			cmds++
		}
	}
	if g.NoGen && cmds != 0 || !g.NoGen && cmds != 1 {
		return fmt.Errorf("the generated file has %d go:generate commands", cmds)
	}
	d := findIface(g.Src, g.Iface)
	if d == nil || d.methods == "" {
		return nil
	}
	have := map[string]bool{}
	for _, x := range f.Decls {
		if fd, ok := x.(*ast.FuncDecl); ok && fd.Recv != nil {
			have[fd.Name.Name] = true
		}
	}
	pre := ""
	switch g.Body {
	case "full":
	case "import":
		for _, p := range []string{"fmt", "os", "text/tabwriter", "text/template", "math/rand"} {
			n := 0
			for _, x := range f.Imports {
				if x.Path.Value == strconv.Quote(p) && x.Name == nil {
					n++
				}
			}
			if n != 1 {
				return fmt.Errorf("the generated file imports %s %d times instead of once", p, n)
			}
		}
	case "big":
		pre = "Z"
	case "log", "retry", "timeout", "ratelimit", "circuitbreaker", "fallback":
		if g.Hosted == "" {
			return nil
		}
		if g.Body != "log" && g.Body != "ratelimit" && g.Body != "fallback" {
			return nil
		}
	default:
		return nil
	}
	for _, m := range strings.Fields(d.methods) {
		if !have[pre+m] {
			return fmt.Errorf("the generated file lacks method %s", pre+m)
		}
	}
	return nil
}

func strategy(r *rand.Rand) rt.Strategy {
	switch r.Intn(3) {
	case 0:
		return rt.Strategy{Kind: "pct", Changes: 1 + r.Intn(6), Horizon: 100 + r.Intn(3000), MemP: 0.3}
	case 1:
		return rt.Strategy{Kind: "random", SwitchP: 0.5, MemP: 0.2}
	}
	return rt.Strategy{Kind: "random", SwitchP: 0.1, MemP: 0.05}
}

func debugInfo() string {
	return fmt.Sprintf("references %d, packages %d, imports %d", len(refs), vpackages.Misses, vimports.Misses)
}
