package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"

	"vtool/plan"
	"vtool/rewrite"
)

// genFailure is a decorator that could not be generated or does not compile.
type genFailure struct {
	Unit plan.Unit
	Msg  string
}

// copyTree copies the files below src that keep accepts.
func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

func run(dir string, limit time.Duration, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return buf.String(), err
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return buf.String(), fmt.Errorf("killed after %v", limit)
	}
}

// prepare makes the scratch module and the gowrap binary.
func (e *env) prepare(units []plan.Unit) error {
	if !strings.HasPrefix(e.work, e.verif+"/.cache/") {
		return fmt.Errorf("bad scratch directory %s", e.work)
	}
	if err := os.RemoveAll(e.work); err != nil {
		return err
	}
	gen := filepath.Join(e.work, "gen")
	if err := os.MkdirAll(gen, 0o755); err != nil {
		return err
	}
	src := filepath.Join(e.verif, "src")
	b, err := os.ReadFile(filepath.Join(src, "genmod", "go.mod.tmpl"))
	if err != nil {
		return err
	}
	b = bytes.ReplaceAll(b, []byte("@SRC@"), []byte(src))
	if err := os.WriteFile(filepath.Join(gen, "go.mod"), b, 0o644); err != nil {
		return err
	}
	if err := copyTree(filepath.Join(src, "genmod", "go.sum"), filepath.Join(gen, "go.sum")); err != nil {
		return err
	}
	for _, d := range []string{"ifaces", "v1", "go-shop", "a-shop", "web", "journal"} {
		if err := copyTree(filepath.Join(src, "genmod", d), filepath.Join(gen, d)); err != nil {
			return err
		}
	}
	for _, u := range units {
		k := plan.Kits[u.Template]
		if k == "" {
			continue
		}
		if err := copyTree(filepath.Join(src, "genmod", "kits", k), filepath.Join(gen, "kits", k)); err != nil {
			return err
		}
	}
	out, err := run(e.repo, 5*time.Minute, "go", "build", "-o", filepath.Join(e.work, "gowrap"), "./cmd/gowrap")
	if err != nil {
		return fmt.Errorf("go build ./cmd/gowrap: %v\n%s", err, out)
	}
	return nil
}

// generate runs the tool for every unit; units of one package one after another.
func (e *env) generate(units []plan.Unit) (bad []genFailure) {
	gen := filepath.Join(e.work, "gen")
	groups := map[string][]plan.Unit{}
	var order []string
	for _, u := range units {
		if groups[u.Pkg] == nil {
			order = append(order, u.Pkg)
		}
		groups[u.Pkg] = append(groups[u.Pkg], u)
	}
	ifaces, _ := filepath.Glob(filepath.Join(gen, "ifaces", "*.go"))
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, pkg := range order {
		us := groups[pkg]
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			dir := filepath.Join(gen, "u", us[0].Pkg)
			os.MkdirAll(dir, 0o755)
			for i, u := range us {
				p := "gen/ifaces"
				if u.Same {
					p = "gen/u/" + u.Pkg
					if i == 0 {
						for _, f := range ifaces {
							b, _ := os.ReadFile(f)
							b = bytes.Replace(b, []byte("package ifaces"), []byte("package "+u.Pkg), 1)
							os.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0o644)
						}
					}
				}
				args := []string{"gen", "-g", "-p", p, "-i", u.Iface, "-t", filepath.Join(e.repo, "templates", u.Template), "-o", filepath.Join(dir, u.File())}
				var ks []string
				for k := range u.Vars {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					args = append(args, "-v", k+"="+u.Vars[k])
				}
				out, err := run(gen, time.Minute, filepath.Join(e.work, "gowrap"), args...)
				if err != nil {
					mu.Lock()
					bad = append(bad, genFailure{u, fmt.Sprintf("gowrap %s: %v: %s", strings.Join(args, " "), err, strings.TrimSpace(out))})
					mu.Unlock()
					os.Remove(filepath.Join(dir, u.File()))
				}
			}
		}()
	}
	wg.Wait()
	return bad
}

type loaded struct {
	unit  plan.Unit
	pkg   *packages.Package
	ctor  string
	must  string
	opts  []string // functions returning options of the constructor
	typ   string
	iface *types.Interface
	named string // qualified interface type
}

// load type-checks the generated packages, dropping the units that do not compile.
func (e *env) load(units []plan.Unit) (good []loaded, bad []genFailure, pkgs []*packages.Package, err error) {
	gen := filepath.Join(e.work, "gen")
	for try := 0; try < 12; try++ {
		var pats []string
		seen := map[string]bool{}
		for _, u := range units {
			if !seen[u.Pkg] {
				seen[u.Pkg] = true
				pats = append(pats, "gen/u/"+u.Pkg)
			}
		}
		if len(pats) == 0 {
			return nil, bad, nil, nil
		}
		pkgs, _, err = rewrite.Load(gen, nil, nil, append(pats, "gen/ifaces")...)
		if err != nil {
			return nil, bad, nil, err
		}
		drop := map[string]string{}
		for _, p := range pkgs {
			for _, pe := range p.Errors {
				file, _, _ := strings.Cut(pe.Pos, ":")
				hit := false
				for _, u := range units {
					if filepath.Join(gen, "u", u.Pkg, u.File()) == file {
						if drop[u.ID()] == "" {
							drop[u.ID()] = pe.Error()
						}
						hit = true
					}
				}
				if !hit {
					// the compiler's own list of errors
					for _, line := range strings.Split(pe.Msg, "\n") {
						for _, u := range units {
							if strings.HasPrefix(line, "u/"+u.Pkg+"/"+u.File()+":") {
								if drop[u.ID()] == "" {
									drop[u.ID()] = line
								}
								hit = true
							}
						}
					}
				}
				if !hit {
					// no position in a generated file: blame the whole package
					for _, u := range units {
						if "gen/u/"+u.Pkg == p.PkgPath && drop[u.ID()] == "" {
							drop[u.ID()] = pe.Error()
							hit = true
						}
					}
				}
				if !hit {
					return nil, bad, nil, fmt.Errorf("%s: %v", p.PkgPath, pe)
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		var rest []plan.Unit
		for _, u := range units {
			if m := drop[u.ID()]; m != "" {
				bad = append(bad, genFailure{u, "generated code does not compile: " + strings.ReplaceAll(m, gen+"/", "")})
				os.Remove(filepath.Join(gen, "u", u.Pkg, u.File()))
				continue
			}
			rest = append(rest, u)
		}
		units = rest
	}
	by := map[string]*packages.Package{}
	for _, p := range pkgs {
		by[p.PkgPath] = p
	}
	for _, u := range units {
		p := by["gen/u/"+u.Pkg]
		src := by["gen/ifaces"]
		if u.Same {
			src = p
		}
		l := loaded{unit: u, pkg: p}
		obj := src.Types.Scope().Lookup(u.Iface)
		if obj == nil {
			bad = append(bad, genFailure{u, "interface not found"})
			continue
		}
		l.iface = obj.Type().Underlying().(*types.Interface)
		why := ""
		for i, f := range p.Syntax {
			if filepath.Base(p.CompiledGoFiles[i]) != u.File() {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !fd.Name.IsExported() {
					continue
				}
				sig := p.TypesInfo.Defs[fd.Name].Type().(*types.Signature)
				if sig.Results().Len() == 0 {
					continue
				}
				if nm, ok := sig.Results().At(0).Type().(*types.Named); ok && nm.Obj().Name() == u.Name+"Option" && strings.HasPrefix(fd.Name.Name, u.Name) {
					l.opts = append(l.opts, fd.Name.Name)
					continue
				}
				rt := sig.Results().At(0).Type()
				n := rt
				if pt, ok := n.(*types.Pointer); ok {
					n = pt.Elem()
				}
				nm, ok := n.(*types.Named)
				if !ok || nm.Obj().Name() != u.Name {
					continue
				}
				switch {
				case !types.Implements(rt, l.iface):
					m, _ := types.MissingMethod(rt, l.iface, true)
					why = fmt.Sprintf("%s returned by %s does not implement %s", rt, fd.Name.Name, u.Iface)
					if m != nil {
						why += ": " + m.String()
					}
				case strings.HasPrefix(fd.Name.Name, "Must"):
					l.must = fd.Name.Name
				case l.ctor == "" || fd.Name.Name == "New"+u.Name:
					l.ctor = fd.Name.Name
				}
				l.typ = nm.Obj().Name()
			}
		}
		if l.ctor == "" || why != "" {
			if why == "" {
				why = "no constructor of " + u.Name + " found in the generated code"
			}
			bad = append(bad, genFailure{u, why})
			continue
		}
		good = append(good, l)
	}
	return good, bad, pkgs, nil
}

// instrument rewrites the generated packages in place and writes the glue.
func (e *env) instrument(good []loaded, pkgs []*packages.Package) error {
	gen := filepath.Join(e.work, "gen")
	sh, err := rewrite.LoadShims(filepath.Join(e.verif, "src", "vsim"), rewrite.DefaultShims())
	if err != nil {
		return err
	}
	sites := &rewrite.Sites{}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	files := map[string][]byte{}
	for _, p := range pkgs {
		if p.PkgPath == "gen/ifaces" {
			continue
		}
		if err := rewrite.Package(p, sh, sites, gen, false, false, func(f string, src []byte) error {
			files[f] = src
			return nil
		}); err != nil {
			return fmt.Errorf("instrumenting %s: %v", p.PkgPath, err)
		}
	}
	for f, src := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := os.WriteFile(f+".txt", b, 0o644); err != nil {
			return err
		}
		if err := os.WriteFile(f, src, 0o644); err != nil {
			return err
		}
	}
	return e.glue(good, sites)
}

func (e *env) glue(good []loaded, sites *rewrite.Sites) error {
	var b bytes.Buffer
	imports := map[string]string{}
	alias := func(path string) string {
		if a := imports[path]; a != "" {
			return a
		}
		a := fmt.Sprintf("p%d", len(imports))
		imports[path] = a
		return a
	}
	qual := func(p *types.Package) string { return alias(p.Path()) }
	str := func(t types.Type) string { return types.TypeString(t, qual) }
	stubs := map[string]string{}
	same := map[string]bool{"gen/ifaces": true}
	var regs bytes.Buffer
	for i, l := range good {
		if !token.IsExported(l.unit.Iface) {
			continue // compiles and implements the interface, but cannot be called from here
		}
		src := "gen/ifaces"
		if l.unit.Same {
			src = l.pkg.PkgPath
			same[src] = true
		}
		key := src + "." + l.unit.Iface
		ms := methods(l.iface)
		stub := stubs[key]
		if stub == "" {
			stub = fmt.Sprintf("stub%d", len(stubs))
			stubs[key] = stub
			fmt.Fprintf(&b, "type %s struct{ im *dec.Impl }\n\nvar _ %s.%s = %s{}\n\n", stub, alias(src), l.unit.Iface, stub)
			for _, m := range ms {
				sig := m.Type().(*types.Signature)
				var ps, as, rs, outs []string
				for j := 0; j < sig.Params().Len(); j++ {
					t := sig.Params().At(j).Type()
					s := str(t)
					if sig.Variadic() && j == sig.Params().Len()-1 {
						s = "..." + str(t.(*types.Slice).Elem())
					}
					ps = append(ps, fmt.Sprintf("a%d %s", j, s))
					as = append(as, fmt.Sprintf(", reflect.ValueOf(&a%d).Elem()", j))
				}
				for j := 0; j < sig.Results().Len(); j++ {
					s := str(sig.Results().At(j).Type())
					rs = append(rs, s)
					outs = append(outs, fmt.Sprintf("dec.As[%s](out[%d])", s, j))
				}
				fmt.Fprintf(&b, "func (s %s) %s(%s) (%s) {\n", stub, m.Name(), strings.Join(ps, ", "), strings.Join(rs, ", "))
				inv := fmt.Sprintf("s.im.Invoke(%q%s)", m.Name(), strings.Join(as, ""))
				if len(outs) == 0 {
					fmt.Fprintf(&b, "\t%s\n}\n\n", inv)
				} else {
					fmt.Fprintf(&b, "\tout := %s\n\treturn %s\n}\n\n", inv, strings.Join(outs, ", "))
				}
			}
		}
		pa := alias(l.pkg.PkgPath)
		fmt.Fprintf(&b, "var _ %s.%s = func() (d %s) { return }()\n\n", alias(src), l.unit.Iface, ptrTo(l, pa))
		must := "nil"
		if l.must != "" {
			must = pa + "." + l.must
		}
		fmt.Fprintf(&regs, "\tdec.Register(&dec.Unit{Name: %q, Template: %q, Iface: %q, New: %s.%s, Must: %s, Type: %q, Pkg: %q, Vars: %#v,\n\t\tStub: func(im *dec.Impl) any { return %s{im} }, Methods: []dec.Method{\n",
			l.unit.ID(), l.unit.Template, l.unit.Iface, pa, l.ctor, must, l.typ, l.pkg.PkgPath, l.unit.Vars, stub)
		for _, m := range ms {
			sig := m.Type().(*types.Signature)
			var ps, rs, pn, rn []string
			for j := 0; j < sig.Params().Len(); j++ {
				ps = append(ps, sig.Params().At(j).Type().String())
				pn = append(pn, kept(sig.Params().At(j)))
			}
			for j := 0; j < sig.Results().Len(); j++ {
				rs = append(rs, sig.Results().At(j).Type().String())
				rn = append(rn, kept(sig.Results().At(j)))
			}
			fmt.Fprintf(&regs, "\t\t\t{Name: %q, Ctx: %v, Err: %v, Variadic: %v, Params: %#v, Results: %#v, PNames: %#v, RNames: %#v},\n", m.Name(),
				len(ps) > 0 && ps[0] == "context.Context", len(rs) > 0 && rs[len(rs)-1] == "error", sig.Variadic(), ps, rs, pn, rn)
		}
		fmt.Fprintf(&regs, "\t\t}")
		if len(l.opts) > 0 {
			fmt.Fprintf(&regs, ", Extra: map[string]any{")
			for _, o := range l.opts {
				fmt.Fprintf(&regs, "%q: %s.%s, ", strings.TrimPrefix(o, l.unit.Name), pa, o)
			}
			fmt.Fprintf(&regs, "}")
		}
		fmt.Fprintf(&regs, "})\n")
		_ = i
	}
	var sk []string
	for s := range same {
		sk = append(sk, s)
	}
	sort.Strings(sk)
	for i, s := range sk {
		a := alias(s)
		if i == 0 {
			fmt.Fprintf(&regs, "\tdec.AnyValue = func(t string) any { return &%s.Req{ID: t} }\n", a)
		}
		fmt.Fprintf(&regs, "\tdec.IfaceValue[reflect.TypeOf((*%s.Validator)(nil)).Elem()] = func(t string) any { return &%s.Req{ID: t} }\n", a, a)
	}
	kits := map[string]bool{}
	for _, l := range good {
		if k := plan.Kits[l.unit.Template]; k != "" {
			kits[k] = true
		}
	}
	var out bytes.Buffer
	fmt.Fprintf(&out, "package main\n\nimport (\n\t\"reflect\"\n\n\t\"vsim/dec\"\n")
	var paths []string
	for p := range imports {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		fmt.Fprintf(&out, "\t%s %q\n", imports[p], p)
	}
	var ks []string
	for k := range kits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&out, "\t_ \"gen/kits/%s\"\n", k)
	}
	fmt.Fprintf(&out, ")\n\n")
	out.Write(b.Bytes())
	fmt.Fprintf(&out, "func main() {\n\tdec.SiteNames = siteNames\n%s\tdec.Main(func(string) []string { return dec.UnitNames })\n}\n\nvar siteNames = []string{\"\",\n", regs.String())
	for _, s := range sites.List {
		fmt.Fprintf(&out, "\t%q,\n", s)
	}
	fmt.Fprintf(&out, "}\n")
	src, err := format.Source(out.Bytes())
	if err != nil {
		os.WriteFile(filepath.Join(e.work, "glue.bad"), out.Bytes(), 0o644)
		return fmt.Errorf("glue: %v", err)
	}
	dir := filepath.Join(e.work, "gen", "cmd")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, "main.go"), src, 0o644)
}

// kept is the name of a parameter or result that generated code has no reason to change
func kept(v *types.Var) string {
	switch n := v.Name(); n {
	case "_", "ctx", "err":
		return ""
	default:
		return n
	}
}

func ptrTo(l loaded, pa string) string {
	o := l.pkg.Types.Scope().Lookup(l.ctor)
	if _, ok := o.Type().(*types.Signature).Results().At(0).Type().(*types.Pointer); ok {
		return "*" + pa + "." + l.typ
	}
	return pa + "." + l.typ
}

func methods(it *types.Interface) []*types.Func {
	var ms []*types.Func
	for i := 0; i < it.NumMethods(); i++ {
		ms = append(ms, it.Method(i))
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].Name() < ms[j].Name() })
	return ms
}
