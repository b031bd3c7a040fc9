package rewrite

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Mode is what loading of packages needs.
const Mode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes

// LoadShims reads the exported names of the shim packages below dir (the vsim module).
func LoadShims(vsimDir string, pairs map[string]string) (Shims, error) {
	var pats []string
	for _, p := range pairs {
		pats = append(pats, p)
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedSyntax | packages.NeedFiles | packages.NeedCompiledGoFiles, Dir: vsimDir}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	by := map[string]map[string]bool{}
	for _, p := range pkgs {
		names := map[string]bool{}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && ast.IsExported(d.Name.Name) {
						names[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							if ast.IsExported(s.Name.Name) {
								names[s.Name.Name] = true
							}
						case *ast.ValueSpec:
							for _, n := range s.Names {
								if ast.IsExported(n.Name) {
									names[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		by[p.PkgPath] = names
	}
	sh := Shims{}
	for std, p := range pairs {
		if by[p] == nil {
			return nil, fmt.Errorf("shim %s not found", p)
		}
		sh[std] = Shim{Path: p, Names: by[p]}
	}
	return sh, nil
}

// Load type-checks packages.
func Load(dir string, env []string, flags []string, pats ...string) ([]*packages.Package, *token.FileSet, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: Mode, Dir: dir, Fset: fset, Env: env, BuildFlags: flags}
	pkgs, err := packages.Load(cfg, pats...)
	return pkgs, fset, err
}

// Package rewrites all files of p; write receives the original file name and the new source.
func Package(p *packages.Package, shims Shims, sites *Sites, base string, noMem, newProcess bool, write func(file string, src []byte) error) error {
	if len(p.Errors) > 0 {
		return fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
	}
	r := &Rewriter{Fset: p.Fset, Info: p.TypesInfo, Pkg: p.Types, Shims: shims, Sites: sites, BaseDir: base, NoMem: noMem, shared: map[types.Object]bool{}}
	if newProcess {
		r.Reinit, r.reinit = true, map[ast.Expr]string{}
	}
	var inits []string
	for i, f := range p.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && newProcess && fd.Recv == nil && fd.Name.Name == "init" {
				fd.Name.Name = fmt.Sprintf("vsimPkgInit%d", len(inits))
				inits = append(inits, fd.Name.Name)
			}
		}
		src, err := r.File(f)
		if err != nil {
			if os.Getenv("VSIM_DEBUG") != "" {
				os.WriteFile("/tmp/bad.go", src, 0o644)
			}
			return fmt.Errorf("%s: %v", filepath.Base(p.CompiledGoFiles[i]), err)
		}
		if err := write(p.CompiledGoFiles[i], src); err != nil {
			return err
		}
	}
	if newProcess && len(p.Syntax) > 0 {
		return write(filepath.Join(filepath.Dir(p.CompiledGoFiles[0]), "vsim_reinit.go"), r.reinitFile(p.Syntax[0].Name.Name, inits))
	}
	return nil
}

// DefaultShims are the redirections for generated decorators.
func DefaultShims() map[string]string {
	return map[string]string{
		"sync":         "vsim/shim/vsync",
		"sync/atomic":  "vsim/shim/vatomic",
		"time":         "vsim/shim/vtime",
		"context":      "vsim/shim/vcontext",
		"runtime":      "vsim/shim/vruntime",
		"math/rand":    "vsim/shim/vrand",
		"math/rand/v2": "vsim/shim/vrand2",
	}
}

var _ = strings.TrimSpace
