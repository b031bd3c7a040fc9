// Package rewrite turns ordinary Go source into source that runs on the simulator: every channel
// operation, select, goroutine start, map iteration and shared memory access becomes a call of
// vsim/rt, and selected standard packages are redirected to vsim/shim packages.
package rewrite

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Shims maps import paths to their replacements and the names each replacement offers.
type Shims map[string]Shim

// Shim is one replacement package.
type Shim struct {
	Path  string
	Names map[string]bool
}

// Sites collects the source positions instrumentation refers to.
type Sites struct {
	List []string
	idx  map[string]int
}

func (s *Sites) id(pos string) int {
	if s.idx == nil {
		s.idx = map[string]int{}
	}
	if i, ok := s.idx[pos]; ok {
		return i
	}
	s.List = append(s.List, pos)
	s.idx[pos] = len(s.List)
	return len(s.List)
}

// Rewriter rewrites the files of one type-checked package.
type Rewriter struct {
	Fset    *token.FileSet
	Info    *types.Info
	Pkg     *types.Package
	Shims   Shims
	Sites   *Sites
	NoMem   bool // do not instrument memory accesses
	BaseDir string

	shared  map[types.Object]bool
	tmp     int
	used    map[string]string // shim path -> alias
	usesRT  bool
	bad     []string
	globals []string

	Reinit  bool                // emit what gives the package variables their initial values again
	reinit  map[ast.Expr]string // initialisers of package variables
	vars    []string            // package variables
	reinits []ast.Decl          // of the current file
}

// File rewrites f and returns the new source.
func (r *Rewriter) File(f *ast.File) ([]byte, error) {
	r.used = map[string]string{}
	r.usesRT = false
	r.bad = nil
	if r.shared == nil {
		r.shared = map[types.Object]bool{}
	}
	r.analyse(f)
	var decls []ast.Decl
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			decls = append(decls, r.genDecl(d, true))
		case *ast.FuncDecl:
			nd := *d
			nd.Doc = nil
			if d.Recv != nil {
				nd.Recv = r.fieldList(d.Recv)
			}
			nd.Type = r.typ(d.Type).(*ast.FuncType)
			if d.Body != nil {
				nd.Body = r.block(d.Body)
			}
			decls = append(decls, &nd)
		}
	}
	decls = append(decls, r.reinits...)
	r.reinits = nil
	if len(r.bad) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(r.bad, "; "))
	}
	// which of the original imports are still referred to
	still := map[string]bool{}
	for _, d := range decls {
		ast.Inspect(d, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				still[id.Name] = true
			}
			return true
		})
	}
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "package %s\n\nimport (\n", f.Name.Name)
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		} else if o, ok := r.Info.Implicits[im].(*types.PkgName); ok {
			name = o.Imported().Name()
		}
		if name == "_" || name == "." {
			fmt.Fprintf(&buf, "\t%s %s\n", name, im.Path.Value)
			continue
		}
		if !still[name] {
			// keep the side effects of the import
			if _, ok := r.Shims[path]; !ok {
				fmt.Fprintf(&buf, "\t_ %s\n", im.Path.Value)
			}
			continue
		}
		fmt.Fprintf(&buf, "\t%s %s\n", name, im.Path.Value)
	}
	var paths []string
	for p := range r.used {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		fmt.Fprintf(&buf, "\t%s %q\n", r.used[p], p)
	}
	fmt.Fprintf(&buf, "\tvsimrt \"vsim/rt\"\n)\n\nvar _ = vsimrt.Active\n\n")
	var initRegs []string
	for _, g := range r.globals {
		initRegs = append(initRegs, "vsimrt.RegisterGlobal(&"+g+")")
	}
	r.globals = nil
	if len(initRegs) > 0 {
		fmt.Fprintf(&buf, "func init() {\n\t%s\n}\n\n", strings.Join(initRegs, "\n\t"))
	}
	for _, d := range decls {
		strip(d)
		if err := format.Node(&buf, token.NewFileSet(), d); err != nil {
			return nil, err
		}
		buf.WriteString("\n\n")
	}
	out, err := format.Source(buf.Bytes())
	if err != nil {
		return buf.Bytes(), fmt.Errorf("rewritten source does not parse: %v", err)
	}
	return out, nil
}

// strip removes comments from a declaration.
func strip(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.FuncDecl:
			x.Doc = nil
		}
		return true
	})
}

// analyse finds the local variables that more than one function can reach.
func (r *Rewriter) analyse(f *ast.File) {
	owner := map[types.Object]ast.Node{}
	var walk func(n ast.Node, fn ast.Node)
	noShare := map[types.Object]bool{}
	walk = func(n ast.Node, fn ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				if m == n {
					return true
				}
				walk(x, x)
				return false
			case *ast.ForStmt:
				if as, ok := x.Init.(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
					for _, l := range as.Lhs {
						if id, ok := l.(*ast.Ident); ok {
							if o := r.Info.Defs[id]; o != nil {
								noShare[o] = true
							}
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if id := root(x.X); id != nil {
						if o, ok := r.Info.Uses[id].(*types.Var); ok {
							r.shared[o] = true
						}
					}
				}
			case *ast.Ident:
				if o := r.Info.Defs[x]; o != nil {
					owner[o] = fn
				}
				if o, ok := r.Info.Uses[x].(*types.Var); ok && !o.IsField() {
					if w, ok := owner[o]; ok && w != fn {
						r.shared[o] = true
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		walk(d, d)
	}
	for o := range noShare {
		delete(r.shared, o)
	}
}

func root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func (r *Rewriter) site(n ast.Node) ast.Expr {
	p := r.Fset.Position(n.Pos())
	file := p.Filename
	if r.BaseDir != "" {
		if rel, err := filepath.Rel(r.BaseDir, file); err == nil {
			file = rel
		}
	}
	return intLit(r.Sites.id(fmt.Sprintf("%s:%d", file, p.Line)))
}

func intLit(i int) ast.Expr  { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }
func id(s string) *ast.Ident { return ast.NewIdent(s) }

func rtSel(name string) ast.Expr { return &ast.SelectorExpr{X: id("vsimrt"), Sel: id(name)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *Rewriter) fresh(p string) string {
	r.tmp++
	return fmt.Sprintf("_vs%s%d", p, r.tmp)
}

func (r *Rewriter) fail(n ast.Node, format string, args ...any) {
	r.bad = append(r.bad, r.Fset.Position(n.Pos()).String()+": "+fmt.Sprintf(format, args...))
}

func (r *Rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.Info.Types[e]; ok {
		return tv.Type
	}
	if x, ok := e.(*ast.Ident); ok {
		if o := r.Info.ObjectOf(x); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		if c, ok := tp.Constraint().Underlying().(*types.Interface); ok && c.NumEmbeddeds() == 1 {
			if un, ok := c.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
				return un.Term(0).Type().Underlying()
			}
			return c.EmbeddedType(0).Underlying()
		}
	}
	return u
}

func isMap(t types.Type) bool   { _, ok := under(t).(*types.Map); return ok }
func isChan(t types.Type) bool  { _, ok := under(t).(*types.Chan); return ok }
func isPtr(t types.Type) bool   { _, ok := under(t).(*types.Pointer); return ok }
func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }
func isArray(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }

func (r *Rewriter) isType(e ast.Expr) bool {
	tv, ok := r.Info.Types[e]
	return ok && tv.IsType()
}

func (r *Rewriter) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	x, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.Info.Uses[x].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// sharedPath reports whether e denotes memory that other goroutines may reach.
func (r *Rewriter) sharedPath(e ast.Expr) bool {
	if r.NoMem {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.sharedPath(x.X)
	case *ast.Ident:
		o, ok := r.Info.ObjectOf(x).(*types.Var)
		if !ok || x.Name == "_" {
			return false
		}
		if o.Parent() == r.Pkg.Scope() {
			return true
		}
		return r.shared[o]
	case *ast.SelectorExpr:
		if sel, ok := r.Info.Selections[x]; ok {
			if sel.Kind() != types.FieldVal {
				return false
			}
			if isPtr(r.typeOf(x.X)) || sel.Indirect() {
				return true
			}
			return r.sharedPath(x.X)
		}
		if o, ok := r.Info.Uses[x.Sel].(*types.Var); ok { // variable of another package
			_, shimmed := r.Shims[o.Pkg().Path()]
			return !shimmed || !r.Shims[o.Pkg().Path()].Names[o.Name()]
		}
		return false
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if isSlice(t) {
			return true
		}
		if isPtr(t) {
			return true
		}
		if isArray(t) {
			return r.sharedPath(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func (r *Rewriter) read(e ast.Expr, lv ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(rtSel("R"), addr(lv), r.site(e))}}
}

func addr(lv ast.Expr) ast.Expr {
	if s, ok := lv.(*ast.StarExpr); ok {
		return s.X
	}
	return &ast.UnaryExpr{Op: token.AND, X: lv}
}

// lvalue rewrites e so that it still denotes a variable.
func (r *Rewriter) lvalue(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.lvalue(x.X)}
	case *ast.SelectorExpr:
		if sel, ok := r.Info.Selections[x]; ok {
			if isPtr(r.typeOf(x.X)) {
				return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
			}
			_ = sel
			return &ast.SelectorExpr{X: r.lvalue(x.X), Sel: x.Sel}
		}
		return r.qualified(x)
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if isArray(t) {
			return &ast.IndexExpr{X: r.lvalue(x.X), Index: r.expr(x.Index)}
		}
		return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.expr(x.X)}
	}
	return r.expr(e)
}

// qualified handles pkg.Name.
func (r *Rewriter) qualified(x *ast.SelectorExpr) ast.Expr {
	pid, ok := x.X.(*ast.Ident)
	if !ok {
		return x
	}
	pn, ok := r.Info.Uses[pid].(*types.PkgName)
	if !ok {
		return x
	}
	path := pn.Imported().Path()
	sh, ok := r.Shims[path]
	if !ok || !sh.Names[x.Sel.Name] {
		return x
	}
	alias := r.used[sh.Path]
	if alias == "" {
		alias = "_shim_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(path)
		r.used[sh.Path] = alias
	}
	return &ast.SelectorExpr{X: id(alias), Sel: id(x.Sel.Name)}
}

func (r *Rewriter) exprs(es []ast.Expr) []ast.Expr {
	if len(es) == 0 {
		return nil
	}
	out := make([]ast.Expr, len(es))
	for i, e := range es {
		out[i] = r.expr(e)
	}
	return out
}

// expr rewrites e as a value (or a type).
func (r *Rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv, known := r.Info.Types[e]
	if known && tv.IsType() {
		return r.typ(e)
	}
	if known && tv.Value != nil {
		return r.typ(e) // constants: only qualified names change
	}
	switch x := e.(type) {
	case *ast.Ident:
		if o, ok := r.Info.ObjectOf(x).(*types.Var); ok && !o.IsField() && r.sharedPath(x) {
			return r.read(x, x)
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.expr(x.X)}
	case *ast.SelectorExpr:
		sel, ok := r.Info.Selections[x]
		if !ok {
			q := r.qualified(x)
			if q == ast.Expr(x) && r.sharedPath(x) {
				return r.read(x, x)
			}
			return q
		}
		switch sel.Kind() {
		case types.FieldVal:
			if r.sharedPath(x) && (isPtr(r.typeOf(x.X)) || r.addressable(x.X)) {
				return r.read(x, r.lvalue(x))
			}
			return &ast.SelectorExpr{X: r.base(x.X), Sel: x.Sel}
		case types.MethodExpr:
			return &ast.SelectorExpr{X: r.typ(x.X), Sel: x.Sel}
		default:
			return &ast.SelectorExpr{X: r.receiver(x, sel), Sel: x.Sel}
		}
	case *ast.IndexExpr:
		if tvx, ok := r.Info.Types[x.X]; ok && !tvx.IsValue() || r.isType(x.Index) {
			return &ast.IndexExpr{X: r.expr(x.X), Index: r.typ(x.Index)}
		}
		t := r.typeOf(x.X)
		switch {
		case isMap(t):
			return &ast.IndexExpr{X: r.mapRead(x.X), Index: r.expr(x.Index)}
		case isSlice(t) || isPtr(t):
			if r.NoMem {
				return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
			}
			return r.read(x, r.lvalue(x))
		case isArray(t):
			if r.addressable(x.X) {
				if r.sharedPath(x.X) {
					return r.read(x, r.lvalue(x))
				}
				return &ast.IndexExpr{X: r.lvalue(x.X), Index: r.expr(x.Index)}
			}
		}
		return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
	case *ast.IndexListExpr:
		n := &ast.IndexListExpr{X: r.expr(x.X)}
		for _, i := range x.Indices {
			n.Indices = append(n.Indices, r.typ(i))
		}
		return n
	case *ast.StarExpr:
		if r.NoMem {
			return &ast.StarExpr{X: r.expr(x.X)}
		}
		return r.read(x, &ast.StarExpr{X: r.expr(x.X)})
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: token.AND, X: r.expr(x.X)}
			}
			return &ast.UnaryExpr{Op: token.AND, X: r.lvalue(x.X)}
		case token.ARROW:
			return call(rtSel("Recv"), r.expr(x.X))
		}
		return &ast.UnaryExpr{Op: x.Op, X: r.expr(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(x.X), Op: x.Op, Y: r.expr(x.Y)}
	case *ast.CallExpr:
		return r.call(x)
	case *ast.FuncLit:
		return &ast.FuncLit{Type: r.typ(x.Type).(*ast.FuncType), Body: r.block(x.Body)}
	case *ast.CompositeLit:
		n := &ast.CompositeLit{}
		if x.Type != nil {
			n.Type = r.typ(x.Type)
		}
		_, isStruct := under(deref(r.typeOf(x))).(*types.Struct)
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = r.expr(k)
				}
				n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: k, Value: r.expr(kv.Value)})
				continue
			}
			n.Elts = append(n.Elts, r.expr(el))
		}
		return n
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: r.expr(x.Key), Value: r.expr(x.Value)}
	case *ast.TypeAssertExpr:
		n := &ast.TypeAssertExpr{X: r.expr(x.X)}
		if x.Type != nil {
			n.Type = r.typ(x.Type)
		}
		return n
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Low: r.expr(x.Low), High: r.expr(x.High), Max: r.expr(x.Max), Slice3: x.Slice3}
		if isArray(r.typeOf(x.X)) {
			n.X = r.lvalue(x.X)
		} else {
			n.X = r.expr(x.X)
		}
		return n
	case *ast.Ellipsis:
		return &ast.Ellipsis{Elt: r.typ(x.Elt)}
	}
	return r.typ(e)
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// base rewrites the operand of a field selection that is not itself noted.
func (r *Rewriter) base(e ast.Expr) ast.Expr {
	if r.addressable(e) && !isPtr(r.typeOf(e)) {
		return r.lvalue(e)
	}
	return r.expr(e)
}

func (r *Rewriter) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.Ident:
		_, ok := r.Info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if sel, ok := r.Info.Selections[x]; ok {
			return sel.Kind() == types.FieldVal && (isPtr(r.typeOf(x.X)) || r.addressable(x.X))
		}
		_, ok := r.Info.Uses[x.Sel].(*types.Var)
		return ok
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		return isSlice(t) || isPtr(t) || isArray(t) && r.addressable(x.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

// receiver rewrites the operand of a method selection.
func (r *Rewriter) receiver(x *ast.SelectorExpr, sel *types.Selection) ast.Expr {
	if f, ok := sel.Obj().(*types.Func); ok {
		sig := f.Type().(*types.Signature)
		if sig.Recv() != nil {
			recvPtr := isPtr(sig.Recv().Type())
			if recvPtr && !isPtr(r.typeOf(x.X)) && r.addressable(x.X) {
				return r.lvalue(x.X)
			}
			// promoted through embedded fields of an addressable struct
			if len(sel.Index()) > 1 && !isPtr(r.typeOf(x.X)) && r.addressable(x.X) {
				return r.lvalue(x.X)
			}
		}
	}
	return r.expr(x.X)
}

func (r *Rewriter) mapRead(m ast.Expr) ast.Expr {
	if r.NoMem {
		return r.expr(m)
	}
	return call(rtSel("RMap"), r.expr(m), r.site(m))
}

func (r *Rewriter) mapWrite(m ast.Expr) ast.Expr {
	if r.NoMem {
		return r.expr(m)
	}
	return call(rtSel("WMap"), r.expr(m), r.site(m))
}

func (r *Rewriter) call(x *ast.CallExpr) ast.Expr {
	if r.isType(x.Fun) { // conversion
		return &ast.CallExpr{Fun: r.typ(x.Fun), Args: r.exprs(x.Args)}
	}
	n := &ast.CallExpr{Ellipsis: x.Ellipsis}
	switch r.builtin(x.Fun) {
	case "":
		n.Fun = r.expr(x.Fun)
		n.Args = r.exprs(x.Args)
		return n
	case "close":
		return call(rtSel("Close"), r.exprs(x.Args)...)
	case "len":
		if isChan(r.typeOf(x.Args[0])) {
			return call(rtSel("Len"), r.exprs(x.Args)...)
		}
		if isMap(r.typeOf(x.Args[0])) {
			return call(id("len"), r.mapRead(x.Args[0]))
		}
		if isArray(r.typeOf(x.Args[0])) {
			return call(id("len"), r.lvalue(x.Args[0]))
		}
	case "delete":
		return call(id("delete"), r.mapWrite(x.Args[0]), r.expr(x.Args[1]))
	case "clear":
		if isMap(r.typeOf(x.Args[0])) {
			return call(id("clear"), r.mapWrite(x.Args[0]))
		}
	case "append":
		if !r.NoMem && len(x.Args) > 1 && isSlice(r.typeOf(x.Args[0])) {
			if x.Ellipsis.IsValid() && !isSlice(r.typeOf(x.Args[1])) {
				break // append([]byte, string...)
			}
			if tv := r.Info.Types[x.Args[0]]; tv.IsNil() {
				break
			}
			c := call(call(rtSel("Append"), r.expr(x.Args[0]), r.site(x)), r.exprs(x.Args[1:])...)
			c.Ellipsis = x.Ellipsis
			return c
		}
	case "make", "new":
		n.Fun = x.Fun
		n.Args = append(n.Args, r.typ(x.Args[0]))
		n.Args = append(n.Args, r.exprs(x.Args[1:])...)
		return n
	}
	n.Fun = x.Fun
	n.Args = r.exprs(x.Args)
	return n
}

func (r *Rewriter) fieldList(fl *ast.FieldList) *ast.FieldList {
	if fl == nil {
		return nil
	}
	n := &ast.FieldList{Opening: 1, Closing: 1}
	for _, f := range fl.List {
		n.List = append(n.List, &ast.Field{Names: f.Names, Type: r.typ(f.Type), Tag: f.Tag})
	}
	return n
}

// typ rewrites a type expression (or a constant): only qualified identifiers change.
func (r *Rewriter) typ(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if _, ok := r.Info.Selections[x]; ok {
			return x
		}
		return r.qualified(x)
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.typ(x.X)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.typ(x.X)}
	case *ast.ArrayType:
		return &ast.ArrayType{Len: r.typ(x.Len), Elt: r.typ(x.Elt)}
	case *ast.MapType:
		return &ast.MapType{Key: r.typ(x.Key), Value: r.typ(x.Value)}
	case *ast.ChanType:
		return &ast.ChanType{Dir: x.Dir, Value: r.typ(x.Value), Arrow: x.Arrow}
	case *ast.FuncType:
		return &ast.FuncType{Func: x.Func, TypeParams: r.fieldList(x.TypeParams), Params: r.fieldList(x.Params), Results: r.fieldList(x.Results)}
	case *ast.StructType:
		return &ast.StructType{Fields: r.fieldList(x.Fields)}
	case *ast.InterfaceType:
		return &ast.InterfaceType{Methods: r.fieldList(x.Methods)}
	case *ast.Ellipsis:
		return &ast.Ellipsis{Elt: r.typ(x.Elt)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: r.typ(x.X), Index: r.typ(x.Index)}
	case *ast.IndexListExpr:
		n := &ast.IndexListExpr{X: r.typ(x.X)}
		for _, i := range x.Indices {
			n.Indices = append(n.Indices, r.typ(i))
		}
		return n
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.typ(x.X), Op: x.Op, Y: r.typ(x.Y)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: x.Op, X: r.typ(x.X)}
	case *ast.CallExpr:
		n := &ast.CallExpr{Fun: r.typ(x.Fun), Ellipsis: x.Ellipsis}
		for _, a := range x.Args {
			n.Args = append(n.Args, r.typ(a))
		}
		return n
	}
	return e
}

func (r *Rewriter) genDecl(d *ast.GenDecl, top bool) *ast.GenDecl {
	n := &ast.GenDecl{Tok: d.Tok, Lparen: d.Lparen, Rparen: d.Rparen}
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.TypeSpec:
			n.Specs = append(n.Specs, &ast.TypeSpec{Name: s.Name, TypeParams: r.fieldList(s.TypeParams), Assign: s.Assign, Type: r.typ(s.Type)})
		case *ast.ValueSpec:
			v := &ast.ValueSpec{Names: s.Names, Type: r.typ(s.Type)}
			if d.Tok == token.CONST {
				for _, e := range s.Values {
					v.Values = append(v.Values, r.typ(e))
				}
			} else {
				v.Values = r.valueForms(s.Values, len(s.Names))
				if top {
					for _, nm := range s.Names {
						if nm.Name == "_" {
							continue
						}
						if r.Reinit {
							r.vars = append(r.vars, nm.Name)
						} else {
							r.globals = append(r.globals, nm.Name)
						}
					}
					r.again(s, v.Values)
				}
			}
			n.Specs = append(n.Specs, v)
		}
	}
	if len(n.Specs) > 1 && !n.Lparen.IsValid() {
		n.Lparen = 1
	}
	return n
}

// again keeps the initialisers of package variables for a further use.
func (r *Rewriter) again(s *ast.ValueSpec, values []ast.Expr) {
	if !r.Reinit || len(values) == 0 {
		return
	}
	add := func(lhs []*ast.Ident, orig, value ast.Expr) {
		var l []ast.Expr
		for _, nm := range lhs {
			l = append(l, ast.NewIdent(nm.Name))
		}
		name := fmt.Sprintf("vsimVar%d", len(r.reinit))
		r.reinit[orig] = name
		set := &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: []ast.Expr{value}}
		r.reinits = append(r.reinits, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{set}}})
	}
	if len(s.Values) == len(s.Names) {
		for i := range s.Values {
			if s.Names[i].Name != "_" {
				add(s.Names[i:i+1], s.Values[i], values[i])
			}
		}
		return
	}
	add(s.Names, s.Values[0], values[0])
}

// reinitFile is a source that registers how the package's variables are initialised again, like at the start of a process.
// inits are the names given to its init functions.
func (r *Rewriter) reinitFile(pkg string, inits []string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport vsimrt \"vsim/rt\"\n\nfunc init() {\n", pkg)
	for _, i := range inits {
		fmt.Fprintf(&b, "\t%s()\n", i)
	}
	fmt.Fprintf(&b, "\tvsimrt.RegisterReinit(func() {\n")
	for _, v := range r.vars {
		fmt.Fprintf(&b, "\t\tvsimrt.Zero(&%s)\n", v)
	}
	for _, i := range r.Info.InitOrder {
		if f := r.reinit[i.Rhs]; f != "" {
			fmt.Fprintf(&b, "\t\t%s()\n", f)
		}
	}
	for _, i := range inits {
		fmt.Fprintf(&b, "\t\t%s()\n", i)
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	return b.Bytes()
}

// valueForms rewrites right-hand sides, with the comma-ok receive handled.
func (r *Rewriter) valueForms(rhs []ast.Expr, nl int) []ast.Expr {
	if nl == 2 && len(rhs) == 1 {
		if u, ok := unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return []ast.Expr{call(rtSel("Recv2"), r.expr(u.X))}
		}
	}
	return r.exprs(rhs)
}
