package rewrite

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (r *Rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.stmts(b.List)}
}

func (r *Rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if !r.NoMem && r.wantsPoint(s) {
			out = append(out, &ast.ExprStmt{X: call(rtSel("Point"), r.site(s))})
		}
		out = append(out, r.stmt(s)...)
	}
	return out
}

// wantsPoint: statements that call something get a possible preemption before them.
func (r *Rewriter) wantsPoint(s ast.Stmt) bool {
	var nodes []ast.Node
	switch x := s.(type) {
	case *ast.ExprStmt:
		nodes = append(nodes, x)
	case *ast.AssignStmt:
		nodes = append(nodes, x)
	case *ast.ReturnStmt:
		nodes = append(nodes, x)
	case *ast.DeferStmt:
		nodes = append(nodes, x)
	case *ast.IfStmt:
		if x.Init != nil {
			nodes = append(nodes, x.Init)
		}
		nodes = append(nodes, x.Cond)
	default:
		return false
	}
	found := false
	for _, n := range nodes {
		ast.Inspect(n, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				return false
			}
			if c, ok := n.(*ast.CallExpr); ok && !r.isType(c.Fun) && r.builtin(c.Fun) == "" {
				found = true
			}
			return !found
		})
	}
	return found
}

func blk(l []ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: l} }

func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

// stmt rewrites one statement; the result may be several.
func (r *Rewriter) stmt(s ast.Stmt) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.EmptyStmt, *ast.BranchStmt:
		return one(s)
	case *ast.ExprStmt:
		e := r.expr(x.X)
		if p, ok := e.(*ast.ParenExpr); ok { // a bare deref
			if _, ok := p.X.(*ast.StarExpr); ok {
				return one(&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}})
			}
		}
		return one(&ast.ExprStmt{X: e})
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: call(call(rtSel("SendTo"), r.expr(x.Chan)), r.expr(x.Value))})
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return r.opAssign(x, x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}, true, x.Tok)
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		c, ok := r.call(x.Call).(*ast.CallExpr)
		if !ok {
			r.fail(x, "unsupported defer")
			return nil
		}
		return one(&ast.DeferStmt{Call: c})
	case *ast.ReturnStmt:
		return one(&ast.ReturnStmt{Results: r.exprs(x.Results)})
	case *ast.BlockStmt:
		return one(r.block(x))
	case *ast.IfStmt:
		n := &ast.IfStmt{Cond: r.expr(x.Cond), Body: r.block(x.Body)}
		if x.Else != nil {
			e := r.stmt(x.Else)
			if len(e) == 1 {
				switch e[0].(type) {
				case *ast.IfStmt, *ast.BlockStmt:
					n.Else = e[0]
				default:
					n.Else = blk(e)
				}
			} else {
				n.Else = blk(e)
			}
		}
		return r.withInit(x.Init, n, func(s ast.Stmt) { n.Init = s })
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Tag: r.expr(x.Tag), Body: r.clauses(x.Body)}
		return r.withInit(x.Init, n, func(s ast.Stmt) { n.Init = s })
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Body: r.clauses(x.Body)}
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			n.Assign = &ast.ExprStmt{X: r.expr(a.X)}
		case *ast.AssignStmt:
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: r.exprs(a.Rhs)}
		}
		return r.withInit(x.Init, n, func(s ast.Stmt) { n.Init = s })
	case *ast.ForStmt:
		n := &ast.ForStmt{Cond: r.expr(x.Cond), Body: r.block(x.Body)}
		// a loop without synchronisation must not run outside the scheduler's control
		n.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call(rtSel("Preempt"), &ast.BasicLit{Kind: token.STRING, Value: `"loop"`})}}, n.Body.List...)
		if x.Post != nil {
			p := r.stmt(x.Post)
			if len(p) == 1 && simple(p[0]) {
				n.Post = p[0]
			} else {
				n.Post = x.Post
			}
		}
		return r.withInit(x.Init, n, func(s ast.Stmt) { n.Init = s })
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.LabeledStmt:
		in := r.stmt(x.Stmt)
		if len(in) == 0 {
			return one(&ast.LabeledStmt{Label: x.Label, Stmt: &ast.EmptyStmt{}})
		}
		// a block wrapped around the labelled statement: put the label inside
		if len(in) == 1 {
			if b, ok := in[0].(*ast.BlockStmt); ok {
				if _, was := x.Stmt.(*ast.BlockStmt); !was {
					last := len(b.List) - 1
					b.List[last] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[last]}
					return one(b)
				}
			}
		}
		last := len(in) - 1
		in[last] = &ast.LabeledStmt{Label: x.Label, Stmt: in[last]}
		return in
	case *ast.DeclStmt:
		if d, ok := x.Decl.(*ast.GenDecl); ok {
			return one(&ast.DeclStmt{Decl: r.genDecl(d, false)})
		}
		return one(x)
	case *ast.CaseClause, *ast.CommClause:
		return one(s)
	}
	r.fail(s, "unsupported statement %T", s)
	return one(s)
}

func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.EmptyStmt:
		return true
	}
	return false
}

// withInit attaches a rewritten init statement, or hoists it when it became several.
func (r *Rewriter) withInit(init ast.Stmt, n ast.Stmt, set func(ast.Stmt)) []ast.Stmt {
	if init == nil {
		return []ast.Stmt{n}
	}
	in := r.stmt(init)
	if len(in) == 1 && simple(in[0]) {
		set(in[0])
		return []ast.Stmt{n}
	}
	return []ast.Stmt{blk(append(in, n))}
}

func (r *Rewriter) clauses(b *ast.BlockStmt) *ast.BlockStmt {
	n := &ast.BlockStmt{}
	for _, s := range b.List {
		c := s.(*ast.CaseClause)
		n.List = append(n.List, &ast.CaseClause{List: r.exprs(c.List), Body: r.stmts(c.Body)})
	}
	return n
}

func (r *Rewriter) isBlank(e ast.Expr) bool {
	x, ok := unparen(e).(*ast.Ident)
	return ok && x.Name == "_"
}

func (r *Rewriter) isMapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	x, ok := unparen(e).(*ast.IndexExpr)
	if ok && isMap(r.typeOf(x.X)) {
		return x, true
	}
	return nil, false
}

// setOne is the assignment of an already rewritten value to lhs.
func (r *Rewriter) setOne(lhs, v ast.Expr) ast.Stmt {
	if r.isBlank(lhs) {
		return &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
	}
	if m, ok := r.isMapIndex(lhs); ok {
		if r.NoMem {
			return &ast.AssignStmt{Lhs: []ast.Expr{&ast.IndexExpr{X: r.expr(m.X), Index: r.expr(m.Index)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
		}
		return &ast.ExprStmt{X: call(call(rtSel("SetM"), r.expr(m.X), r.site(lhs)), r.expr(m.Index), v)}
	}
	if r.sharedPath(lhs) {
		return &ast.ExprStmt{X: call(call(rtSel("SetP"), addr(r.lvalue(unparen(lhs))), r.site(lhs)), v)}
	}
	return &ast.AssignStmt{Lhs: []ast.Expr{r.lvalue(lhs)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
}

func (r *Rewriter) plainLHS(e ast.Expr) bool {
	if r.isBlank(e) {
		return true
	}
	if _, ok := r.isMapIndex(e); ok {
		return r.NoMem
	}
	return !r.sharedPath(e)
}

func (r *Rewriter) assign(x *ast.AssignStmt) []ast.Stmt {
	if x.Tok == token.DEFINE {
		return []ast.Stmt{&ast.AssignStmt{Lhs: x.Lhs, Tok: token.DEFINE, Rhs: r.valueForms(x.Rhs, len(x.Lhs))}}
	}
	if x.Tok != token.ASSIGN {
		op := x.Tok - token.ADD_ASSIGN + token.ADD
		return r.opAssign(x, x.Lhs[0], op, x.Rhs[0], false, x.Tok)
	}
	if len(x.Lhs) == 1 {
		return []ast.Stmt{r.setOne(x.Lhs[0], r.expr(x.Rhs[0]))}
	}
	plain := true
	for _, l := range x.Lhs {
		plain = plain && r.plainLHS(l)
	}
	if plain {
		n := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: r.valueForms(x.Rhs, len(x.Lhs))}
		for _, l := range x.Lhs {
			if r.isBlank(l) {
				n.Lhs = append(n.Lhs, l)
			} else {
				n.Lhs = append(n.Lhs, r.lvalue(l))
			}
		}
		return []ast.Stmt{n}
	}
	if len(x.Rhs) == 1 {
		anyMap := false
		for _, l := range x.Lhs {
			if _, ok := r.isMapIndex(l); ok {
				anyMap = true
			}
		}
		_, isCall := unparen(x.Rhs[0]).(*ast.CallExpr)
		if isCall && !anyMap && len(x.Lhs) <= 5 {
			var args []ast.Expr
			for _, l := range x.Lhs {
				if r.isBlank(l) {
					args = append(args, rtSel("Discard"))
				} else {
					args = append(args, addr(r.lvalue(unparen(l))))
				}
			}
			args = append(args, r.site(x))
			name := "Set" + string(rune('0'+len(x.Lhs)))
			return []ast.Stmt{&ast.ExprStmt{X: call(call(rtSel(name), args...), r.expr(x.Rhs[0]))}}
		}
		def := &ast.AssignStmt{Tok: token.DEFINE, Rhs: r.valueForms(x.Rhs, len(x.Lhs))}
		out := []ast.Stmt{def}
		for _, l := range x.Lhs {
			if r.isBlank(l) {
				def.Lhs = append(def.Lhs, id("_"))
				continue
			}
			t := r.fresh("t")
			def.Lhs = append(def.Lhs, id(t))
			out = append(out, r.setOne(l, id(t)))
		}
		return []ast.Stmt{blk(out)}
	}
	var out, sets []ast.Stmt
	for i, l := range x.Lhs {
		tv := r.Info.Types[x.Rhs[i]]
		v := r.expr(x.Rhs[i])
		if tv.Value == nil && !tv.IsNil() {
			t := r.fresh("t")
			out = append(out, define(t, v))
			v = id(t)
		}
		sets = append(sets, r.setOne(l, v))
	}
	return []ast.Stmt{blk(append(out, sets...))}
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (r *Rewriter) opAssign(n ast.Stmt, lhs ast.Expr, op token.Token, rhs ast.Expr, inc bool, tok token.Token) []ast.Stmt {
	if m, ok := r.isMapIndex(lhs); ok {
		l := &ast.IndexExpr{X: r.mapWrite(m.X), Index: r.expr(m.Index)}
		if inc {
			return []ast.Stmt{&ast.IncDecStmt{X: l, Tok: tok}}
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: tok, Rhs: []ast.Expr{r.expr(rhs)}}}
	}
	if !r.sharedPath(lhs) {
		if inc {
			return []ast.Stmt{&ast.IncDecStmt{X: r.lvalue(lhs), Tok: tok}}
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{r.lvalue(lhs)}, Tok: tok, Rhs: []ast.Expr{r.expr(rhs)}}}
	}
	var y ast.Expr = rhs
	if !inc {
		y = &ast.ParenExpr{X: r.expr(rhs)}
	}
	if pure(lhs) {
		cur := r.read(lhs, r.lvalue(unparen(lhs)))
		return []ast.Stmt{&ast.ExprStmt{X: call(call(rtSel("SetP"), addr(r.lvalue(unparen(lhs))), r.site(lhs)), &ast.BinaryExpr{X: cur, Op: op, Y: y})}}
	}
	p := r.fresh("p")
	return []ast.Stmt{blk([]ast.Stmt{
		define(p, addr(r.lvalue(unparen(lhs)))),
		&ast.ExprStmt{X: call(call(rtSel("SetP"), id(p), r.site(lhs)), &ast.BinaryExpr{X: &ast.ParenExpr{X: &ast.StarExpr{X: call(rtSel("R"), id(p), r.site(lhs))}}, Op: op, Y: y})},
	})}
}

func (r *Rewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	var pre []ast.Stmt
	var args []ast.Expr
	for _, a := range c.Args {
		tv := r.Info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, r.expr(a))
			continue
		}
		if _, ok := unparen(a).(*ast.FuncLit); ok {
			args = append(args, r.expr(a))
			continue
		}
		t := r.fresh("a")
		pre = append(pre, define(t, r.expr(a)))
		args = append(args, id(t))
	}
	var inner *ast.CallExpr
	if b := r.builtin(c.Fun); b != "" {
		r.fail(x, "go with a builtin is not supported")
		return nil
	}
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok {
		lit := r.expr(fl).(*ast.FuncLit)
		if len(args) == 0 && lit.Type.Results == nil {
			return []ast.Stmt{&ast.ExprStmt{X: call(rtSel("Go"), lit)}}
		}
		inner = &ast.CallExpr{Fun: &ast.ParenExpr{X: lit}, Args: args}
	} else {
		fun := r.expr(c.Fun)
		isFunc := false
		switch f := unparen(c.Fun).(type) {
		case *ast.Ident:
			_, isFunc = r.Info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			if _, sel := r.Info.Selections[f]; !sel {
				_, isFunc = r.Info.Uses[f.Sel].(*types.Func)
			}
		case *ast.IndexExpr, *ast.IndexListExpr:
			isFunc = true
		}
		if !isFunc {
			t := r.fresh("f")
			pre = append([]ast.Stmt{define(t, fun)}, pre...)
			fun = id(t)
		}
		inner = &ast.CallExpr{Fun: fun, Args: args}
	}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	g := &ast.ExprStmt{X: call(rtSel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blk([]ast.Stmt{&ast.ExprStmt{X: inner}})})}
	if len(pre) == 0 {
		return []ast.Stmt{g}
	}
	return []ast.Stmt{blk(append(pre, g))}
}

func (r *Rewriter) rangeStmt(x *ast.RangeStmt) []ast.Stmt {
	n := &ast.RangeStmt{Key: x.Key, Value: x.Value, Tok: x.Tok, Body: r.block(x.Body)}
	if x.Tok == token.ASSIGN {
		if x.Key != nil && !r.isBlank(x.Key) {
			n.Key = r.lvalue(x.Key)
		}
		if x.Value != nil && !r.isBlank(x.Value) {
			n.Value = r.lvalue(x.Value)
		}
	}
	t := r.typeOf(x.X)
	switch {
	case isMap(t):
		n.X = call(rtSel("RangeMap"), r.expr(x.X), r.site(x))
	case isChan(t):
		n.X = call(rtSel("RangeChan"), r.expr(x.X))
	case isArray(t):
		if r.addressable(x.X) {
			n.X = r.lvalue(x.X)
		} else {
			n.X = r.expr(x.X)
		}
	default:
		n.X = r.expr(x.X)
	}
	return []ast.Stmt{n}
}

func (r *Rewriter) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := "false"
	sel := r.fresh("s")
	var def *ast.CaseClause
	k := 0
	chanVar := func(ch ast.Expr) string {
		c := r.fresh("c")
		pre = append(pre, define(c, r.expr(ch)))
		return c
	}
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		body := r.stmts(cc.Body)
		if cc.Comm == nil {
			hasDef = "true"
			def = &ast.CaseClause{Body: body}
			continue
		}
		clause := &ast.CaseClause{List: []ast.Expr{intLit(k)}}
		k++
		var recvFrom func(e ast.Expr) string
		recvFrom = func(e ast.Expr) string {
			u, ok := unparen(e).(*ast.UnaryExpr)
			if !ok {
				r.fail(cc, "unsupported communication clause")
				return "_"
			}
			c := chanVar(u.X)
			cases = append(cases, call(rtSel("RecvCase"), id(c)))
			return c
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			c := chanVar(cm.Chan)
			tv := r.Info.Types[cm.Value]
			v := r.expr(cm.Value)
			if tv.Value == nil && !tv.IsNil() {
				t := r.fresh("v")
				pre = append(pre, define(t, v))
				v = id(t)
			}
			cases = append(cases, call(call(rtSel("SendCase"), id(c)), v))
		case *ast.ExprStmt:
			recvFrom(cm.X)
		case *ast.AssignStmt:
			c := recvFrom(cm.Rhs[0])
			v := call(rtSel("Val"), id(c), id(sel))
			ok := &ast.SelectorExpr{X: id(sel), Sel: id("Ok")}
			if cm.Tok == token.DEFINE {
				d := &ast.AssignStmt{Tok: token.DEFINE, Lhs: cm.Lhs, Rhs: []ast.Expr{v}}
				if len(cm.Lhs) == 2 {
					d.Rhs = append(d.Rhs, ok)
				}
				clause.Body = append(clause.Body, d)
			} else {
				clause.Body = append(clause.Body, r.setOne(cm.Lhs[0], v))
				if len(cm.Lhs) == 2 {
					clause.Body = append(clause.Body, r.setOne(cm.Lhs[1], ok))
				}
			}
		}
		clause.Body = append(clause.Body, body...)
		sw.Body.List = append(sw.Body.List, clause)
	}
	if def == nil {
		def = &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"rt: unreachable"`})}}}
	}
	sw.Body.List = append(sw.Body.List, def)
	args := append([]ast.Expr{id(hasDef)}, cases...)
	sw.Init = define(sel, call(rtSel("Select"), args...))
	sw.Tag = &ast.SelectorExpr{X: id(sel), Sel: id("I")}
	return []ast.Stmt{blk(append(pre, sw))}
}
