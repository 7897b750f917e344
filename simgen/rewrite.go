package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"hash/fnv"
	"reflect"
	"strconv"
)

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

func (r *rw) exprs(l []ast.Expr) {
	for i, e := range l {
		l[i] = r.expr(e)
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// a type parameter with a single underlying type
		if u, ok := tp.Underlying().(*types.Interface); ok && u.NumEmbeddeds() == 1 {
			if un, ok := u.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
				return un.Term(0).Type().Underlying()
			}
		}
	}
	return t.Underlying()
}

func (r *rw) isMap(e ast.Expr) bool  { _, ok := core(r.typeOf(e)).(*types.Map); return ok }
func (r *rw) isChan(e ast.Expr) bool { _, ok := core(r.typeOf(e)).(*types.Chan); return ok }

func (r *rw) builtin(f ast.Expr) string {
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if id, ok := f.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.block(e.Body)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			two := r.two[e]
			ch := r.expr(e.X)
			if two {
				return call(simSel("Recv2"), ch)
			}
			return call(simSel("Recv"), ch)
		}
	case *ast.CallExpr:
		switch r.builtin(e.Fun) {
		case "close":
			r.exprs(e.Args)
			return call(simSel("Close"), e.Args...)
		case "delete":
			r.exprs(e.Args)
			if r.maps {
				e.Args[0] = call(simSel("MW"), e.Args[0])
			}
			return e
		}
	case *ast.IndexExpr:
		if r.maps && r.isMap(e.X) {
			w := r.lval[e]
			e.X = r.expr(e.X)
			e.Index = r.expr(e.Index)
			if w {
				e.X = call(simSel("MW"), e.X)
			} else {
				e.X = call(simSel("MR"), e.X)
			}
			return e
		}
	}
	r.children(e)
	return e
}

// children rewrites the expression fields of a node.
func (r *rw) children(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch {
		case f.Type() == exprType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprType:
			r.exprs(f.Interface().([]ast.Expr))
		}
	}
}

func (r *rw) valueSpec(vs *ast.ValueSpec) {
	if len(vs.Names) == 2 && len(vs.Values) == 1 {
		r.markTwo(vs.Values[0])
	}
	r.exprs(vs.Values)
}

func (r *rw) markTwo(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.two[u] = true
	}
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) yield() ast.Stmt {
	if !r.stmtY {
		return &ast.ExprStmt{X: call(simSel("Y"))}
	}
	return &ast.ExprStmt{X: call(simSel("YS"), r.site())}
}

// site returns a number for a yield point that depends on nothing but the
// package and the order of its statements.
func (r *rw) site() ast.Expr {
	r.sites++
	h := fnv.New32a()
	fmt.Fprintf(h, "%s#%d", r.pkg.Path(), r.sites)
	return &ast.BasicLit{Kind: token.INT, Value: strconv.FormatUint(uint64(h.Sum32()), 10)}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if r.stmtY {
			switch x := s.(type) {
			case *ast.EmptyStmt:
			case *ast.DeclStmt:
				if gd := x.Decl.(*ast.GenDecl); gd.Tok == token.VAR {
					out = append(out, r.yield())
				}
			default:
				out = append(out, r.yield())
			}
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rw) loopBody(b *ast.BlockStmt) {
	r.block(b)
	if !r.stmtY {
		b.List = append([]ast.Stmt{r.yield()}, b.List...)
	} else if len(b.List) == 0 {
		b.List = []ast.Stmt{r.yield()}
	}
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post)
		r.loopBody(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Tag = r.expr(s.Tag)
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			r.children(a)
		case *ast.AssignStmt:
			r.exprs(a.Rhs)
		}
		r.clauses(s.Body)
	case *ast.SelectStmt:
		return r.sel(s)
	case *ast.RangeStmt:
		return r.rng(s)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(simSel("SendTo"), r.expr(s.Chan)), r.expr(s.Value))}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				r.valueSpec(sp.(*ast.ValueSpec))
			}
		}
	case *ast.IncDecStmt:
		return r.incDec(s)
	case *ast.AssignStmt:
		return r.assign(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	}
	return s
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

// shared reports whether an assignable expression may be visible to other goroutines.
func (r *rw) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return !r.isMap(e.X)
	case *ast.Ident:
		if o := r.info.Uses[e]; o != nil && o.Parent() == r.pkg.Scope() {
			return true
		}
	}
	return false
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// typed reports whether the expression has a type of its own (is not an untyped constant expression or comparison).
func (r *rw) typed(e ast.Expr) bool {
	if tv, ok := r.info.Types[e]; ok && (tv.Value != nil || tv.IsNil()) {
		return false
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.typed(e.X)
	case *ast.BinaryExpr:
		switch e.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return false
		case token.SHL, token.SHR:
			return r.typed(e.X)
		}
		return r.typed(e.X) || r.typed(e.Y)
	case *ast.UnaryExpr:
		if e.Op == token.AND || e.Op == token.ARROW {
			return true
		}
		return r.typed(e.X)
	case *ast.BasicLit:
		return false
	}
	if tv, ok := r.info.Types[e]; ok {
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return false
		}
	}
	return true
}

func (r *rw) markL(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	r.lval[e] = true
}

func (r *rw) incDec(s *ast.IncDecStmt) ast.Stmt {
	r.markL(s.X)
	if r.stmtY && r.shared(s.X) && pure(s.X) {
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		x := r.expr(s.X)
		return &ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(simSel("YV"), r.site(), &ast.BinaryExpr{X: x, Op: op, Y: intLit(1)})}}
	}
	s.X = r.expr(s.X)
	return s
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (r *rw) assign(s *ast.AssignStmt) ast.Stmt {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		r.markTwo(s.Rhs[0])
	}
	for _, l := range s.Lhs {
		r.markL(l)
	}
	split := r.stmtY && len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok != token.DEFINE && r.shared(s.Lhs[0])
	if split {
		if op, ok := opOf[s.Tok]; ok {
			if pure(s.Lhs[0]) {
				l, x := r.expr(s.Lhs[0]), r.expr(s.Rhs[0])
				return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(simSel("YV"), r.site(), &ast.BinaryExpr{X: l, Op: op, Y: &ast.ParenExpr{X: x}})}}
			}
			split = false
		} else {
			split = r.typed(s.Rhs[0]) && r.typeOf(s.Rhs[0]) != nil
		}
	}
	r.exprs(s.Lhs)
	r.exprs(s.Rhs)
	if split {
		s.Rhs[0] = call(simSel("YV"), r.site(), s.Rhs[0])
	}
	return s
}

func ident(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *rw) rng(s *ast.RangeStmt) ast.Stmt {
	isM, isC := r.isMap(s.X), r.isChan(s.X)
	if s.Key != nil && s.Tok == token.ASSIGN {
		r.markL(s.Key)
		if s.Value != nil {
			r.markL(s.Value)
		}
	}
	x := r.expr(s.X)
	if s.Key != nil && s.Tok == token.ASSIGN {
		s.Key = r.expr(s.Key)
		if s.Value != nil {
			s.Value = r.expr(s.Value)
		}
	}
	r.loopBody(s.Body)
	switch {
	case isM:
		if r.maps {
			x = call(simSel("MR"), x)
		}
		var pre []ast.Stmt
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: call(&ast.SelectorExpr{X: ident("sim_e"), Sel: ident("Live")})},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		var lhs, rhs []ast.Expr
		add := func(l, v ast.Expr) {
			if l == nil {
				return
			}
			if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
				return
			}
			lhs, rhs = append(lhs, l), append(rhs, v)
		}
		add(s.Key, &ast.SelectorExpr{X: ident("sim_e"), Sel: ident("K")})
		add(s.Value, call(&ast.SelectorExpr{X: ident("sim_e"), Sel: ident("V")}))
		if len(lhs) > 0 {
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
		}
		s.Body.List = append(pre, s.Body.List...)
		return &ast.RangeStmt{Key: ident("_"), Value: ident("sim_e"), Tok: token.DEFINE, X: call(simSel("MapRange"), x), Body: s.Body}
	case isC:
		var pre []ast.Stmt
		v := ast.Expr(ident("_"))
		if s.Key != nil {
			if id, ok := s.Key.(*ast.Ident); !ok || id.Name != "_" {
				v = ident("sim_v")
			}
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ident("sim_ok")}, Tok: token.DEFINE, Rhs: []ast.Expr{call(simSel("Recv2"), ident("sim_ch"))}})
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ident("sim_ok")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if v.(*ast.Ident).Name != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{ident("sim_v")}})
		}
		s.Body.List = append(pre, s.Body.List...)
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ident("sim_ch")}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}, Body: s.Body}
	}
	s.X = x
	return s
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.block(fl.Body)
		return &ast.ExprStmt{X: call(simSel("Go"), fl)}
	}
	if r.builtin(c.Fun) != "" {
		x := r.expr(c)
		return &ast.ExprStmt{X: call(simSel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x}}}})}
	}
	var lhs, rhs []ast.Expr
	bind := func(e ast.Expr, name string) ast.Expr {
		if tv, ok := r.info.Types[e]; ok && (tv.Value != nil || tv.IsNil()) {
			return r.expr(e)
		}
		lhs = append(lhs, ident(name))
		rhs = append(rhs, r.expr(e))
		return ident(name)
	}
	fun := c.Fun
	isPlain := false
	if id, ok := fun.(*ast.Ident); ok {
		if _, isF := r.info.Uses[id].(*types.Func); isF {
			isPlain = true
		}
	}
	if sl, ok := fun.(*ast.SelectorExpr); ok {
		if id, ok := sl.X.(*ast.Ident); ok {
			if _, isP := r.info.Uses[id].(*types.PkgName); isP {
				isPlain = true
			}
		}
	}
	if !isPlain {
		fun = bind(fun, "sim_f")
	}
	var args []ast.Expr
	for i, a := range c.Args {
		args = append(args, bind(a, fmt.Sprintf("sim_a%d", i)))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	g := &ast.ExprStmt{X: call(simSel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})}
	if len(lhs) == 0 {
		return g
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, g}}
}

func (r *rw) sel(s *ast.SelectStmt) ast.Stmt {
	var lhs, rhs, args []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(-1)}, Body: r.stmts(cc.Body)})
			continue
		}
		name := fmt.Sprintf("sim_c%d", n)
		var pre []ast.Stmt
		val := &ast.SelectorExpr{X: ident(name), Sel: ident("Val")}
		ok := &ast.SelectorExpr{X: ident(name), Sel: ident("Ok")}
		var e ast.Expr
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			e = call(call(simSel("CaseSend"), r.expr(x.Chan)), r.expr(x.Value))
		case *ast.ExprStmt:
			e = call(simSel("CaseRecv"), r.expr(recvOf(x.X)))
		case *ast.AssignStmt:
			e = call(simSel("CaseRecv"), r.expr(recvOf(x.Rhs[0])))
			a := &ast.AssignStmt{Tok: x.Tok, Rhs: []ast.Expr{val}}
			for _, l := range x.Lhs {
				r.markL(l)
				a.Lhs = append(a.Lhs, r.expr(l))
			}
			if len(a.Lhs) == 2 {
				a.Rhs = append(a.Rhs, ok)
			}
			pre = append(pre, a)
		}
		lhs, rhs, args = append(lhs, ident(name)), append(rhs, e), append(args, ident(name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: append(pre, r.stmts(cc.Body)...)})
		n++
	}
	if n > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	d := "false"
	if hasDefault {
		d = "true"
	}
	sw.Tag = call(simSel("Select"), append([]ast.Expr{ident(d)}, args...)...)
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ident("panic"), strLit("unreachable"))}}})
	return sw
}

func recvOf(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	return e.(*ast.UnaryExpr).X
}
