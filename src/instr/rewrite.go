package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
)

// node rewrites a syntax tree bottom-up and returns its replacement.
func (x *ins) node(n ast.Node) ast.Node {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return n
	}
	// forms that need their parts in original shape
	switch s := n.(type) {
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.SelectStmt, *ast.RangeStmt:
			st := x.stmt(s.Stmt)
			if b, ok := st.(*ast.BlockStmt); ok {
				last := len(b.List) - 1
				b.List[last] = &ast.LabeledStmt{Label: s.Label, Stmt: b.List[last]}
				return b
			}
			s.Stmt = st
			return s
		}
	case *ast.SelectStmt:
		return x.selectStmt(s)
	case *ast.RangeStmt:
		return x.rangeStmt(s)
	case *ast.GoStmt:
		return x.goStmt(s)
	case *ast.SendStmt:
		ch, v := x.expr(s.Chan), x.expr(s.Value)
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: x.call("Send", ch), Args: []ast.Expr{v}}}
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Rhs[0] = x.call("Recv2", x.expr(u.X))
				for i := range s.Lhs {
					s.Lhs[i] = x.lhs(s.Lhs[i])
				}
				return s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = x.lhs(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = x.expr(s.Rhs[i])
		}
		return s
	case *ast.ValueSpec:
		if len(s.Names) == 2 && len(s.Values) == 1 {
			if u, ok := ast.Unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Values[0] = x.call("Recv2", x.expr(u.X))
				return s
			}
		}
	case *ast.IncDecStmt:
		s.X = x.lhs(s.X)
		return s
	case *ast.UnaryExpr:
		if s.Op == token.ARROW {
			return x.call("Recv", x.expr(s.X))
		}
	case *ast.CallExpr:
		return x.callExpr(s)
	case *ast.CompositeLit:
		if m, ok := x.typeOf(s).(*types.Map); ok {
			for _, e := range s.Elts {
				kv := e.(*ast.KeyValueExpr)
				kv.Value = x.expr(kv.Value)
				if _, lit := kv.Key.(*ast.CompositeLit); lit {
					kv.Key = x.expr(kv.Key)
				} else {
					kv.Key = x.key(kv.Key, m)
				}
			}
			return s
		}
		for i, e := range s.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				kv.Value = x.expr(kv.Value)
				if _, ok := x.typeOf(s).(*types.Struct); !ok {
					kv.Key = x.expr(kv.Key)
				}
			} else {
				s.Elts[i] = x.expr(e)
			}
		}
		return s
	}
	x.children(n)
	return n
}

func (x *ins) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return x.node(e).(ast.Expr)
}

func (x *ins) stmt(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return x.node(s).(ast.Stmt)
}

func (x *ins) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = x.stmt(l[i])
	}
	return l
}

func (x *ins) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	x.stmts(b.List)
	return b
}

// children rewrites the direct children of n in place.
func (x *ins) children(n ast.Node) {
	v := reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch f.Kind() {
		case reflect.Interface, reflect.Ptr:
			if f.IsNil() {
				continue
			}
			c, ok := f.Interface().(ast.Node)
			if !ok {
				continue
			}
			switch c.(type) {
			case *ast.CommentGroup, *ast.Ident, *ast.BasicLit:
				continue
			}
			r := x.node(c)
			f.Set(reflect.ValueOf(r))
		case reflect.Slice:
			for j := 0; j < f.Len(); j++ {
				e := f.Index(j)
				if e.Kind() != reflect.Interface && e.Kind() != reflect.Ptr {
					break
				}
				if e.IsNil() {
					continue
				}
				c, ok := e.Interface().(ast.Node)
				if !ok {
					break
				}
				switch c.(type) {
				case *ast.CommentGroup, *ast.Ident, *ast.BasicLit:
					continue
				}
				e.Set(reflect.ValueOf(x.node(c)))
			}
		}
	}
}

// typeOf is the core type of an expression.
func (x *ins) typeOf(e ast.Expr) types.Type {
	tv, ok := x.info.Types[e]
	if !ok || tv.Type == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := x.info.Uses[id]; o != nil {
				return core(o.Type())
			}
			if o := x.info.Defs[id]; o != nil {
				return core(o.Type())
			}
		}
		return nil
	}
	return core(tv.Type)
}

func core(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				if u, ok := it.EmbeddedType(i).(*types.Union); ok && u.Len() == 1 {
					return u.Term(0).Type().Underlying()
				}
				return it.EmbeddedType(i).Underlying()
			}
		}
	}
	return t.Underlying()
}

// key registers a map key of a type without a natural order.
func (x *ins) key(k ast.Expr, m *types.Map) ast.Expr {
	tv := x.info.Types[k]
	k2 := x.expr(k)
	if tv.IsNil() {
		return k2
	}
	switch t := m.Key().Underlying().(type) {
	case *types.Basic:
		return k2
	case *types.Pointer, *types.Chan, *types.Interface, *types.Struct, *types.Array:
		_ = t
		return x.call("K", k2)
	}
	return k2
}

// lhs rewrites an assignment target.
func (x *ins) lhs(e ast.Expr) ast.Expr {
	if ix, ok := e.(*ast.IndexExpr); ok {
		if m, ok := x.typeOf(ix.X).(*types.Map); ok {
			ix.X = x.expr(ix.X)
			ix.Index = x.key(ix.Index, m)
			return ix
		}
	}
	return x.expr(e)
}

func (x *ins) isBuiltin(f ast.Expr, name string) bool {
	id, ok := ast.Unparen(f).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = x.info.Uses[id].(*types.Builtin)
	return ok
}

// pkgFunc returns "path.Name" of a called package function.
func (x *ins) pkgFunc(f ast.Expr) string {
	s, ok := ast.Unparen(f).(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	fn, ok := x.info.Uses[s.Sel].(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Type().(*types.Signature).Recv() != nil {
		return ""
	}
	return fn.Pkg().Path() + "." + fn.Name()
}

var reflectMethods = map[string]string{"Send": "RSend", "TrySend": "RTrySend", "Recv": "RRecv", "TryRecv": "RTryRecv", "Close": "RClose", "Len": "RLen"}

func (x *ins) callExpr(c *ast.CallExpr) ast.Node {
	switch {
	case x.isBuiltin(c.Fun, "close"):
		return x.call("Close", x.expr(c.Args[0]))
	case x.isBuiltin(c.Fun, "len"):
		if ch, ok := x.typeOf(c.Args[0]).(*types.Chan); ok {
			if ch.Dir() == types.SendOnly {
				return x.call("LenS", x.expr(c.Args[0]))
			}
			return x.call("Len", x.expr(c.Args[0]))
		}
	}
	switch x.pkgFunc(c.Fun) {
	case "reflect.Select":
		return x.call("ReflectSelect", x.expr(c.Args[0]))
	case "runtime.Gosched":
		return x.call("Gosched")
	}
	if s, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		if sel := x.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal && sel.Obj().Pkg() != nil && sel.Obj().Pkg().Path() == "reflect" {
			if r := reflectMethods[s.Sel.Name]; r != "" && types.TypeString(sel.Recv(), nil) == "reflect.Value" {
				args := []ast.Expr{x.expr(s.X)}
				for _, a := range c.Args {
					args = append(args, x.expr(a))
				}
				return x.call(r, args...)
			}
		}
	}
	c.Fun = x.expr(c.Fun)
	for i := range c.Args {
		c.Args[i] = x.expr(c.Args[i])
	}
	return c
}

func (x *ins) goStmt(g *ast.GoStmt) ast.Node {
	c := g.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: x.call("Go", x.expr(fl))}
	}
	b := &ast.BlockStmt{}
	hoist := func(e ast.Expr) ast.Expr {
		id := x.fresh()
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{x.expr(e)}})
		return ast.NewIdent(id.Name)
	}
	call := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if call.Ellipsis != 0 {
		call.Ellipsis = 1
	}
	tv := x.info.Types[c.Fun]
	plain := false
	if tv.IsBuiltin() {
		plain = true
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := x.info.Uses[id].(*types.Func); ok {
			plain = true
		}
	}
	if x.pkgFunc(c.Fun) != "" {
		plain = true
	}
	fun := c.Fun
	for _, a := range c.Args {
		at := x.info.Types[a]
		if _, multi := at.Type.(*types.Tuple); multi {
			die("%s: go statement with a multi-value argument is not supported", x.fset.Position(g.Pos()))
		}
	}
	if !plain {
		fun = hoist(c.Fun)
	}
	for _, a := range c.Args {
		at := x.info.Types[a]
		if at.Value != nil || at.IsNil() || at.IsType() {
			call.Args = append(call.Args, a)
			continue
		}
		call.Args = append(call.Args, hoist(a))
	}
	call.Fun = fun
	var body ast.Node
	if plain {
		// arguments are plain identifiers now; builtins such as close still
		// need their own rewriting
		switch {
		case x.isBuiltin(fun, "close"):
			body = x.call("Close", call.Args[0])
		default:
			body = call
		}
	} else {
		body = call
	}
	b.List = append(b.List, &ast.ExprStmt{X: x.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body.(ast.Expr)}}}})})
	return b
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (x *ins) rangeStmt(s *ast.RangeStmt) ast.Node {
	t := x.typeOf(s.X)
	switch t.(type) {
	case *types.Chan:
		it := x.fresh()
		ref := func() ast.Expr { return ast.NewIdent(it.Name) }
		method := func(m string, a ...ast.Expr) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ref(), Sel: ast.NewIdent(m)}, Args: a}
		}
		b := &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{x.call("RangeChan", x.expr(s.X))}}}}
		f := &ast.ForStmt{}
		arg := ast.Expr(ast.NewIdent("nil"))
		if !blank(s.Key) {
			k := x.expr(s.Key)
			if s.Tok == token.DEFINE {
				f.Init = &ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: token.DEFINE, Rhs: []ast.Expr{method("Zero")}}
			}
			arg = &ast.UnaryExpr{Op: token.AND, X: k}
		}
		f.Cond = method("Next", arg)
		f.Body = x.block(s.Body)
		b.List = append(b.List, f)
		return b
	case *types.Map:
		it := x.fresh()
		ref := func() ast.Expr { return ast.NewIdent(it.Name) }
		method := func(m string, a ...ast.Expr) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ref(), Sel: ast.NewIdent(m)}, Args: a}
		}
		b := &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{x.call(x.mapIter, x.expr(s.X))}}}}
		f := &ast.ForStmt{}
		args := []ast.Expr{ast.NewIdent("nil"), ast.NewIdent("nil")}
		var l, r []ast.Expr
		for i, e := range []ast.Expr{s.Key, s.Value} {
			if blank(e) {
				continue
			}
			if _, ok := e.(*ast.IndexExpr); ok {
				die("%s: range over a map into an index expression is not supported", x.fset.Position(s.Pos()))
			}
			k := x.expr(e)
			l = append(l, k)
			r = append(r, method([]string{"ZeroK", "ZeroV"}[i]))
			args[i] = &ast.UnaryExpr{Op: token.AND, X: k}
		}
		if s.Tok == token.DEFINE && len(l) > 0 {
			f.Init = &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
		}
		f.Cond = method("Next", args...)
		f.Body = x.block(s.Body)
		b.List = append(b.List, f)
		return b
	}
	if _, ok := s.X.(*ast.BasicLit); !ok {
		s.X = x.expr(s.X)
	}
	if s.Key != nil {
		s.Key = x.lhs(s.Key)
	}
	if s.Value != nil {
		s.Value = x.lhs(s.Value)
	}
	s.Body = x.block(s.Body)
	return s
}

func (x *ins) selectStmt(s *ast.SelectStmt) ast.Node {
	b := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	call := x.call("Select", ast.NewIdent("false"))
	def := false
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: x.stmts(cc.Body)})
			continue
		}
		id := x.fresh()
		ref := func() ast.Expr { return ast.NewIdent(id.Name) }
		method := func(m string) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ref(), Sel: ast.NewIdent(m)}}
		}
		var rhs ast.Expr
		var pre []ast.Stmt
		recvOf := func(e ast.Expr) ast.Expr {
			u, ok := ast.Unparen(e).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				die("%s: unexpected select case", x.fset.Position(cc.Pos()))
			}
			return x.expr(u.X)
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = &ast.CallExpr{Fun: x.call("SendCase", x.expr(cm.Chan)), Args: []ast.Expr{x.expr(cm.Value)}}
		case *ast.ExprStmt:
			rhs = x.call("RecvCase", recvOf(cm.X))
		case *ast.AssignStmt:
			rhs = x.call("RecvCase", recvOf(cm.Rhs[0]))
			for i := range cm.Lhs {
				cm.Lhs[i] = x.lhs(cm.Lhs[i])
			}
			m := "V"
			if len(cm.Lhs) == 2 {
				m = "V2"
			}
			pre = append(pre, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{method(m)}})
		}
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}})
		call.Args = append(call.Args, ref())
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)}},
			Body: append(pre, x.stmts(cc.Body)...),
		})
		n++
	}
	if def {
		call.Args[0] = ast.NewIdent("true")
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	sw.Tag = call
	b.List = append(b.List, sw)
	return b
}
