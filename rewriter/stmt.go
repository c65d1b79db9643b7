package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.stmts(b.List)
	return b
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rw) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return block(l...)
}

// needsStore: assigning to e must be recorded.
func (r *rw) needsStore(e ast.Expr) bool {
	e = unparen(e)
	if i, ok := e.(*ast.Ident); ok && i.Name == "_" {
		return false
	}
	if ix, ok := e.(*ast.IndexExpr); ok && isMap(r.typ(ix.X)) {
		return !r.light
	}
	if r.light {
		if ix, ok := e.(*ast.IndexExpr); ok && isBasic(r.typ(ix)) {
			return false
		}
	}
	return r.shared(e)
}

// lval rewrites an assignment target in place, recording the write at the moment the statement starts.
func (r *rw) lval(e ast.Expr) ast.Expr {
	u := unparen(e)
	if i, ok := u.(*ast.Ident); ok && i.Name == "_" {
		return e
	}
	if ix, ok := u.(*ast.IndexExpr); ok && isMap(r.typ(ix.X)) {
		site := r.site(ix)
		m := r.expr(ix.X)
		if !r.light {
			m = call(r.rt("MW"), m, site)
		}
		return &ast.IndexExpr{X: m, Index: r.expr(ix.Index)}
	}
	if r.needsStore(u) {
		site := r.site(u)
		return star(call(r.rt("W"), amp(r.addr(u)), site))
	}
	return r.addr(e)
}

// store is "lhs = rhs" with the write recorded after rhs was evaluated.
func (r *rw) store(lhs, rhs ast.Expr) ast.Stmt {
	u := unparen(lhs)
	site := r.site(u)
	if ix, ok := u.(*ast.IndexExpr); ok && isMap(r.typ(ix.X)) {
		return estmt(call(call(call(r.rt("MapSet"), r.expr(ix.X), site), r.expr(ix.Index)), rhs))
	}
	return estmt(call(call(r.rt("Store"), amp(r.addr(u)), site), rhs))
}

func hasCall(e ast.Expr) bool { return !pure(e) }

func (r *rw) recvOf(e ast.Expr) (ast.Expr, bool) {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

// assign rewrites an assignment into one statement (simple) or several.
func (r *rw) assign(s *ast.AssignStmt, simple bool) []ast.Stmt {
	switch s.Tok {
	case token.DEFINE:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if ch, ok := r.recvOf(s.Rhs[0]); ok {
				s.Rhs[0] = call(r.rt("Recv2"), r.expr(ch))
				return []ast.Stmt{s}
			}
		}
		r.exprs(s.Rhs)
		out := []ast.Stmt{s}
		if !simple {
			for _, l := range s.Lhs { // captured variables assigned again
				if i, ok := l.(*ast.Ident); ok && r.info.Defs[i] == nil && i.Name != "_" && r.instrumented(r.info.Uses[i]) {
					out = append(out, estmt(call(r.rt("W"), amp(id(i.Name)), r.site(i))))
				}
			}
		}
		return out
	case token.ASSIGN:
		if len(s.Lhs) == 1 {
			if r.needsStore(s.Lhs[0]) {
				rhs := s.Rhs[0]
				if ch, ok := r.recvOf(rhs); ok {
					return []ast.Stmt{r.store(s.Lhs[0], call(r.rt("Recv"), r.expr(ch)))}
				}
				rhs2 := r.expr(rhs)
				return []ast.Stmt{r.store(s.Lhs[0], rhs2)}
			}
			s.Lhs[0] = r.lval(s.Lhs[0])
			r.exprs(s.Rhs)
			return []ast.Stmt{s}
		}
		any := false
		for _, l := range s.Lhs {
			any = any || r.needsStore(l)
		}
		var rhs []ast.Expr
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if ch, ok := r.recvOf(s.Rhs[0]); ok {
				rhs = []ast.Expr{call(r.rt("Recv2"), r.expr(ch))}
			}
		}
		if any && len(s.Rhs) == 1 && !simple {
			// tuple: evaluate first, then store one by one
			var names []string
			var asg []ast.Stmt
			ok := true
			if tup, isTup := r.info.TypeOf(s.Rhs[0]).(*types.Tuple); isTup {
				_ = tup
			} else if rhs == nil {
				// comma-ok forms: the second value is an untyped bool; a temporary makes it bool
				for i, l := range s.Lhs {
					if i == 1 && !types.Identical(r.typ(l), types.Typ[types.Bool]) && !isBlank(l) {
						ok = false
					}
				}
			}
			if ok {
				if rhs == nil {
					rhs = r.exprs(s.Rhs)
				}
				for _, l := range s.Lhs {
					if isBlank(l) {
						names = append(names, "_")
						continue
					}
					n := r.tmp("V")
					names = append(names, n)
					if r.needsStore(l) {
						asg = append(asg, r.store(l, id(n)))
					} else {
						asg = append(asg, &ast.AssignStmt{Lhs: []ast.Expr{r.lval(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}})
					}
				}
				return []ast.Stmt{block(append([]ast.Stmt{define(rhs[0], names...)}, asg...)...)}
			}
		}
		if rhs == nil {
			rhs = r.exprs(s.Rhs)
		}
		s.Rhs = rhs
		for i := range s.Lhs {
			s.Lhs[i] = r.lval(s.Lhs[i])
		}
		return []ast.Stmt{s}
	}
	// op=
	op := s.Tok + (token.ADD - token.ADD_ASSIGN)
	return []ast.Stmt{r.update(s.Lhs[0], op, s.Rhs[0], s)}
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rw) update(lhs ast.Expr, op token.Token, rhs ast.Expr, orig *ast.AssignStmt) ast.Stmt {
	if r.needsStore(lhs) && pure(lhs) {
		if c := r.clone(lhs); c != nil {
			val := &ast.BinaryExpr{X: r.expr(c), Op: op, Y: paren(r.expr(rhs))}
			return r.store(lhs, val)
		}
	}
	orig.Lhs[0] = r.lval(lhs)
	orig.Rhs[0] = r.expr(rhs)
	return orig
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		return r.assign(s, true)[0]
	default:
		l := r.stmt(s)
		return l[0]
	}
}

func (r *rw) loopBody(b *ast.BlockStmt) *ast.BlockStmt {
	b = r.block(b)
	b.List = append([]ast.Stmt{estmt(call(r.rt("LoopPoint")))}, b.List...)
	return b
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.AssignStmt:
		return r.assign(s, false)
	case *ast.IncDecStmt:
		op := token.ADD
		asg := token.ADD_ASSIGN
		if s.Tok == token.DEC {
			op, asg = token.SUB, token.SUB_ASSIGN
		}
		if !r.needsStore(s.X) {
			s.X = r.lval(s.X)
			return []ast.Stmt{s}
		}
		one := &ast.BasicLit{Kind: token.INT, Value: "1"}
		return []ast.Stmt{r.update(s.X, op, one, &ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: asg, Rhs: []ast.Expr{one}})}
	case *ast.BlockStmt:
		return []ast.Stmt{r.block(s)}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				r.valueSpec(sp.(*ast.ValueSpec))
			}
		}
		return []ast.Stmt{s}
	case *ast.DeferStmt:
		if c, ok := r.call(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
		return []ast.Stmt{s}
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return []ast.Stmt{s}
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.simple(s.Post)
		s.Body = r.loopBody(s.Body)
		return []ast.Stmt{s}
	case *ast.GoStmt:
		return []ast.Stmt{r.goStmt(s)}
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Body = r.block(s.Body)
		if s.Else != nil {
			s.Else = r.one(s.Else)
		}
		return []ast.Stmt{s}
	case *ast.LabeledStmt:
		if sl, ok := s.Stmt.(*ast.SelectStmt); ok {
			return []ast.Stmt{r.selectStmt(sl, s.Label)}
		}
		s.Stmt = r.one(s.Stmt)
		return []ast.Stmt{s}
	case *ast.RangeStmt:
		return []ast.Stmt{r.rangeStmt(s)}
	case *ast.ReturnStmt:
		r.exprs(s.Results)
		return []ast.Stmt{s}
	case *ast.SelectStmt:
		return []ast.Stmt{r.selectStmt(s, nil)}
	case *ast.SendStmt:
		return []ast.Stmt{estmt(call(call(r.rt("SendCh"), r.expr(s.Chan)), r.expr(s.Value)))}
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		s.Tag = r.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		return []ast.Stmt{s}
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			ta := unparen(a.X).(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.AssignStmt:
			ta := unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
		return []ast.Stmt{s}
	}
	return []ast.Stmt{s}
}

func (r *rw) untypedConst(e ast.Expr) bool {
	tv := r.info.Types[e]
	return tv.Value != nil || tv.IsNil()
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	site := r.site(s)
	var pre []ast.Stmt
	// arguments are evaluated now
	nargs := len(c.Args)
	var args []ast.Expr
	isBuiltin := r.builtin(c.Fun) != ""
	if nargs == 1 {
		if tup, ok := r.info.TypeOf(c.Args[0]).(*types.Tuple); ok {
			var names []string
			for i := 0; i < tup.Len(); i++ {
				n := r.tmp("G")
				names = append(names, n)
				args = append(args, id(n))
			}
			pre = append(pre, define(r.expr(c.Args[0]), names...))
			nargs = 0
		}
	}
	if nargs > 0 {
		for _, a := range c.Args {
			if r.untypedConst(a) || isBuiltin && r.info.Types[a].IsType() {
				args = append(args, a)
				continue
			}
			n := r.tmp("G")
			pre = append(pre, define(r.expr(a), n))
			args = append(args, id(n))
		}
	}
	fun := c.Fun
	if isBuiltin {
		inner := r.builtinGo(c, args)
		return block(append(pre, estmt(call(r.rt("Go"), site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(inner)})))...)
	}
	switch f := unparen(fun).(type) {
	case *ast.FuncLit:
		fun = r.expr(fun)
	default:
		if r.isFuncName(f) {
			fun = f
		} else {
			n := r.tmp("F")
			pre = append([]ast.Stmt{define(r.expr(fun), n)}, pre...)
			fun = id(n)
		}
	}
	inner := call(fun, args...)
	if c.Ellipsis != token.NoPos {
		inner.Ellipsis = 1
	}
	if lit, ok := fun.(*ast.FuncLit); ok && len(args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return one(append(pre, estmt(call(r.rt("Go"), site, lit))))
	}
	return one(append(pre, estmt(call(r.rt("Go"), site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(estmt(inner))}))))
}

func one(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		return l[0]
	}
	return block(l...)
}

func (r *rw) builtinGo(c *ast.CallExpr, args []ast.Expr) ast.Stmt {
	if r.builtin(c.Fun) == "close" {
		return estmt(call(r.rt("Close"), args...))
	}
	return estmt(call(c.Fun, args...))
}

// isFuncName: f names a declared function (possibly instantiated), not a variable or method value.
func (r *rw) isFuncName(f ast.Expr) bool {
	switch x := unparen(f).(type) {
	case *ast.Ident:
		_, ok := r.info.Uses[x].(*types.Func)
		return ok
	case *ast.SelectorExpr:
		if r.pkgQualified(x) {
			_, ok := r.info.Uses[x.Sel].(*types.Func)
			return ok
		}
	case *ast.IndexExpr:
		return r.isFuncName(x.X)
	case *ast.IndexListExpr:
		return r.isFuncName(x.X)
	}
	return false
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := r.typ(s.X)
	site := r.site(s)
	blank := func(e ast.Expr) bool { return e == nil || isBlank(e) }
	kind := ""
	switch {
	case isMap(t) && !r.light:
		kind = "Map"
	case isChan(t):
		kind = "Chan"
	case isSlice(t) && !blank(s.Value) && !(r.light && isBasic(core(t).(*types.Slice).Elem())):
		kind = "Slice"
	}
	if kind == "" {
		if isArray(t) && r.addressable(s.X) && blank(s.Value) {
			s.X = r.addr(s.X)
		} else {
			s.X = r.expr(s.X)
		}
		if s.Tok == token.ASSIGN {
			if s.Key != nil {
				s.Key = r.lval(s.Key)
			}
			if s.Value != nil {
				s.Value = r.lval(s.Value)
			}
		}
		s.Body = r.loopBody(s.Body)
		return s
	}
	it := r.tmp("It")
	src := r.expr(s.X)
	var body *ast.BlockStmt
	ptrs := []ast.Expr{id("nil"), id("nil")}
	names := []string{it}
	suffix := "0"
	target := func(e ast.Expr) ast.Expr {
		if s.Tok == token.DEFINE {
			i := e.(*ast.Ident)
			if r.instrumented(r.info.Defs[i]) {
				return call(r.rt("W"), amp(id(i.Name)), r.site(i))
			}
			return amp(id(i.Name))
		}
		u := unparen(e)
		if ix, ok := u.(*ast.IndexExpr); ok && isMap(r.typ(ix.X)) {
			return id("nil") // range into a map element: not supported (does not compile further on)
		}
		if r.needsStore(u) {
			st := r.site(u)
			return call(r.rt("W"), amp(r.addr(u)), st)
		}
		return amp(r.addr(u))
	}
	hasK, hasV := !blank(s.Key), !blank(s.Value)
	if kind == "Chan" {
		hasV = false
	}
	if hasK {
		ptrs[0] = target(s.Key)
	}
	if hasV {
		ptrs[1] = target(s.Value)
	}
	if s.Tok == token.DEFINE {
		if hasK {
			names = append(names, s.Key.(*ast.Ident).Name)
		}
		if hasV {
			names = append(names, s.Value.(*ast.Ident).Name)
		}
		switch {
		case kind == "Chan" && hasK:
			suffix = ""
		case hasK && hasV:
			suffix = ""
		case hasK && kind == "Map":
			suffix = "K"
		case hasV:
			suffix = "V"
		}
	}
	body = r.block(s.Body)
	if kind == "Chan" {
		ptrs = ptrs[:1]
	}
	args := []ast.Expr{src}
	if kind != "Chan" {
		args = append(args, site)
	}
	return &ast.ForStmt{Init: define(call(r.rt(kind+"Iter"+suffix), args...), names...), Cond: call(sel(id(it), "Next"), ptrs...), Body: body}
}

func (r *rw) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(s.Body.List) == 0 {
		return block(estmt(call(r.rt("BlockForever"))), estmt(call(id("panic"), str("unreachable"))))
	}
	var pre []ast.Stmt
	selName := r.tmp("Sel")
	var cases []ast.Expr
	var clauses []ast.Stmt
	hasDef := false
	i := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			clauses = append(clauses, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		ch := r.tmp("C")
		var first []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			v := call(call(r.rt("CaseSend"), id(ch)), r.expr(m.Value))
			pre = append(pre, define(r.expr(m.Chan), ch))
			cases = append(cases, v)
		case *ast.ExprStmt:
			x, _ := r.recvOf(m.X)
			pre = append(pre, define(r.expr(x), ch))
			cases = append(cases, call(r.rt("CaseRecv"), id(ch)))
		case *ast.AssignStmt:
			x, _ := r.recvOf(m.Rhs[0])
			pre = append(pre, define(r.expr(x), ch))
			cases = append(cases, call(r.rt("CaseRecv"), id(ch)))
			fn := "SelVal"
			if len(m.Lhs) == 2 {
				fn = "SelVal2"
			}
			val := call(r.rt(fn), id(ch), id(selName))
			allBlank := true
			for _, l := range m.Lhs {
				allBlank = allBlank && isBlank(l)
			}
			if !allBlank {
				if m.Tok == token.ASSIGN {
					for j := range m.Lhs {
						m.Lhs[j] = r.lval(m.Lhs[j])
					}
				}
				m.Rhs = []ast.Expr{val}
				first = []ast.Stmt{m}
			}
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{num(i)}, Body: append(first, r.stmts(cc.Body)...)})
		i++
	}
	def := "false"
	if hasDef {
		def = "true"
	} else {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{estmt(call(id("panic"), str("unreachable")))}})
	}
	init := define(call(r.rt("Select"), append([]ast.Expr{id(def)}, cases...)...), selName)
	var sw ast.Stmt = &ast.SwitchStmt{Init: init, Tag: sel(id(selName), "I"), Body: block(clauses...)}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return block(append(pre, sw)...)
}
