package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"strconv"
	"strings"
)

type rw struct {
	g        *gen
	ps       *pkgSrc
	info     *types.Info
	file     *ast.File
	light    bool
	resets   *resets
	captured map[types.Object]bool
	n        int
	used     bool
	tail     strings.Builder
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }
func str(s string) ast.Expr  { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func num(i int) ast.Expr     { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }
func sel(x ast.Expr, n string) ast.Expr {
	return &ast.SelectorExpr{X: x, Sel: id(n)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func paren(x ast.Expr) ast.Expr                    { return &ast.ParenExpr{X: x} }
func star(x ast.Expr) ast.Expr                     { return &ast.StarExpr{X: x} }
func amp(x ast.Expr) ast.Expr                      { return &ast.UnaryExpr{Op: token.AND, X: x} }
func block(s ...ast.Stmt) *ast.BlockStmt           { return &ast.BlockStmt{List: s} }
func estmt(x ast.Expr) ast.Stmt                    { return &ast.ExprStmt{X: x} }
func define(rhs ast.Expr, lhs ...string) ast.Stmt {
	a := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
	for _, l := range lhs {
		a.Lhs = append(a.Lhs, id(l))
	}
	return a
}

func (r *rw) rt(f string) ast.Expr {
	r.used = true
	r.g.hook(f)
	return sel(id("simrt"), f)
}

func (r *rw) tmp(p string) string {
	r.n++
	return fmt.Sprintf("sim%s%d", p, r.n)
}

func (r *rw) site(n ast.Node) ast.Expr {
	p := r.g.fset.Position(n.Pos())
	return str(fmt.Sprintf("%s:%d", p.Filename, p.Line))
}

func (r *rw) typ(e ast.Expr) types.Type {
	if t := r.info.TypeOf(e); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

// core is the underlying type; for a type parameter its core type, if it has one.
func core(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		iface, _ := tp.Constraint().Underlying().(*types.Interface)
		if iface != nil && iface.NumEmbeddeds() == 1 {
			switch u := iface.EmbeddedType(0).(type) {
			case *types.Union:
				if u.Len() == 1 {
					return u.Term(0).Type().Underlying()
				}
			default:
				return u.Underlying()
			}
		}
		return t
	}
	return t.Underlying()
}

func isMap(t types.Type) bool   { _, ok := core(t).(*types.Map); return ok }
func isSlice(t types.Type) bool { _, ok := core(t).(*types.Slice); return ok }
func isChan(t types.Type) bool  { _, ok := core(t).(*types.Chan); return ok }
func isArray(t types.Type) bool { _, ok := core(t).(*types.Array); return ok }
func isPtrArray(t types.Type) bool {
	p, ok := core(t).(*types.Pointer)
	return ok && isArray(p.Elem())
}
func isBasic(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// ---- file level ----

func (r *rw) doFile(f *ast.File, isMain bool) {
	// imports
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if m, ok := r.ps.lp.ImportMap[p]; ok {
			p = m
		}
		if forbidden[p] && !r.light {
			r.g.hook("UNSUPPORTED-" + p)
		}
		np := ""
		if q, ok := replaced[p]; ok && !(r.light && (p == "os" || p == "syscall" || p == "net/http")) {
			np = q
		} else if q, ok := r.g.rewrites(p); ok && q != p {
			np = q
		}
		if np == "" {
			continue
		}
		if im.Name == nil {
			if o, ok := r.info.Implicits[im].(*types.PkgName); ok {
				im.Name = id(o.Imported().Name())
			} else {
				im.Name = id(path.Base(p))
			}
		}
		im.Path.Value = strconv.Quote(np)
		im.EndPos = 0
	}
	if r.ps.plain {
		return
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				d.Body = r.block(d.Body)
			}
			if d.Recv == nil && d.Name.Name == "init" {
				fn := r.tmp("Init") + "f" + strings.Map(func(c rune) rune {
					if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
						return c
					}
					return '_'
				}, path.Base(r.g.fset.Position(r.file.Package).Filename))
				d.Name = id(fn)
				r.resets.init = append(r.resets.init, fn)
				fmt.Fprintf(&r.tail, "\nfunc init() { %s() }\n", fn)
			}
			if isMain && d.Recv == nil && d.Name.Name == "main" {
				d.Name = id("SimMain")
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					r.valueSpec(vs)
					r.pkgVar(vs)
				}
			}
		}
	}
	if r.used {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/simrt"`}}}}}, f.Decls...)
	}
}

func (r *rw) pkgVar(vs *ast.ValueSpec) {
	if r.light {
		return
	}
	if len(vs.Values) == 0 {
		for _, n := range vs.Names {
			if n.Name != "_" {
				r.resets.zero = append(r.resets.zero, n.Name)
			}
		}
		return
	}
	emit := func(names []*ast.Ident, v ast.Expr) {
		lhs := make([]string, len(names))
		real := false
		for i, n := range names {
			lhs[i] = n.Name
			if n.Name != "_" {
				real = true
			}
		}
		if !real {
			return
		}
		fn := "simReset_" + names[0].Name
		if names[0].Name == "_" {
			fn = r.tmp("Reset_")
		}
		fmt.Fprintf(&r.tail, "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), text(v))
		r.resets.funcs[names[0].Name] = fn
	}
	if len(vs.Values) == len(vs.Names) {
		for i := range vs.Names {
			emit(vs.Names[i:i+1], vs.Values[i])
		}
	} else {
		emit(vs.Names, vs.Values[0])
	}
}

func (r *rw) valueSpec(vs *ast.ValueSpec) {
	if len(vs.Values) == 1 && len(vs.Names) == 2 {
		if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			vs.Values[0] = call(r.rt("Recv2"), r.expr(u.X))
			return
		}
	}
	for i := range vs.Values {
		vs.Values[i] = r.expr(vs.Values[i])
	}
}

// ---- expressions ----

func (r *rw) instrumented(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	return r.captured[o] || r.g.assigned[o]
}

func (r *rw) pkgQualified(x *ast.SelectorExpr) bool {
	if i, ok := x.X.(*ast.Ident); ok {
		_, ok := r.info.Uses[i].(*types.PkgName)
		return ok
	}
	return false
}

// shared: e denotes a memory location other tasks may reach.
func (r *rw) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return r.instrumented(r.info.Uses[x])
	case *ast.ParenExpr:
		return r.shared(x.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if r.pkgQualified(x) {
			return r.instrumented(r.info.Uses[x.Sel])
		}
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if isPtr(r.typ(x.X)) {
			return true
		}
		if s.Indirect() && r.addressable(x) {
			return true
		}
		return r.shared(x.X)
	case *ast.IndexExpr:
		t := r.typ(x.X)
		if isSlice(t) || isPtrArray(t) {
			return true
		}
		if isArray(t) {
			return r.shared(x.X)
		}
	}
	return false
}

func (r *rw) addressable(e ast.Expr) bool { return r.info.Types[e].Addressable() }

func (r *rw) isConst(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsType())
}

func (r *rw) exprs(l []ast.Expr) []ast.Expr {
	for i := range l {
		l[i] = r.expr(l[i])
	}
	return l
}

func (r *rw) hasInvalid(t types.Type) bool { return t == nil || t == types.Typ[types.Invalid] }

// read wraps the location loc (already an addressable expression) in a recorded read.
func (r *rw) read(loc ast.Expr, site ast.Expr) ast.Expr {
	return paren(star(call(r.rt("R"), amp(loc), site)))
}

// expr rewrites e as a value.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if r.isConst(e) {
		return e
	}
	site := r.site(e)
	switch x := e.(type) {
	case *ast.Ident:
		o := r.info.Uses[x]
		if r.instrumented(o) && x.Name != "_" {
			return r.read(x, site)
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.FuncLit:
		x.Body = r.block(x.Body)
		return x
	case *ast.CompositeLit:
		t := core(r.typ(x))
		if p, ok := t.(*types.Pointer); ok {
			t = core(p.Elem())
		}
		_, isStruct := t.(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.SelectorExpr:
		if r.pkgQualified(x) {
			if r.instrumented(r.info.Uses[x.Sel]) {
				return r.read(x, site)
			}
			return x
		}
		s := r.info.Selections[x]
		if s == nil {
			return x
		}
		switch s.Kind() {
		case types.MethodExpr:
			return x
		case types.MethodVal:
			sig := s.Obj().(*types.Func).Type().(*types.Signature)
			_, isTP := r.typ(x.X).(*types.TypeParam)
			ptrRecv := sig.Recv() != nil && isPtr(sig.Recv().Type())
			if !isTP && !isPtr(r.typ(x.X)) && ptrRecv {
				x.X = r.addr(x.X)
			} else {
				x.X = r.expr(x.X)
			}
			return x
		}
		if r.shared(x) && !(r.light && r.lightSkip(x)) {
			a := r.addr(x)
			return r.read(a, site)
		}
		if r.addressable(x) {
			return r.addr(x)
		}
		x.X = r.expr(x.X)
		return x
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[x.X]; ok {
			if _, isSig := tv.Type.(*types.Signature); isSig || tv.IsType() {
				return x // instantiation
			}
		}
		t := r.typ(x.X)
		switch {
		case isMap(t):
			m := r.expr(x.X)
			if !r.light {
				m = call(r.rt("MR"), m, site)
			}
			return &ast.IndexExpr{X: m, Index: r.expr(x.Index)}
		case isSlice(t) || isPtrArray(t):
			a := r.addr(x)
			if r.light && isBasic(r.typ(x)) {
				return a
			}
			return r.read(a, site)
		case isArray(t):
			if r.shared(x.X) && !(r.light && isBasic(r.typ(x))) {
				return r.read(r.addr(x), site)
			}
			if r.addressable(x) {
				return r.addr(x)
			}
		}
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		if isArray(r.typ(x.X)) {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.StarExpr:
		p := r.expr(x.X)
		if r.light && isBasic(r.typ(x)) {
			return star(p)
		}
		return paren(star(call(r.rt("R"), p, site)))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				x.X = r.expr(x.X)
			} else {
				x.X = r.addr(x.X)
			}
			return x
		case token.ARROW:
			return call(r.rt("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.CallExpr:
		return r.call(x)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	}
	return e
}

// lightSkip: in light mode only non-basic or pointer-held fields are recorded.
func (r *rw) lightSkip(e ast.Expr) bool { return false }

// addr rewrites e as a location: what it denotes stays addressable, and the location itself is not accessed.
func (r *rw) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
		return x
	case *ast.SelectorExpr:
		if r.pkgQualified(x) {
			return x
		}
		if s := r.info.Selections[x]; s == nil || s.Kind() != types.FieldVal {
			return r.expr(e)
		}
		if isPtr(r.typ(x.X)) || !r.addressable(x.X) {
			x.X = r.expr(x.X)
		} else {
			x.X = r.addr(x.X)
		}
		return x
	case *ast.IndexExpr:
		t := r.typ(x.X)
		switch {
		case isSlice(t) || isPtrArray(t):
			x.X = r.expr(x.X)
			x.Index = r.expr(x.Index)
			return x
		case isArray(t) && r.addressable(x.X):
			x.X = r.addr(x.X)
			x.Index = r.expr(x.Index)
			return x
		}
		return r.expr(e)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	}
	return r.expr(e)
}

func (r *rw) builtin(f ast.Expr) string {
	if i, ok := unparen(f).(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	if s, ok := unparen(f).(*ast.SelectorExpr); ok {
		if b, ok := r.info.Uses[s.Sel].(*types.Builtin); ok {
			return "unsafe." + b.Name()
		}
	}
	return ""
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	if tv := r.info.Types[x.Fun]; tv.IsType() {
		r.exprs(x.Args)
		return x
	}
	site := r.site(x)
	if b := r.builtin(x.Fun); b != "" {
		switch b {
		case "len", "cap":
			t := r.typ(x.Args[0])
			switch {
			case isMap(t) && !r.light:
				x.Args[0] = call(r.rt("MR"), r.expr(x.Args[0]), site)
			case isChan(t) && b == "len":
				return call(r.rt("ChanLen"), r.expr(x.Args[0]))
			case isArray(t) && r.addressable(x.Args[0]):
				x.Args[0] = r.addr(x.Args[0])
			default:
				r.exprs(x.Args)
			}
		case "delete":
			m := r.expr(x.Args[0])
			if !r.light {
				m = call(r.rt("MW"), m, site)
			}
			x.Args[0] = m
			x.Args[1] = r.expr(x.Args[1])
		case "clear":
			if isMap(r.typ(x.Args[0])) {
				x.Args[0] = call(r.rt("MW"), r.expr(x.Args[0]), site)
			} else {
				r.exprs(x.Args)
			}
		case "close":
			return call(r.rt("Close"), r.expr(x.Args[0]))
		case "make", "new":
			for i := 1; i < len(x.Args); i++ {
				x.Args[i] = r.expr(x.Args[i])
			}
		case "recover":
			return call(r.rt("Recover"), x)
		case "append":
			x.Args = r.exprs(x.Args)
		case "copy":
			for i := range x.Args {
				x.Args[i] = r.expr(x.Args[i])
			}
			if !r.light && isSlice(r.typ0(x.Args[0])) {
				// element accesses of a copy are recorded on the first element
			}
		default:
			if !strings.HasPrefix(b, "unsafe.") {
				r.exprs(x.Args)
			}
		}
		return x
	}
	x.Fun = r.expr(x.Fun)
	r.exprs(x.Args)
	return x
}

func (r *rw) typ0(e ast.Expr) types.Type {
	if t := r.info.TypeOf(e); t != nil {
		return t
	}
	return types.Typ[types.Int]
}

// pure: evaluating e twice has no effect.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if u.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// clone copies an expression tree (shared nodes must not be rewritten twice), keeping type information.
func (r *rw) clone(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	var c ast.Expr
	switch x := e.(type) {
	case *ast.Ident:
		y := *x
		if o := r.info.Uses[x]; o != nil {
			r.info.Uses[&y] = o
		}
		if o := r.info.Defs[x]; o != nil {
			r.info.Defs[&y] = o
		}
		c = &y
	case *ast.BasicLit:
		y := *x
		c = &y
	case *ast.ParenExpr:
		c = &ast.ParenExpr{Lparen: x.Lparen, X: r.clone(x.X)}
	case *ast.SelectorExpr:
		y := &ast.SelectorExpr{X: r.clone(x.X), Sel: r.clone(x.Sel).(*ast.Ident)}
		if s := r.info.Selections[x]; s != nil {
			r.info.Selections[y] = s
		}
		c = y
	case *ast.IndexExpr:
		c = &ast.IndexExpr{X: r.clone(x.X), Index: r.clone(x.Index)}
	case *ast.StarExpr:
		c = &ast.StarExpr{Star: x.Star, X: r.clone(x.X)}
	case *ast.BinaryExpr:
		c = &ast.BinaryExpr{X: r.clone(x.X), Op: x.Op, Y: r.clone(x.Y)}
	case *ast.UnaryExpr:
		c = &ast.UnaryExpr{OpPos: x.OpPos, Op: x.Op, X: r.clone(x.X)}
	default:
		return nil
	}
	if tv, ok := r.info.Types[e]; ok {
		r.info.Types[c] = tv
	}
	return c
}

var _ = constant.MakeInt64
