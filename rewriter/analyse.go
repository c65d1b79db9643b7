package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"strings"
)

func rootIdent(e ast.Expr, info *types.Info) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if _, isPkg := info.Uses[id].(*types.PkgName); isPkg {
					return x.Sel
				}
			}
			if sel := info.Selections[x]; sel == nil || sel.Indirect() || isPtr(info.TypeOf(x.X)) {
				return nil
			}
			e = x.X
		case *ast.IndexExpr:
			t := info.TypeOf(x.X)
			if t == nil {
				return nil
			}
			if _, ok := t.Underlying().(*types.Array); !ok {
				return nil
			}
			e = x.X
		default:
			return nil
		}
	}
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// assignments calls f for every variable that is assigned (other than by its declaration) below n.
func assignments(info *types.Info, n ast.Node, f func(types.Object)) {
	lhs := func(e ast.Expr) {
		if id := rootIdent(e, info); id != nil {
			if o := info.Uses[id]; o != nil {
				f(o)
			}
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, e := range s.Lhs {
				lhs(e)
			}
		case *ast.IncDecStmt:
			lhs(s.X)
		case *ast.RangeStmt:
			if s.Tok == token.ASSIGN {
				if s.Key != nil {
					lhs(s.Key)
				}
				if s.Value != nil {
					lhs(s.Value)
				}
			} else if s.Tok == token.DEFINE {
				for _, e := range []ast.Expr{s.Key, s.Value} {
					if id, ok := e.(*ast.Ident); ok {
						if o := info.Defs[id]; o != nil {
							f(o)
						}
					}
				}
			}
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				lhs(s.X)
			}
		}
		return true
	})
}

// analyse notes the package-level variables that change after initialisation.
func (g *gen) analyse(ps *pkgSrc) {
	for _, f := range ps.files {
		assignments(ps.info, f, func(o types.Object) {
			if v, ok := o.(*types.Var); ok && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				g.assigned[o] = true
			}
		})
	}
}

// captured finds local variables used by a function literal other than the one declaring them and assigned after declaration.
func captured(info *types.Info, f *ast.File) map[types.Object]bool {
	owner := map[types.Object]ast.Node{}
	cap := map[types.Object]bool{}
	asg := map[types.Object]bool{}
	var visit func(n ast.Node, fn ast.Node)
	visit = func(root ast.Node, fn ast.Node) {
		ast.Inspect(root, func(n ast.Node) bool {
			if lit, ok := n.(*ast.FuncLit); ok && n != root {
				visit(lit, lit)
				return false
			}
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := info.Defs[id].(*types.Var); ok && o != nil && !o.IsField() {
					owner[o] = fn
				}
			}
			return true
		})
	}
	var uses func(n ast.Node, fn ast.Node)
	uses = func(root ast.Node, fn ast.Node) {
		ast.Inspect(root, func(n ast.Node) bool {
			if lit, ok := n.(*ast.FuncLit); ok && n != root {
				uses(lit, lit)
				return false
			}
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := info.Uses[id].(*types.Var); ok {
					if own, ok := owner[o]; ok && own != fn {
						cap[o] = true
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			visit(fd, fd)
			uses(fd, fd)
			assignments(info, fd, func(o types.Object) { asg[o] = true })
		} else {
			// package-level initialisers with function literals
			ast.Inspect(d, func(n ast.Node) bool {
				if lit, ok := n.(*ast.FuncLit); ok {
					visit(lit, lit)
					uses(lit, lit)
					assignments(info, lit, func(o types.Object) { asg[o] = true })
					return false
				}
				return true
			})
		}
	}
	out := map[types.Object]bool{}
	for o := range cap {
		if asg[o] {
			out[o] = true
		}
	}
	return out
}

// ---- re-initialisation of package-level variables ----

type resets struct {
	ps    *pkgSrc
	funcs map[string]string // "file:var" initialiser key -> function
	zero  []string
	init  []string
	n     int
}

func newResets(ps *pkgSrc) *resets { return &resets{ps: ps, funcs: map[string]string{}} }

func (r *resets) finish(name string) string {
	if r.ps.light || r.ps.plain {
		return ""
	}
	var b strings.Builder
	hasInit := map[string]bool{}
	var order []string
	for _, in := range r.ps.info.InitOrder {
		for _, v := range in.Lhs {
			hasInit[v.Name()] = true
		}
		if fn := r.funcs[in.Lhs[0].Name()]; fn != "" {
			order = append(order, fn)
		}
	}
	for _, z := range r.zero {
		if !hasInit[z] {
			fmt.Fprintf(&b, "\t\tsimrt.Zero(&%s)\n", z)
		}
	}
	for _, fn := range order {
		fmt.Fprintf(&b, "\t\t%s()\n", fn)
	}
	for _, fn := range r.init {
		fmt.Fprintf(&b, "\t\t%s()\n", fn)
	}
	if b.Len() == 0 {
		return ""
	}
	return "package " + name + "\n\nimport \"verif.local/simrt\"\n\nfunc init() {\n\tsimrt.OnReset(func() {\n" + b.String() + "\t})\n}\n"
}

func text(n ast.Node) string {
	var b bytes.Buffer
	(&printer.Config{Mode: printer.UseSpaces, Tabwidth: 4}).Fprint(&b, token.NewFileSet(), n)
	return b.String()
}
