// Command rewriter turns the library's source into an equivalent copy in which every go statement, channel
// operation, lock, timer, file operation and shared memory access goes through the simulator.
//
//	rewriter -src /repo -out DIR -simrt /verif/simrt
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

var replaced = map[string]string{
	"os": "verif.local/simrt/os", "sync": "verif.local/simrt/sync", "sync/atomic": "verif.local/simrt/atomic",
	"time": "verif.local/simrt/time", "log": "verif.local/simrt/log", "io/ioutil": "verif.local/simrt/ioutil",
	"path/filepath": "verif.local/simrt/filepath", "runtime": "verif.local/simrt/runtime",
	"math/rand": "verif.local/simrt/rand", "crypto/rand": "verif.local/simrt/crand",
	"maps": "verif.local/simrt/maps", "hash/maphash": "verif.local/simrt/maphash", "math/rand/v2": "verif.local/simrt/randv2", "os/signal": "verif.local/simrt/signal",
	"syscall": "verif.local/simrt/syscall", "net/http": "verif.local/simrt/http",
	"context": "verif.local/simrt/context", "github.com/gin-gonic/gin": "verif.local/simrt/gin",
}

// std packages whose source is rewritten along
var extraStd = map[string]bool{"container/list": true, "container/heap": true, "container/ring": true}

// third-party code rewritten along (with everything it needs of the same prefix)
var extraPrefix = []string{"golang.org/x/text", "github.com/sira-serverless-ir-arch/porter2"}

// standard packages a replacement does not cover and that could hide nondeterminism
// (only counted in rewrite.log)
var forbidden = map[string]bool{"os/exec": true, "plugin": true}

func main() {
	src := flag.String("src", "/repo", "")
	out := flag.String("out", "", "")
	simrt := flag.String("simrt", "/verif/simrt", "")
	flag.Parse()
	log.SetFlags(0)
	if *out == "" {
		log.Fatal("-out needed")
	}
	g := &gen{fset: token.NewFileSet(), pkgs: map[string]*listPkg{}, typed: map[string]*types.Package{}, infos: map[string]*pkgSrc{}, assigned: map[types.Object]bool{}}
	g.list(*src)
	g.importer = importer.ForCompiler(g.fset, "gc", func(p string) (io.ReadCloser, error) {
		lp := g.pkgs[p]
		if lp == nil || lp.Export == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(lp.Export)
	})
	var want []string
	for p, lp := range g.pkgs {
		if lp.Module != nil && lp.Module.Path == g.mod && !g.skip(p) {
			want = append(want, p)
		}
	}
	sort.Strings(want)
	for _, p := range want {
		g.check(p)
	}
	for _, p := range g.order {
		g.analyse(g.infos[p])
	}
	for _, p := range g.order {
		g.emit(g.infos[p], *out)
	}
	// go.mod: the library's own, with the simulator added
	mod, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	must(err)
	mod = append(mod, []byte("\nrequire verif.local/simrt v0.0.0\nreplace verif.local/simrt => "+*simrt+"\n")...)
	must(os.WriteFile(filepath.Join(*out, "go.mod"), mod, 0644))
	sum, err := os.ReadFile(filepath.Join(*src, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(*out, "go.sum"), sum, 0644))
	fmt.Printf("rewrote %d packages, %d files; hooks: %s\n", len(g.order), g.nfiles, g.counts())
}

func must(err error) {
	if err != nil {
		log.Fatal(err)
	}
}

type pkgSrc struct {
	lp    *listPkg
	out   string // new import path
	light bool
	plain bool
	files []*ast.File
	names []string
	info  *types.Info
	pkg   *types.Package
}

type gen struct {
	fset     *token.FileSet
	mod      string
	pkgs     map[string]*listPkg
	typed    map[string]*types.Package
	infos    map[string]*pkgSrc
	order    []string
	importer types.Importer
	assigned map[types.Object]bool
	nfiles   int
	hooks    map[string]int
}

func (g *gen) counts() string {
	var ks []string
	for k := range g.hooks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%d", k, g.hooks[k])
	}
	return s
}

func (g *gen) hook(k string) {
	if g.hooks == nil {
		g.hooks = map[string]int{}
	}
	g.hooks[k]++
}

func (g *gen) list(src string) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Imports,ImportMap,Module,Error", "./...", "container/list", "container/heap", "container/ring")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		log.Fatalf("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		if p.Error != nil && len(p.GoFiles) > 0 {
			log.Fatalf("%s: %s", p.ImportPath, p.Error.Err)
		}
		q := p
		g.pkgs[p.ImportPath] = &q
	}
	modf, err := os.ReadFile(filepath.Join(src, "go.mod"))
	must(err)
	for _, l := range strings.Split(string(modf), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			g.mod = strings.Trim(f[1], `"`)
		}
	}
}

func (g *gen) skip(p string) bool {
	lp := g.pkgs[p]
	rel := strings.TrimPrefix(strings.TrimPrefix(p, g.mod), "/")
	return len(lp.GoFiles) == 0 || rel == "test" || strings.HasPrefix(rel, "test/")
}

// rewrites reports whether p is rewritten, and its new path.
func (g *gen) rewrites(p string) (string, bool) {
	lp := g.pkgs[p]
	if lp == nil {
		return "", false
	}
	if lp.Module != nil && lp.Module.Path == g.mod {
		return p, true
	}
	if extraStd[p] {
		return g.mod + "/zzsim/" + p, true
	}
	for _, x := range extraPrefix {
		if p == x || strings.HasPrefix(p, x+"/") {
			return g.mod + "/zzsim/" + p, true
		}
	}
	return "", false
}

type imp struct {
	g    *gen
	from *listPkg
}

func (i imp) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if m, ok := i.from.ImportMap[p]; ok {
		p = m
	}
	if _, ok := i.g.rewrites(p); ok {
		return i.g.check(p), nil
	}
	return i.g.importer.Import(p)
}

func (g *gen) check(p string) *types.Package {
	if t := g.typed[p]; t != nil {
		return t
	}
	lp := g.pkgs[p]
	if lp == nil {
		log.Fatalf("unknown package %s", p)
	}
	out, _ := g.rewrites(p)
	ps := &pkgSrc{lp: lp, out: out}
	ps.light = lp.Module == nil || lp.Module.Path != g.mod
	if lp.Standard {
		ps.light = false
	}
	ps.plain = strings.HasSuffix(p, "/storage/buffers")
	for _, n := range lp.GoFiles {
		fn := filepath.Join(lp.Dir, n)
		src, err := os.ReadFile(fn)
		must(err)
		site := n
		if lp.Module != nil && lp.Module.Path == g.mod {
			site = strings.TrimPrefix(path.Join(strings.TrimPrefix(p, g.mod), n), "/")
		} else {
			site = path.Join(p, n)
		}
		f, err := parser.ParseFile(g.fset, site, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			log.Fatal(err)
		}
		ps.files = append(ps.files, f)
		ps.names = append(ps.names, n)
	}
	ps.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp{g, lp}, Sizes: types.SizesFor("gc", "amd64")}
	if lp.Module != nil && lp.Module.GoVersion != "" {
		conf.GoVersion = "go" + lp.Module.GoVersion
	}
	pkg, err := conf.Check(p, g.fset, ps.files, ps.info)
	if err != nil {
		log.Fatalf("type check %s: %v", p, err)
	}
	ps.pkg = pkg
	g.typed[p] = pkg
	g.infos[p] = ps
	g.order = append(g.order, p)
	return pkg
}

// buildLine keeps a //go:build line (files were selected by go list, so only language constraints matter).
func goVersionLine(f *ast.File) string {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				return c.Text
			}
		}
	}
	return ""
}

func (g *gen) emit(ps *pkgSrc, outDir string) {
	rel := strings.TrimPrefix(strings.TrimPrefix(ps.out, g.mod), "/")
	dir := filepath.Join(outDir, rel)
	must(os.MkdirAll(dir, 0755))
	name := ps.pkg.Name()
	isMain := name == "main"
	if isMain {
		name = "goirlibmain"
	}
	resets := newResets(ps)
	for i, f := range ps.files {
		r := &rw{g: g, ps: ps, info: ps.info, file: f, light: ps.light, resets: resets}
		r.captured = captured(ps.info, f)
		line := goVersionLine(f)
		directives := embedDirectives(f)
		if directives {
			log.Fatalf("%s: go:embed / go:linkname not supported", ps.names[i])
		}
		f.Comments = nil
		f.Doc = nil
		f.Name.Name = name
		r.doFile(f, isMain)
		var b bytes.Buffer
		if line != "" && !ps.light {
			fmt.Fprintf(&b, "%s\n\n", line)
		}
		stripComments(f)
		if err := (&printer.Config{Mode: printer.UseSpaces, Tabwidth: 4}).Fprint(&b, token.NewFileSet(), f); err != nil {
			log.Fatalf("print %s: %v", ps.names[i], err)
		}
		b.WriteString("\n")
		b.WriteString(r.tail.String())
		fn := strings.ReplaceAll(ps.names[i], "_test.go", "_tst.go")
		must(os.WriteFile(filepath.Join(dir, outName(fn)), b.Bytes(), 0644))
		g.nfiles++
	}
	if code := resets.finish(name); code != "" {
		must(os.WriteFile(filepath.Join(dir, "zz_simreset.go"), []byte(code), 0644))
	}
}

// outName avoids file names with an implied build constraint (they were selected already).
func outName(n string) string { return "r_" + strings.TrimSuffix(n, ".go") + "_r.go" }

func embedDirectives(f *ast.File) bool {
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
				return true
			}
		}
	}
	return false
}

func stripComments(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}
