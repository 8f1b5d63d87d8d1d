// Command rw instruments a Go module copy: every source of concurrency and
// nondeterminism is redirected to the controlled runtime zz/vs.
//
//	rw -dir MODDIR [-race] [-deps path=dir,...]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	dir     = flag.String("dir", ".", "module directory (rewritten in place)")
	race    = flag.Bool("race", false, "record plain memory accesses")
	modPath = flag.String("mod", "github.com/zhiqiangxu/qrpc", "module path")
	pats    = flag.String("pkgs", "", "comma separated package patterns to instrument with accesses")
	hpats   = flag.String("hpkgs", "", "comma separated harness packages (no access records)")
)

// shims maps import path -> shim package (relative to module path).
var shims = map[string]string{
	"sync":                               "zz/x/sync",
	"sync/atomic":                        "zz/x/atomic",
	"context":                            "zz/x/context",
	"time":                               "zz/x/time",
	"net":                                "zz/x/net",
	"math/rand":                          "zz/x/rand",
	"crypto/rand":                        "zz/x/crand",
	"runtime":                            "zz/x/runtime",
	"net/http":                           "zz/x/http",
	"github.com/zhiqiangxu/util":         "zz/x/util",
	"go.uber.org/ratelimit":              "zz/x/ratelimit",
	"github.com/zhiqiangxu/go-reuseport": "zz/x/reuseport",
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Imports    []string
	Error      *struct{ Err string }
	DepsErrors []struct{ Err string }
}

type world struct {
	fset    *token.FileSet
	pkgs    map[string]*listPkg
	src     map[string]*types.Package
	info    map[string]*types.Info
	files   map[string][]*ast.File
	exp     types.Importer
	fromSrc func(string) bool
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func goList(args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Standard,Imports,Error"}, args...)...)
	cmd.Dir = *dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var res []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		res = append(res, p)
	}
	return res
}

func (w *world) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if w.fromSrc(path) {
		return w.check(path)
	}
	return w.exp.Import(path)
}

func (w *world) check(path string) (*types.Package, error) {
	if p, ok := w.src[path]; ok {
		return p, nil
	}
	lp := w.pkgs[path]
	if lp == nil {
		return nil, fmt.Errorf("package %s not listed", path)
	}
	var files []*ast.File
	for _, f := range lp.GoFiles {
		af, err := parser.ParseFile(w.fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("parse: %v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: w, Error: func(err error) {}, FakeImportC: true}
	var first error
	conf.Error = func(err error) {
		if first == nil {
			first = err
		}
	}
	p, _ := conf.Check(path, w.fset, files, info)
	if first != nil {
		return nil, fmt.Errorf("typecheck %s: %v", path, first)
	}
	w.src[path], w.info[path], w.files[path] = p, info, files
	return p, nil
}

func main() {
	flag.Parse()
	w := &world{fset: token.NewFileSet(), pkgs: map[string]*listPkg{}, src: map[string]*types.Package{}, info: map[string]*types.Info{}, files: map[string][]*ast.File{}}
	var targets, htargets []string
	for _, p := range strings.Split(*pats, ",") {
		if p != "" {
			targets = append(targets, p)
		}
	}
	for _, p := range strings.Split(*hpats, ",") {
		if p != "" {
			htargets = append(htargets, p)
		}
	}
	all := append(append([]string{}, targets...), htargets...)
	shimPkgs := []string{}
	for _, s := range shims {
		shimPkgs = append(shimPkgs, *modPath+"/"+s)
	}
	sort.Strings(shimPkgs)
	shimPkgs = append(shimPkgs, *modPath+"/zz/x/binary")
	// everything outside the rewritten packages comes from export data; listing
	// their imports compiles only those.
	srcSet := map[string]bool{}
	for _, p := range all {
		srcSet[p] = true
	}
	w.fromSrc = func(p string) bool { return srcSet[p] }
	// phase 1: find files and imports without building
	cmd := exec.Command("go", append([]string{"list", "-json=ImportPath,Dir,GoFiles,Imports"}, all...)...)
	cmd.Dir = *dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	need := map[string]bool{}
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		w.pkgs[p.ImportPath] = p
		for _, i := range p.Imports {
			if !srcSet[i] && i != "unsafe" && i != "C" {
				need[i] = true
			}
		}
	}
	for _, s := range shimPkgs {
		need[s] = true
	}
	need[*modPath+"/zz/vs"] = true
	var needs []string
	for n := range need {
		needs = append(needs, n)
	}
	sort.Strings(needs)
	exports := map[string]string{}
	for _, p := range goList(needs...) {
		exports[p.ImportPath] = p.Export
	}
	w.exp = importer.ForCompiler(w.fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	shimScope := map[string]*types.Scope{}
	for orig, s := range shims {
		p, err := w.exp.Import(*modPath + "/" + s)
		if err != nil {
			fatal("shim %s: %v", s, err)
		}
		shimScope[orig] = p.Scope()
	}
	for _, p := range all {
		if _, err := w.check(p); err != nil {
			fatal("%v", err)
		}
	}
	siteBase := 1
	for i, p := range all {
		r := &rewriter{w: w, path: p, info: w.info[p], pkg: w.src[p], shimScope: shimScope, race: *race && i < len(targets), siteBase: siteBase, harness: i >= len(targets)}
		r.run()
		siteBase += len(r.sites) + 1
	}
}

type rewriter struct {
	w         *world
	path      string
	info      *types.Info
	pkg       *types.Package
	shimScope map[string]*types.Scope
	noBlock   bool // only a simple statement may stand here
	race      bool
	harness   bool
	sites     []string
	siteBase  int

	tmp      int
	need     map[string]string // import path -> alias, for this file
	used     map[string]bool
	captured map[types.Object]bool
	mutGlob  map[types.Object]bool
	file     *ast.File
}

func (r *rewriter) run() {
	files := r.w.files[r.path]
	lp := r.w.pkgs[r.path]
	r.findCaptured(files)
	var resetVars []string
	for i, f := range files {
		r.file = f
		r.need = map[string]string{}
		r.rewriteFile(f)
		resetVars = append(resetVars, r.globals(f)...)
		r.fixImports(f)
		f.Comments = nil
		stripDocs(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, r.w.fset, f); err != nil {
			fatal("format %s: %v", lp.GoFiles[i], err)
		}
		dst := filepath.Join(lp.Dir, lp.GoFiles[i])
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	// generated companion: site table, package state reset
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport vs %q\n\nfunc init() {\n", files[0].Name.Name, *modPath+"/zz/vs")
	if len(r.sites) > 0 {
		fmt.Fprintf(&b, "\tvs.RegisterSites(%d, []string{\n", r.siteBase)
		for _, s := range r.sites {
			fmt.Fprintf(&b, "\t\t%q,\n", s)
		}
		b.WriteString("\t})\n")
	}
	if !r.harness {
		for _, v := range resetVars {
			fmt.Fprintf(&b, "\tvs.RegisterVar(&%s)\n", v)
		}
	}
	b.WriteString("\t_ = vs.Epoch\n}\n")
	if err := os.WriteFile(filepath.Join(lp.Dir, "zz_vs_gen.go"), []byte(b.String()), 0o644); err != nil {
		fatal("%v", err)
	}
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func (r *rewriter) globals(f *ast.File) (out []string) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			for _, n := range s.(*ast.ValueSpec).Names {
				if n.Name != "_" {
					out = append(out, n.Name)
				}
			}
		}
	}
	return
}

// findCaptured collects local variables shared with a closure and globals written outside init.
func (r *rewriter) findCaptured(files []*ast.File) {
	r.captured = map[types.Object]bool{}
	r.mutGlob = map[types.Object]bool{}
	declDepth := map[types.Object]int{}
	writes := map[types.Object]int{}
	var capt []types.Object
	for _, f := range files {
		var walk func(n ast.Node, depth int)
		walk = func(n ast.Node, depth int) {
			ast.Inspect(n, func(m ast.Node) bool {
				switch x := m.(type) {
				case *ast.FuncLit:
					if m == n {
						return true
					}
					walk(x, depth+1)
					return false
				case *ast.Ident:
					if o := r.info.Defs[x]; o != nil {
						if _, ok := o.(*types.Var); ok {
							declDepth[o] = depth
						}
					}
				}
				return true
			})
		}
		walk(f, 0)
	}
	for _, f := range files {
		var walk func(n ast.Node, depth int)
		walk = func(n ast.Node, depth int) {
			ast.Inspect(n, func(m ast.Node) bool {
				switch x := m.(type) {
				case *ast.FuncLit:
					if m == n {
						return true
					}
					walk(x, depth+1)
					return false
				case *ast.Ident:
					o := r.info.Uses[x]
					if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != nil {
						if v.Parent() == r.pkg.Scope() || v.Parent() == types.Universe {
							return true
						}
						if d, ok := declDepth[o]; ok && depth > d {
							capt = append(capt, o)
						}
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							r.noteWrite(l, writes)
						}
					} else {
						for _, l := range x.Lhs {
							if id, ok := l.(*ast.Ident); ok && r.info.Defs[id] == nil {
								r.noteWrite(l, writes)
							}
						}
					}
				case *ast.IncDecStmt:
					r.noteWrite(x.X, writes)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						r.noteWrite(x.X, writes)
					}
				}
				return true
			})
		}
		walk(f, 0)
	}
	for _, o := range capt {
		if writes[o] > 0 {
			r.captured[o] = true
		}
	}
}

func (r *rewriter) noteWrite(e ast.Expr, writes map[types.Object]int) {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			writes[o]++
			if v, ok := o.(*types.Var); ok && v.Parent() == r.pkg.Scope() {
				r.mutGlob[o] = true
			}
		}
	}
}

func (r *rewriter) vs(name string) ast.Expr {
	r.need[*modPath+"/zz/vs"] = "vsx"
	return &ast.SelectorExpr{X: ast.NewIdent("vsx"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) fresh(p string) string { r.tmp++; return fmt.Sprintf("vsx%s%d", p, r.tmp) }

func (r *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) rewriteFile(f *ast.File) {
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				continue
			}
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.ValueSpec:
					r.valueSpec(y)
				case *ast.TypeSpec:
					if y.TypeParams != nil {
						r.fields(y.TypeParams)
					}
					y.Type = r.expr(y.Type)
				}
			}
		case *ast.FuncDecl:
			if x.Recv != nil {
				r.fields(x.Recv)
			}
			r.funcType(x.Type)
			if x.Body != nil {
				r.block(x.Body)
			}
		}
	}
}

func (r *rewriter) valueSpec(y *ast.ValueSpec) {
	if y.Type != nil {
		y.Type = r.expr(y.Type)
	}
	if len(y.Names) == 2 && len(y.Values) == 1 {
		if v, ok := r.recv2(y.Values[0]); ok {
			y.Values[0] = v
			return
		}
	}
	for i := range y.Values {
		y.Values[i] = r.expr(y.Values[i])
	}
}

func (r *rewriter) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	if t.TypeParams != nil {
		r.fields(t.TypeParams)
	}
	r.fields(t.Params)
	r.fields(t.Results)
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	old := r.noBlock
	r.noBlock = true
	t := r.stmt(s)
	r.noBlock = old
	return t
}

// store takes *vsx.W(p, site) apart.
func (r *rewriter) store(e ast.Expr) (p, site ast.Expr, ok bool) {
	if !r.race {
		return
	}
	st, ok := ast.Unparen(e).(*ast.StarExpr)
	if !ok {
		return nil, nil, false
	}
	c, ok := ast.Unparen(st.X).(*ast.CallExpr)
	if !ok {
		return nil, nil, false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || f.Sel.Name != "W" || len(c.Args) != 2 {
		return nil, nil, false
	}
	if id, ok := f.X.(*ast.Ident); !ok || id.Name != "vsx" {
		return nil, nil, false
	}
	return c.Args[0], c.Args[1], true
}

// update is *p = *p op e, the read and the write apart.
func (r *rewriter) update(p, site ast.Expr, op token.Token, e ast.Expr) ast.Stmt {
	pn, vn := r.fresh("p"), r.fresh("v")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(pn)}, Tok: token.DEFINE, Rhs: []ast.Expr{p}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(vn)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{
			X: &ast.StarExpr{X: call(r.vs("R"), ast.NewIdent(pn), site)}, Op: op, Y: &ast.ParenExpr{X: e}}}},
		&ast.ExprStmt{X: call(r.vs("St"), ast.NewIdent(pn), ast.NewIdent(vn), site)},
	}}
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.vs("Send"), r.expr(x.Chan)), r.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = r.lhs(x.X, true)
		if p, site, ok := r.store(x.X); ok && !r.noBlock {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return r.update(p, site, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.deferCall(x.Call)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)
		}
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = r.expr(x.List[i])
		}
		x.Body = r.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		if x.Tag != nil {
			x.Tag = r.expr(x.Tag)
		}
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		r.block(x.Body)
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		x.Post = r.simple(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(x, "")
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.LabeledStmt:
		if rs, ok := x.Stmt.(*ast.RangeStmt); ok {
			x.Stmt = r.rangeStmt(rs, x.Label.Name)
		} else {
			x.Stmt = r.stmt(x.Stmt)
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				switch y := sp.(type) {
				case *ast.ValueSpec:
					r.valueSpec(y)
				case *ast.TypeSpec:
					y.Type = r.expr(y.Type)
				}
			}
		}
	}
	return s
}

func (r *rewriter) recv2(e ast.Expr) (ast.Expr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return nil, false
	}
	return call(r.vs("Recv2"), r.expr(u.X)), true
}

func (r *rewriter) assign(x *ast.AssignStmt) ast.Stmt {
	// whether the value has the type of the target as it is
	same := false
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok != token.DEFINE {
		tv := r.info.Types[x.Rhs[0]]
		lt := r.info.Types[x.Lhs[0]].Type
		if id, ok := x.Lhs[0].(*ast.Ident); ok && r.info.Uses[id] != nil {
			lt = r.info.Uses[id].Type()
		}
		same = lt != nil && (tv.IsNil() || tv.Type != nil && types.Identical(tv.Type, lt))
		if c, ok := ast.Unparen(x.Rhs[0]).(*ast.CallExpr); ok && same && types.IsInterface(lt) {
			if _, ok := c.Fun.(*ast.SelectorExpr); ok {
				same = false // the stand-in of the function may return another type
			}
		}
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if v, ok := r.recv2(x.Rhs[0]); ok {
			x.Rhs[0] = v
			if x.Tok != token.DEFINE {
				for i := range x.Lhs {
					x.Lhs[i] = r.lhs(x.Lhs[i], false)
				}
			}
			return x
		}
	}
	for i := range x.Rhs {
		x.Rhs[i] = r.expr(x.Rhs[i])
	}
	for i := range x.Lhs {
		if x.Tok == token.DEFINE {
			if id, ok := x.Lhs[i].(*ast.Ident); !ok || r.info.Defs[id] != nil || id.Name == "_" {
				continue
			}
			continue // redeclared plain identifiers must stay identifiers
		}
		x.Lhs[i] = r.lhs(x.Lhs[i], x.Tok != token.ASSIGN)
	}
	if x.Tok == token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
		return x
	}
	if p, site, ok := r.store(x.Lhs[0]); ok {
		// the write happens after everything the value is made of
		if x.Tok == token.ASSIGN {
			if same {
				return &ast.ExprStmt{X: call(r.vs("St"), p, x.Rhs[0], site)}
			}
		} else if op, ok := opOf[x.Tok]; ok && !r.noBlock {
			return r.update(p, site, op, x.Rhs[0])
		}
	}
	return x
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(r.vs("Go"), r.expr(fl))}
	}
	var list []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			return r.expr(e)
		}
		n := r.fresh("g")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return ast.NewIdent(n)
	}
	var fun ast.Expr
	if tv, ok := r.info.Types[c.Fun]; ok && tv.IsBuiltin() || isConv(r.info, c.Fun) {
		fun = c.Fun
	} else {
		n := r.fresh("f")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}})
		fun = ast.NewIdent(n)
	}
	var args []ast.Expr
	for _, a := range c.Args {
		args = append(args, bind(a))
	}
	nc := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	list = append(list, &ast.ExprStmt{X: call(r.vs("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return &ast.BlockStmt{List: list}
}

func isConv(info *types.Info, f ast.Expr) bool { tv, ok := info.Types[f]; return ok && tv.IsType() }

// deferCall keeps `defer f(args)`; builtins and channel closes need a closure.
func (r *rewriter) deferCall(c *ast.CallExpr) *ast.CallExpr {
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
			return &ast.CallExpr{Fun: instClose(r.vs("Close")), Args: []ast.Expr{r.expr(c.Args[0])}}
		}
	}
	e := r.expr(c)
	if ce, ok := e.(*ast.CallExpr); ok {
		return ce
	}
	return call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}}}}})
}

func instClose(e ast.Expr) ast.Expr { return e }

func (r *rewriter) rangeStmt(x *ast.RangeStmt, label string) ast.Stmt {
	t := r.typ(x.X).Underlying()
	switch tt := t.(type) {
	case *types.Chan:
		ch := r.fresh("c")
		v, ok := r.fresh("v"), r.fresh("ok")
		src := r.expr(x.X)
		r.block(x.Body)
		var pre []ast.Stmt
		if x.Key == nil || isBlank(x.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("Recv2"), ast.NewIdent(ch))}})
		} else {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("Recv2"), ast.NewIdent(ch))}})
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if x.Key != nil && !isBlank(x.Key) {
			key := x.Key
			if x.Tok == token.ASSIGN {
				key = r.lhs(key, false)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v)}})
		}
		body := &ast.BlockStmt{List: append(pre, x.Body.List...)}
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{src}}, Body: body, Post: nil}
	case *types.Map:
		_ = tt
		m := r.fresh("m")
		src := r.mapArg(x.X, false)
		r.block(x.Body)
		kn, ok := r.fresh("k"), r.fresh("ok")
		var pre []ast.Stmt
		// skip deleted entries
		vn := "_"
		if x.Value != nil && !isBlank(x.Value) {
			vn = r.fresh("v")
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(vn), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(m), Index: ast.NewIdent(kn)}}})
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		as := func(dst ast.Expr, from string) {
			if dst == nil || isBlank(dst) {
				return
			}
			if x.Tok == token.ASSIGN {
				dst = r.lhs(dst, false)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{dst}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(from)}})
		}
		as(x.Key, kn)
		if vn != "_" {
			as(x.Value, vn)
		}
		keysN := r.fresh("ks")
		inner := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(kn), Tok: token.DEFINE, X: ast.NewIdent(keysN), Body: &ast.BlockStmt{List: append(pre, x.Body.List...)}}
		// for m, ks := src, keys(src); ... cannot hold a range: bind through a helper
		// returning both in one range expression instead.
		inner.X = call(r.vs("Keys"), ast.NewIdent(m))
		if label != "" {
			// the label must stay on the loop: inline the map expression
			inner.X = call(r.vs("Keys"), src)
			pre[0].(*ast.AssignStmt).Rhs[0].(*ast.IndexExpr).X = r.dup(src)
			return inner
		}
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{src}},
			inner,
		}}
	default:
		x.X = r.expr(x.X)
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				x.Key = r.lhs(x.Key, false)
			}
			if x.Value != nil {
				x.Value = r.lhs(x.Value, false)
			}
		}
		r.block(x.Body)
	}
	return x
}

func (r *rewriter) dup(e ast.Expr) ast.Expr { return e }

func isBlank(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name == "_" }

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: call(r.vs("Block"))}
	}
	hasDef := false
	var lhs, rhs, args []ast.Expr
	var clauses []ast.Stmt
	n := 0
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: r.stmts(cc.Body)})
			continue
		}
		cn := r.fresh("s")
		lhs = append(lhs, ast.NewIdent(cn))
		args = append(args, ast.NewIdent(cn))
		var pre []ast.Stmt
		fld := func(f string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(cn), Sel: ast.NewIdent(f)} }
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(r.vs("SC"), r.expr(c.Chan)), r.expr(c.Value)))
		case *ast.ExprStmt:
			u := ast.Unparen(c.X).(*ast.UnaryExpr)
			rhs = append(rhs, call(r.vs("RC"), r.expr(u.X)))
		case *ast.AssignStmt:
			u := ast.Unparen(c.Rhs[0]).(*ast.UnaryExpr)
			rhs = append(rhs, call(r.vs("RC"), r.expr(u.X)))
			rr := []ast.Expr{fld("V")}
			if len(c.Lhs) == 2 {
				rr = append(rr, fld("OK"))
			}
			ll := c.Lhs
			if c.Tok == token.ASSIGN {
				for i := range ll {
					ll[i] = r.lhs(ll[i], false)
				}
			}
			allBlank := true
			for _, e := range ll {
				if !isBlank(e) {
					allBlank = false
				}
			}
			tok := c.Tok
			if allBlank {
				tok = token.ASSIGN
			}
			pre = append(pre, &ast.AssignStmt{Lhs: ll, Tok: tok, Rhs: rr})
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append(pre, r.stmts(cc.Body)...)})
		n++
	}
	clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	def := "false"
	if hasDef {
		def = "true"
	}
	sw := &ast.SwitchStmt{Tag: call(r.vs("Select"), append([]ast.Expr{ast.NewIdent(def)}, args...)...), Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

// ---- expressions

func (r *rewriter) site(e ast.Node, name string) ast.Expr {
	p := r.w.fset.Position(e.Pos())
	_ = p
	s := name
	id := -1
	for i, x := range r.sites {
		if x == s {
			id = i
			break
		}
	}
	if id < 0 {
		r.sites = append(r.sites, s)
		id = len(r.sites) - 1
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(r.siteBase + id)}
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		return r.access(x, x, false)
	case *ast.SelectorExpr:
		return r.selector(x, 'r')
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.vs("Recv"), r.expr(x.X))
		}
		if x.Op == token.AND {
			x.X = r.addr(x.X)
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.StarExpr:
		if tv, ok := r.info.Types[x]; ok && tv.IsType() {
			x.X = r.expr(x.X)
			return x
		}
		t := r.typ(x)
		name := "*" + types.TypeString(t, types.RelativeTo(r.pkg))
		x.X = r.expr(x.X)
		if r.race && r.recordable(t) {
			x.X = call(r.vs("R"), x.X, r.site(x, name))
		}
		return x
	case *ast.CallExpr:
		return r.callExpr(x)
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
		return x
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		isStruct := false
		if t, ok := r.typ(x).Underlying().(*types.Struct); ok {
			_ = t
			isStruct = true
		}
		if p, ok := r.typ(x).Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				isStruct = true
			}
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.IndexExpr:
		return r.index(x, 'r')
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
		return x
	case *ast.SliceExpr:
		if _, ok := r.typ(x.X).Underlying().(*types.Array); ok {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		if x.Low != nil {
			x.Low = r.expr(x.Low)
		}
		if x.High != nil {
			x.High = r.expr(x.High)
		}
		if x.Max != nil {
			x.Max = r.expr(x.Max)
		}
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		return x
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.ArrayType:
		if x.Len != nil {
			x.Len = r.expr(x.Len)
		}
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
		return x
	case *ast.FuncType:
		r.funcType(x)
		return x
	case *ast.StructType:
		r.fields(x.Fields)
		return x
	case *ast.InterfaceType:
		for _, f := range x.Methods.List {
			f.Type = r.expr(f.Type)
		}
		return x
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
		return x
	}
	return e
}

// recordable: plain data only; sync primitives and arrays handle themselves.
func (r *rewriter) recordable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !r.recordable(u.Field(i).Type()) && isSyncType(u.Field(i).Type()) {
				return false
			}
		}
		return !isSyncType(t)
	case *types.TypeParam:
		return false
	}
	return !isSyncType(t)
}

func isSyncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	return false
}

// access instruments an identifier use (globals, captured locals).
func (r *rewriter) access(id *ast.Ident, e ast.Expr, write bool) ast.Expr {
	if !r.race {
		return e
	}
	o, ok := r.info.Uses[id].(*types.Var)
	if !ok || o.IsField() {
		return e
	}
	if !(r.captured[o] || (o.Parent() == r.pkg.Scope() && r.mutGlob[o])) || !r.recordable(o.Type()) {
		return e
	}
	fn := "R"
	if write {
		fn = "W"
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.vs(fn), &ast.UnaryExpr{Op: token.AND, X: e}, r.site(id, id.Name))}}
}

// selector handles package-qualified names and field/method selections.
func (r *rewriter) selector(x *ast.SelectorExpr, mode byte) ast.Expr {
	if id, ok := x.X.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			return r.qualified(x, pn.Imported().Path())
		}
	}
	sel := r.info.Selections[x]
	if sel == nil || sel.Kind() != types.FieldVal {
		// method value / call receiver
		if sel != nil && sel.Kind() == types.MethodVal {
			if f, ok := sel.Obj().(*types.Func); ok {
				sig := f.Type().(*types.Signature)
				if sig.Recv() != nil {
					_, ptrRecv := sig.Recv().Type().(*types.Pointer)
					_, isPtr := r.typ(x.X).Underlying().(*types.Pointer)
					_, isIface := r.typ(x.X).Underlying().(*types.Interface)
					if ptrRecv && !isPtr && !isIface {
						x.X = r.addr(x.X)
						return x
					}
				}
			}
		}
		x.X = r.expr(x.X)
		return x
	}
	full := r.fieldName(x, sel)
	_, basePtr := r.typ(x.X).Underlying().(*types.Pointer)
	if basePtr {
		x.X = r.expr(x.X)
	} else {
		x.X = r.addr(x.X)
	}
	if mode == 'a' || !r.race {
		return x
	}
	if !r.recordable(sel.Type()) || !r.throughPointer(x, sel) {
		return x
	}
	fn := "R"
	if mode == 'w' {
		fn = "W"
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.vs(fn), &ast.UnaryExpr{Op: token.AND, X: x}, r.site(x, full))}}
}

func (r *rewriter) fieldName(x *ast.SelectorExpr, sel *types.Selection) string {
	t := sel.Recv()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return n + "." + x.Sel.Name
}

// throughPointer: the field lives behind a pointer, in a global or a captured variable.
func (r *rewriter) throughPointer(x *ast.SelectorExpr, sel *types.Selection) bool {
	if sel.Indirect() {
		return true
	}
	e := ast.Unparen(x.X)
	for {
		switch y := e.(type) {
		case *ast.Ident:
			o, ok := r.info.Uses[y].(*types.Var)
			return ok && (r.captured[o] || o.Parent() == r.pkg.Scope())
		case *ast.SelectorExpr:
			if s := r.info.Selections[y]; s != nil && s.Kind() == types.FieldVal {
				if s.Indirect() {
					return true
				}
				if _, ok := r.typ(y.X).Underlying().(*types.Pointer); ok {
					return true
				}
				e = ast.Unparen(y.X)
				continue
			}
			return false
		case *ast.StarExpr:
			return true
		case *ast.IndexExpr:
			_, ok := r.typ(y.X).Underlying().(*types.Slice)
			return ok
		case *ast.ParenExpr:
			e = y.X
			continue
		default:
			return false
		}
	}
}

// addr rewrites an operand whose address (not value) is used.
func (r *rewriter) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
		return x
	case *ast.SelectorExpr:
		return r.selector(x, 'a')
	case *ast.IndexExpr:
		return r.index(x, 'a')
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	}
	return r.expr(e)
}

// lhs rewrites an assignment target.
func (r *rewriter) lhs(e ast.Expr, rmw bool) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return r.access(x, x, true)
	case *ast.ParenExpr:
		x.X = r.lhs(x.X, rmw)
		return x
	case *ast.SelectorExpr:
		return r.selector(x, 'w')
	case *ast.IndexExpr:
		return r.index(x, 'w')
	case *ast.StarExpr:
		t := r.typ(x)
		x.X = r.expr(x.X)
		if r.race && r.recordable(t) {
			x.X = call(r.vs("W"), x.X, r.site(x, "*"+types.TypeString(t, types.RelativeTo(r.pkg))))
		}
		return x
	}
	return r.expr(e)
}

func (r *rewriter) mapArg(e ast.Expr, write bool) ast.Expr {
	name := types.ExprString(e)
	v := r.expr(e)
	if !r.race {
		return v
	}
	fn := "MR"
	if write {
		fn = "MW"
	}
	return call(r.vs(fn), v, r.site(e, "map "+name))
}

func (r *rewriter) index(x *ast.IndexExpr, mode byte) ast.Expr {
	if tv, ok := r.info.Types[x.X]; ok && (tv.IsType() || isGenericFunc(tv.Type)) {
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
		return x
	}
	switch r.typ(x.X).Underlying().(type) {
	case *types.Map:
		x.X = r.mapArg(x.X, mode == 'w')
		x.Index = r.expr(x.Index)
		return x
	case *types.Slice:
		name := types.ExprString(x.X) + "[]"
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
		t := r.typ(x)
		if mode == 'a' || !r.race || !r.recordable(t) {
			return x
		}
		fn := "R"
		if mode == 'w' {
			fn = "W"
		}
		return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.vs(fn), &ast.UnaryExpr{Op: token.AND, X: x}, r.site(x, name))}}
	case *types.Array:
		x.X = r.addr(x.X)
		x.Index = r.expr(x.Index)
		return x
	}
	x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	return x
}

func isGenericFunc(t types.Type) bool {
	s, ok := t.(*types.Signature)
	return ok && s != nil
}

func (r *rewriter) callExpr(x *ast.CallExpr) ast.Expr {
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "close":
				return call(r.vs("Close"), r.expr(x.Args[0]))
			case "len":
				if isChan(r.typ(x.Args[0])) {
					return call(r.vs("Len"), r.expr(x.Args[0]))
				}
				if _, ok := r.typ(x.Args[0]).Underlying().(*types.Map); ok {
					x.Args[0] = r.mapArg(x.Args[0], false)
					return x
				}
			case "delete":
				x.Args[0] = r.mapArg(x.Args[0], true)
				x.Args[1] = r.expr(x.Args[1])
				return x
			case "append":
				if r.race && len(x.Args) >= 2 {
					st, ok := r.typ(x.Args[0]).Underlying().(*types.Slice)
					if ok && r.recordable(st.Elem()) && !r.info.Types[x.Args[0]].IsNil() {
						name := "append " + types.ExprString(x.Args[0])
						fn := "Append"
						if x.Ellipsis.IsValid() {
							if bt, ok := r.typ(x.Args[1]).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
								fn = "AppendStr"
								x.Ellipsis = token.NoPos
							}
						}
						r.exprs(x.Args)
						x.Fun = r.vs(fn)
						x.Args = append([]ast.Expr{r.site(x, name)}, x.Args...)
						return x
					}
				}
			case "copy":
				if r.race {
					_, s1 := r.typ(x.Args[0]).Underlying().(*types.Slice)
					_, s2 := r.typ(x.Args[1]).Underlying().(*types.Slice)
					if s1 && s2 {
						name := "copy " + types.ExprString(x.Args[0])
						r.exprs(x.Args)
						return call(r.vs("Copy"), append([]ast.Expr{r.site(x, name)}, x.Args...)...)
					}
				}
			}
			r.exprs(x.Args)
			return x
		}
	}
	x.Fun = r.expr(x.Fun)
	r.exprs(x.Args)
	return x
}

// qualified substitutes pkg.Name by the shim when it has the name.
func (r *rewriter) qualified(x *ast.SelectorExpr, path string) ast.Expr {
	alias := ""
	if path == "encoding/binary" && r.race && x.Sel.Name == "BigEndian" {
		alias = "vsx_binary"
		r.need[*modPath+"/zz/x/binary"] = alias
		return &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: x.Sel}
	}
	if sc, ok := r.shimScope[path]; ok && sc.Lookup(x.Sel.Name) != nil && ast.IsExported(x.Sel.Name) {
		s := shims[path]
		alias = "vsx_" + filepath.Base(s)
		r.need[*modPath+"/"+s] = alias
		return &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: x.Sel}
	}
	return x
}

// fixImports drops imports no longer used and adds the new ones.
func (r *rewriter) fixImports(f *ast.File) {
	usedNames := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					if _, isVar := r.info.Uses[id].(*types.Var); !isVar {
						usedNames[id.Name] = true
					}
				}
			}
			return true
		})
	}
	var specs []ast.Spec
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else if pn, ok := r.info.Implicits[is].(*types.PkgName); ok {
				name = pn.Name()
			}
			if name == "_" || name == "." || p == "unsafe" || usedNames[name] {
				specs = append(specs, &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
			}
		}
	}
	var paths []string
	for p := range r.need {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(r.need[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
	}
	var decls []ast.Decl
	if len(specs) > 0 {
		// one import declaration per spec: positions do not matter then
		for _, s := range specs {
			decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
		}
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Imports = nil
}
