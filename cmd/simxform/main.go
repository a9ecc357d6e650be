// simxform copies the non-test packages of a Go module into a scratch tree and
// redirects every source of nondeterminism (goroutines, channels, select, sync,
// time, net, math/rand, context, map iteration) to the simulation runtime.
//
//	simxform -src /repo -out DIR [-dep importpath]...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

const simRoot = "github.com/younglifestyle/secs4go/verifsim"

// imports redirected to shims; the shim's package name equals the original's.
var shims = map[string]string{
	"sync":         simRoot + "/shim/sync",
	"time":         simRoot + "/shim/time",
	"net":          simRoot + "/shim/net",
	"math/rand":    simRoot + "/shim/rand",
	"math/rand/v2": simRoot + "/shim/rand2",
	"crypto/rand":  simRoot + "/shim/crand",
	"context":      simRoot + "/shim/context",
	"maps":         simRoot + "/shim/maps",
	"runtime":      simRoot + "/shim/runtime",
	"os/signal":    simRoot + "/shim/signal",
}

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	DepOnly, Standard             bool
	Module                        *struct{ Path string }
	Error                         *struct{ Err string }
}

type depFlags []string

func (d *depFlags) String() string     { return strings.Join(*d, ",") }
func (d *depFlags) Set(s string) error { *d = append(*d, s); return nil }

func main() {
	src := flag.String("src", "/repo", "module to transform")
	out := flag.String("out", "", "output directory")
	var deps depFlags
	flag.Var(&deps, "dep", "dependency module package to transform too (importpath)")
	flag.Parse()
	if *out == "" {
		fatal("need -out")
	}
	var errb bytes.Buffer
	lc := exec.Command("go", "list", "-e", "-f", "{{.ImportPath}} {{.Name}} {{len .GoFiles}}", "./...")
	lc.Dir = *src
	lc.Stderr = &errb
	lb, err := lc.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	args := []string{"list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,DepOnly,Standard,Module,Error"}
	for _, l := range strings.Split(string(lb), "\n") {
		f := strings.Fields(l)
		if len(f) != 3 || f[1] == "main" || f[2] == "0" || strings.Contains(f[0], "secs4go/example") || strings.Contains(f[0], "secs4go/verification") {
			continue
		}
		args = append(args, f[0])
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	cmd.Stderr = &errb
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	pk := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pp := p
		pk[p.ImportPath] = &pp
		order = append(order, &pp)
	}
	isDep := map[string]bool{}
	for _, d := range deps {
		isDep[d] = true
	}
	var todo []*listPkg
	for _, p := range order {
		if p.Standard {
			continue
		}
		if isDep[p.ImportPath] {
			todo = append(todo, p)
			continue
		}
		if p.DepOnly {
			if p.Module == nil || p.Module.Path != "github.com/younglifestyle/secs4go" {
				continue
			}
		}
		if p.Name == "main" || len(p.GoFiles) == 0 {
			continue
		}
		rel := strings.TrimPrefix(p.ImportPath, "github.com/younglifestyle/secs4go")
		if strings.HasPrefix(rel, "/example") || strings.HasPrefix(rel, "/verification") {
			continue
		}
		todo = append(todo, p)
	}
	var wg sync.WaitGroup
	errs := make([]error, len(todo))
	sem := make(chan bool, 8)
	for i, p := range todo {
		wg.Add(1)
		go func(i int, p *listPkg) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			dir := filepath.Join(*out, strings.TrimPrefix(p.ImportPath, "github.com/younglifestyle/secs4go"))
			if isDep[p.ImportPath] {
				dir = filepath.Join(*out, "verifsim", "dep", filepath.Base(p.ImportPath))
			}
			errs[i] = transformPkg(p, pk, dir, isDep, i*sitesPerPkg)
		}(i, p)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fatal("%v", e)
		}
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simxform: "+f+"\n", a...)
	os.Exit(2)
}

// sitesPerPkg bounds the yield points of a package (simrt has room for 16 packages).
const sitesPerPkg = 1 << 14

func transformPkg(p *listPkg, all map[string]*listPkg, outDir string, isDep map[string]bool, site0 int) error {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(q.Export)
	})
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, FakeImportC: true}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return fmt.Errorf("type-check %s: %v", p.ImportPath, err)
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		return err
	}
	initIdx := map[string]int{}
	for i, in := range info.InitOrder {
		for _, v := range in.Lhs {
			initIdx[v.Name()] = i + 1
		}
	}
	// the item library is sequential, value-like code: yield points only where it could spin
	lite := strings.Contains(p.ImportPath, "lib-secs2")
	site := site0
	for i, f := range files {
		x := &xf{info: info, pkg: tp, fset: fset, lite: lite, initIdx: initIdx, site: &site}
		x.file(f, isDep)
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.TabIndent | printer.UseSpaces, Tabwidth: 8}
		if err := cfg.Fprint(&buf, fset, f); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(outDir, filepath.Base(p.GoFiles[i])), buf.Bytes(), 0o644); err != nil {
			return err
		}
	}
	if site >= site0+sitesPerPkg {
		return fmt.Errorf("%s has too many statements", p.ImportPath)
	}
	return nil
}

type xf struct {
	info    *types.Info
	pkg     *types.Package
	fset    *token.FileSet
	lite    bool // only loop/function-entry points
	n       int
	used    bool
	site    *int           // number of the last yield point
	fields  []string       // which fields the statements after the yield points use
	initIdx map[string]int // package variable -> position in initialisation order
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func (x *xf) rt(name string) ast.Expr {
	x.used = true
	return &ast.SelectorExpr{X: id("simrt__"), Sel: id(name)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func method(r ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: r, Sel: id(name)}, args...)
}
func (x *xf) tmp(p string) string { x.n++; return fmt.Sprintf("%s__%d", p, x.n) }
func intLit(i int) ast.Expr       { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)} }
func define(name string, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

func (x *xf) file(f *ast.File, isDep map[string]bool) {
	f.Comments = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil {
				x.fieldList(d.Recv)
			}
			x.funcType(d.Type)
			if d.Body != nil {
				x.block(d.Body)
				if x.lite {
					d.Body.List = append([]ast.Stmt{x.point()}, d.Body.List...)
				}
			}
		case *ast.GenDecl:
			x.genDecl(d)
		}
	}
	x.resets(f)
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path := strings.Trim(is.Path.Value, "\"`")
			if sp, ok := shims[path]; ok {
				is.Path.Value = fmt.Sprintf("%q", sp)
				is.EndPos = 0
			} else if isDep[path] {
				is.Path.Value = fmt.Sprintf("%q", simRoot+"/dep/"+filepath.Base(path))
			}
		}
	}
	if x.used {
		spec := &ast.ImportSpec{Name: id("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", simRoot+"/simrt")}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
	}
}

// resets adds an init function that registers how to give each package variable of the
// file its initial value again, so that runs in one process do not influence each other.
func (x *xf) resets(f *ast.File) {
	var body []ast.Stmt
	reg := func(idx int, st ast.Stmt) {
		fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blockOf(st)}
		body = append(body, &ast.ExprStmt{X: call(x.rt("OnReset"), &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", x.pkg.Path())}, intLit(idx), fn)})
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			s := sp.(*ast.ValueSpec)
			if len(s.Values) == 1 && len(s.Names) > 1 {
				idx := 0
				var lhs []ast.Expr
				for _, n := range s.Names {
					lhs = append(lhs, id(n.Name))
					if n.Name != "_" {
						idx = x.initIdx[n.Name]
					}
				}
				reg(idx, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: s.Values})
				continue
			}
			for i, n := range s.Names {
				if n.Name == "_" {
					continue
				}
				if i < len(s.Values) {
					reg(x.initIdx[n.Name], &ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{s.Values[i]}})
				} else {
					reg(0, &ast.ExprStmt{X: call(x.rt("Zero"), &ast.UnaryExpr{Op: token.AND, X: id(n.Name)})})
				}
			}
		}
	}
	if len(x.fields) > 0 {
		body = append(body, &ast.ExprStmt{X: call(x.rt("Fields"), &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", strings.Join(x.fields, "\n"))})})
		x.fields = nil
	}
	if len(body) > 0 {
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blockOf(body...)})
	}
}

// point is a yield point; those outside the item library are numbered sites.
func (x *xf) point() ast.Stmt {
	if x.lite {
		return &ast.ExprStmt{X: call(x.rt("Point"))}
	}
	return &ast.ExprStmt{X: call(x.rt("PointAt"), x.newSite())}
}

func (x *xf) newSite() ast.Expr {
	if x.lite {
		return intLit(0)
	}
	*x.site++
	return intLit(*x.site)
}

func (x *xf) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.TypeSpec:
			if s.TypeParams != nil {
				x.fieldList(s.TypeParams)
			}
			s.Type = x.expr(s.Type)
		case *ast.ValueSpec:
			if s.Type != nil {
				s.Type = x.expr(s.Type)
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					s.Values[0] = method(x.expr(u.X), "Recv2")
					continue
				}
			}
			for i := range s.Values {
				s.Values[i] = x.expr(s.Values[i])
			}
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (x *xf) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = x.expr(f.Type)
	}
}
func (x *xf) funcType(t *ast.FuncType) {
	x.fieldList(t.TypeParams)
	x.fieldList(t.Params)
	x.fieldList(t.Results)
}

func (x *xf) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = x.expr(l[i])
	}
}

func (x *xf) typeOf(e ast.Expr) types.Type {
	if tv, ok := x.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := x.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := x.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}
func (x *xf) isChan(e ast.Expr) bool {
	t := x.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func (x *xf) isMap(e ast.Expr) bool {
	t := x.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func (x *xf) builtin(e ast.Expr) string {
	i, ok := unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := x.info.Uses[i].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (x *xf) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
		return e
	case *ast.Ellipsis:
		e.Elt = x.expr(e.Elt)
	case *ast.FuncLit:
		x.funcType(e.Type)
		x.block(e.Body)
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = x.expr(e.Type)
		}
		x.exprs(e.Elts)
	case *ast.ParenExpr:
		e.X = x.expr(e.X)
	case *ast.SelectorExpr:
		e.X = x.expr(e.X)
	case *ast.IndexExpr:
		e.X = x.expr(e.X)
		e.Index = x.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = x.expr(e.X)
		x.exprs(e.Indices)
	case *ast.SliceExpr:
		e.X = x.expr(e.X)
		e.Low, e.High, e.Max = x.expr(e.Low), x.expr(e.High), x.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = x.expr(e.X)
		if e.Type != nil {
			e.Type = x.expr(e.Type)
		}
	case *ast.CallExpr:
		return x.callExpr(e)
	case *ast.StarExpr:
		e.X = x.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return method(x.expr(e.X), "Recv")
		}
		e.X = x.expr(e.X)
	case *ast.BinaryExpr:
		e.X = x.expr(e.X)
		e.Y = x.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key = x.expr(e.Key)
		e.Value = x.expr(e.Value)
	case *ast.ArrayType:
		e.Len = x.expr(e.Len)
		e.Elt = x.expr(e.Elt)
	case *ast.StructType:
		x.fieldList(e.Fields)
	case *ast.FuncType:
		x.funcType(e)
	case *ast.InterfaceType:
		x.fieldList(e.Methods)
	case *ast.MapType:
		e.Key = x.expr(e.Key)
		e.Value = x.expr(e.Value)
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: x.rt("Chan"), Index: x.expr(e.Value)}}
	default:
		panic(fmt.Sprintf("simxform: unhandled expr %T", e))
	}
	return e
}

func (x *xf) callExpr(e *ast.CallExpr) ast.Expr {
	switch b := x.builtin(e.Fun); b {
	case "make":
		if x.isChan(e.Args[0]) {
			ct, ok := unparen(e.Args[0]).(*ast.ChanType)
			if !ok {
				panic("simxform: make of a named channel type is not supported")
			}
			elem := x.expr(ct.Value)
			var n ast.Expr = intLit(0)
			if len(e.Args) > 1 {
				n = x.expr(e.Args[1])
			}
			return call(&ast.IndexExpr{X: x.rt("MakeChan"), Index: elem}, call(id("int"), n))
		}
		if t := x.typeOf(e.Args[0]); t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				_ = sl
				last := len(e.Args) - 1
				for i := range e.Args {
					isConst := x.info.Types[e.Args[i]].Value != nil
					e.Args[i] = x.expr(e.Args[i])
					if i == last && i > 0 && !isConst {
						if at, ok := unparen(e.Args[0]).(*ast.ArrayType); ok && at.Len == nil {
							e.Args[i] = call(&ast.IndexExpr{X: x.rt("AllocN"), Index: at.Elt}, call(id("int"), e.Args[i]))
						}
					}
				}
				return e
			}
		}
	case "len":
		if x.isChan(e.Args[0]) {
			return method(x.expr(e.Args[0]), "Len")
		}
	case "cap":
		if x.isChan(e.Args[0]) {
			return method(x.expr(e.Args[0]), "Cap")
		}
	case "close":
		return method(x.expr(e.Args[0]), "Close")
	}
	e.Fun = x.expr(e.Fun)
	x.exprs(e.Args)
	return e
}

// ---- statements

func (x *xf) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = x.stmts(b.List)
}

func (x *xf) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if !x.lite {
			fs := x.fieldTouches(s)
			if takesLock(s) {
				fs = append(fs, "l -")
			}
			out = append(out, x.mapTouches(s)...)
			out = append(out, x.point())
			x.note(fs)
		}
		out = append(out, x.stmt(s)...)
	}
	return out
}

// takesLock tells whether a statement, by the name of what it calls, takes a lock or sets an
// atomic variable.
func takesLock(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.DeferStmt, *ast.GoStmt:
			return false
		case *ast.CallExpr:
			if f, ok := n.Fun.(*ast.SelectorExpr); ok {
				switch f.Sel.Name {
				case "Lock", "RLock", "TryLock", "Store", "Swap", "CompareAndSwap", "CAS":
					found = true
				}
			}
		}
		return true
	})
	return found
}

// note attaches the fields a statement uses to the last yield point.
func (x *xf) note(fs []string) {
	for _, f := range fs {
		x.fields = append(x.fields, fmt.Sprintf("%d %s", *x.site, f))
	}
}

// fieldTouches lists the struct fields and package variables a statement reads or writes
// itself, as "r name" or "w name".
func (x *xf) fieldTouches(s ast.Stmt) []string {
	var out []string
	name := func(e ast.Expr) string {
		var v types.Object
		switch e := unparen(e).(type) {
		case *ast.SelectorExpr:
			if s := x.info.Selections[e]; s != nil && s.Kind() == types.FieldVal {
				v = s.Obj()
			}
		case *ast.Ident:
			if o, ok := x.info.Uses[e].(*types.Var); ok && o.Parent() == x.pkg.Scope() {
				v = o
			}
		}
		if v == nil || v.Pkg() != x.pkg {
			return ""
		}
		p := x.fset.Position(v.Pos())
		return fmt.Sprintf("%s/%s:%d:%d", v.Pkg().Path(), filepath.Base(p.Filename), p.Line, p.Column)
	}
	add := func(e ast.Expr, rw string) {
		if n := name(e); n != "" {
			out = append(out, rw+" "+n)
		}
	}
	read := func(l ...ast.Expr) {
		for _, e := range l {
			if e == nil {
				continue
			}
			ast.Inspect(e, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncLit:
					return false
				case *ast.SelectorExpr:
					add(n, "r")
				case *ast.Ident:
					add(n, "r")
				}
				return true
			})
		}
	}
	var write func(e ast.Expr)
	write = func(e ast.Expr) {
		switch e := unparen(e).(type) {
		case *ast.IndexExpr:
			write(e.X)
			read(e.Index)
		case *ast.SelectorExpr:
			add(e, "w")
			read(e.X)
		case *ast.Ident:
			add(e, "w")
		default:
			read(e)
		}
	}
	var scan func(s ast.Stmt)
	scan = func(s ast.Stmt) {
		switch s := s.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				write(l)
				if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
					read(l)
				}
			}
			read(s.Rhs...)
		case *ast.IncDecStmt:
			write(s.X)
			read(s.X)
		case *ast.ExprStmt:
			read(s.X)
		case *ast.SendStmt:
			read(s.Chan, s.Value)
		case *ast.ReturnStmt:
			read(s.Results...)
		case *ast.GoStmt:
			read(s.Call)
		case *ast.DeferStmt:
			read(s.Call)
		case *ast.RangeStmt:
			read(s.X)
		case *ast.IfStmt:
			if s.Init != nil {
				scan(s.Init)
			}
			read(s.Cond)
		case *ast.ForStmt:
			if s.Init != nil {
				scan(s.Init)
			}
			if s.Cond != nil {
				read(s.Cond)
			}
		case *ast.SwitchStmt:
			if s.Init != nil {
				scan(s.Init)
			}
			if s.Tag != nil {
				read(s.Tag)
			}
		}
	}
	scan(s)
	return out
}

// pure reports whether evaluating e twice is harmless: identifiers and field selections only.
func (x *xf) pure(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		if s := x.info.Selections[e]; s != nil && s.Kind() != types.FieldVal {
			return false
		}
		return x.pure(e.X)
	}
	return false
}

// shared reports whether e denotes state other goroutines may reach (a field or package variable).
func (x *xf) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.SelectorExpr:
		if s := x.info.Selections[e]; s != nil {
			return s.Kind() == types.FieldVal
		}
		_, ok := x.info.Uses[e.Sel].(*types.Var)
		return ok
	case *ast.Ident:
		if v, ok := x.info.Uses[e].(*types.Var); ok {
			return v.Parent() == x.pkg.Scope()
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

// mapTouches emits MapR/MapW calls for the shared maps a statement reads or writes, so
// that unsynchronised concurrent access (a fatal error in Go) can be observed.
func (x *xf) mapTouches(s ast.Stmt) []ast.Stmt {
	type touch struct {
		m ast.Expr
		w bool
	}
	var ts []touch
	add := func(m ast.Expr, w bool) {
		local := false // a local variable may hold a map others use as well
		if i, ok := unparen(m).(*ast.Ident); ok {
			_, local = x.info.Uses[i].(*types.Var)
		}
		if x.isMap(m) && x.pure(m) && (local || x.shared(m)) {
			ts = append(ts, touch{m, w})
		}
	}
	var scan func(n ast.Node)
	scan = func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BinaryExpr:
				if n.Op == token.LAND || n.Op == token.LOR {
					scan(n.X)
					return false
				}
			case *ast.IndexExpr:
				add(n.X, false)
			case *ast.CallExpr:
				switch x.builtin(n.Fun) {
				case "len":
					add(n.Args[0], false)
				case "delete", "clear":
					add(n.Args[0], true)
				}
			}
			return true
		})
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, l := range s.Lhs {
			if ix, ok := unparen(l).(*ast.IndexExpr); ok {
				add(ix.X, true)
				scan(ix.Index)
			}
		}
		for _, r := range s.Rhs {
			scan(r)
		}
	case *ast.IncDecStmt:
		if ix, ok := unparen(s.X).(*ast.IndexExpr); ok {
			add(ix.X, true)
		}
	case *ast.ExprStmt:
		scan(s.X)
	case *ast.ReturnStmt:
		for _, r := range s.Results {
			scan(r)
		}
	case *ast.IfStmt:
		if s.Init != nil {
			if a, ok := s.Init.(*ast.AssignStmt); ok {
				for _, r := range a.Rhs {
					scan(r)
				}
			}
		} else {
			scan(s.Cond)
		}
	case *ast.SwitchStmt:
		if s.Init == nil && s.Tag != nil {
			scan(s.Tag)
		}
	case *ast.RangeStmt:
		add(s.X, false)
	case *ast.SendStmt:
		scan(s.Value)
	}
	var out []ast.Stmt
	seen := map[string]bool{}
	for _, t := range ts {
		var b bytes.Buffer
		printer.Fprint(&b, x.fset, t.m)
		k := fmt.Sprint(t.w, b.String())
		if seen[k] {
			continue
		}
		seen[k] = true
		name := "MapR"
		if t.w {
			name = "MapW"
		}
		out = append(out, &ast.ExprStmt{X: call(x.rt(name), x.clone(t.m), x.newSite())})
	}
	return out
}

func (x *xf) clone(e ast.Expr) ast.Expr {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return id(e.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: x.clone(e.X), Sel: id(e.Sel.Name)}
	}
	panic("clone")
}

func (x *xf) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := x.stmt(s)
	if len(r) != 1 {
		panic("simxform: simple statement expanded")
	}
	return r[0]
}

func blockOf(l ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: l} }

var noSplit = false

func (x *xf) stmt(s ast.Stmt) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }
	switch s := s.(type) {
	case *ast.ExprStmt:
		s.X = x.expr(s.X)
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: method(x.expr(s.Chan), "Send", x.expr(s.Value))})
	case *ast.IncDecStmt:
		if !x.lite && x.shared(s.X) && x.splittable(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return one(x.split(s.X, op, intLit(1)))
		}
		s.X = x.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Rhs[0] = method(x.expr(u.X), "Recv2")
				x.exprs(s.Lhs)
				return one(s)
			}
		}
		if !x.lite && len(s.Lhs) == 1 && len(s.Rhs) == 1 && x.shared(s.Lhs[0]) && x.splittable(s.Lhs[0]) {
			if op, ok := assignOp[s.Tok]; ok {
				return one(x.split(s.Lhs[0], op, &ast.ParenExpr{X: s.Rhs[0]}))
			}
			if s.Tok == token.ASSIGN {
				compound := false
				switch r := unparen(s.Rhs[0]).(type) {
				case *ast.BinaryExpr:
					compound = true
				case *ast.UnaryExpr:
					compound = r.Op == token.NOT
				case *ast.CallExpr:
					compound = x.builtin(r.Fun) == "append"
				}
				if compound {
					tv := x.info.Types[s.Rhs[0]]
					lt := x.typeOf(s.Lhs[0])
					if tv.Value == nil && lt != nil && types.Identical(tv.Type, lt) {
						t, fs := x.tmp("v"), x.fieldTouches(s)
						val, pt := x.expr(s.Rhs[0]), x.point()
						x.note(fs)
						return one(blockOf(define(t, val), pt,
							&ast.AssignStmt{Lhs: []ast.Expr{x.expr(s.Lhs[0])}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}))
					}
				}
			}
		}
		x.exprs(s.Lhs)
		x.exprs(s.Rhs)
	case *ast.GoStmt:
		return one(x.goStmt(s))
	case *ast.DeferStmt:
		e := x.expr(s.Call)
		s.Call = e.(*ast.CallExpr)
	case *ast.ReturnStmt:
		x.exprs(s.Results)
	case *ast.BranchStmt, *ast.EmptyStmt, *ast.BadStmt:
	case *ast.BlockStmt:
		x.block(s)
	case *ast.DeclStmt:
		x.genDecl(s.Decl.(*ast.GenDecl))
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			pre, sw := x.selectStmt(sel)
			s.Stmt = sw
			return one(blockOf(append(pre, s)...))
		}
		r := x.stmt(s.Stmt)
		if len(r) != 1 {
			panic("simxform: labeled statement expanded")
		}
		s.Stmt = r[0]
	case *ast.IfStmt:
		x.ifStmt(s)
	case *ast.CaseClause:
		x.exprs(s.List)
		s.Body = x.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = x.inner(s.Init)
		s.Tag = x.expr(s.Tag)
		for _, c := range s.Body.List {
			x.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		s.Init = x.inner(s.Init)
		s.Assign = x.inner(s.Assign)
		for _, c := range s.Body.List {
			x.stmt(c)
		}
	case *ast.SelectStmt:
		pre, sw := x.selectStmt(s)
		return one(blockOf(append(pre, sw)...))
	case *ast.ForStmt:
		s.Init = x.inner(s.Init)
		s.Cond = x.expr(s.Cond)
		s.Post = x.inner(s.Post)
		x.block(s.Body)
		s.Body.List = append([]ast.Stmt{x.point()}, s.Body.List...)
	case *ast.RangeStmt:
		isC, isM := x.isChan(s.X), x.isMap(s.X)
		s.X = x.expr(s.X)
		s.Key, s.Value = x.expr(s.Key), x.expr(s.Value)
		if isC {
			s.X = call(x.rt("RangeChan"), s.X)
		} else if isM {
			s.X = call(x.rt("MapRange"), s.X, x.newSite())
		}
		x.block(s.Body)
		s.Body.List = append([]ast.Stmt{x.point()}, s.Body.List...)
	default:
		panic(fmt.Sprintf("simxform: unhandled stmt %T", s))
	}
	return one(s)
}

// inner rewrites an init/post/assign statement, which must stay a simple statement.
func (x *xf) inner(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	lite := x.lite
	switch s.(type) {
	case *ast.AssignStmt, *ast.IncDecStmt:
		// no splitting here; nested function literals keep full treatment
		switch s := s.(type) {
		case *ast.IncDecStmt:
			s.X = x.expr(s.X)
			return s
		case *ast.AssignStmt:
			if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
				if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					s.Rhs[0] = method(x.expr(u.X), "Recv2")
					x.exprs(s.Lhs)
					return s
				}
			}
			x.exprs(s.Lhs)
			x.exprs(s.Rhs)
			return s
		}
	}
	x.lite = lite
	return x.simple(s)
}

func (x *xf) ifStmt(s *ast.IfStmt) {
	s.Init = x.inner(s.Init)
	s.Cond = x.expr(s.Cond)
	x.block(s.Body)
	switch e := s.Else.(type) {
	case nil:
	case *ast.BlockStmt:
		x.block(e)
	case *ast.IfStmt:
		x.ifStmt(e)
	}
}

var assignOp = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR,
}

func (x *xf) splittable(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return x.pure(e.X)
	}
	return false
}

// split turns X op= Y into a load, a yield point and a store.
func (x *xf) split(X ast.Expr, op token.Token, Y ast.Expr) ast.Stmt {
	p, t := x.tmp("p"), x.tmp("v")
	fs := x.fieldTouches(&ast.IncDecStmt{X: X})
	addr, pt := x.expr(X), x.point()
	x.note(fs)
	return blockOf(
		define(p, &ast.UnaryExpr{Op: token.AND, X: addr}),
		define(t, &ast.StarExpr{X: id(p)}),
		pt,
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id(p)}}, Tok: token.ASSIGN,
			Rhs: []ast.Expr{&ast.BinaryExpr{X: id(t), Op: op, Y: x.expr(Y)}}},
	)
}

func (x *xf) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(x.rt("Go"), x.expr(lit))}
	}
	if x.builtin(c.Fun) != "" {
		e := x.expr(c)
		return &ast.ExprStmt{X: call(x.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blockOf(&ast.ExprStmt{X: e})})}
	}
	var pre []ast.Stmt
	// a plain (package-level) function name needs no capture; anything else is evaluated now
	if i, ok := unparen(c.Fun).(*ast.Ident); !ok || func() bool { _, isF := x.info.Uses[i].(*types.Func); return !isF }() {
		isPkgFunc := false
		if sel, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && x.info.Selections[sel] == nil {
			if _, ok := x.info.Uses[sel.Sel].(*types.Func); ok {
				isPkgFunc = true
			}
		}
		if isPkgFunc {
			c.Fun = x.expr(c.Fun)
		} else {
			f := x.tmp("f")
			pre = append(pre, define(f, x.expr(c.Fun)))
			c.Fun = id(f)
		}
	}
	for i, a := range c.Args {
		tv := x.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			continue
		}
		n := x.tmp("a")
		pre = append(pre, define(n, x.expr(a)))
		c.Args[i] = id(n)
	}
	pre = append(pre, &ast.ExprStmt{X: call(x.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: blockOf(&ast.ExprStmt{X: c})})})
	return blockOf(pre...)
}

func (x *xf) selectStmt(s *ast.SelectStmt) ([]ast.Stmt, ast.Stmt) {
	var pre []ast.Stmt
	hasDef := "false"
	var clauses []ast.Stmt
	var args []ast.Expr
	idx := 0
	hasDefault := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{List: nil, Body: x.stmts(cc.Body)})
			continue
		}
		n := x.tmp("c")
		var body []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(n, call(x.rt("CaseSend"), x.expr(m.Chan), x.expr(m.Value))))
		case *ast.ExprStmt:
			u := unparen(m.X).(*ast.UnaryExpr)
			pre = append(pre, define(n, call(x.rt("CaseRecv"), x.expr(u.X))))
		case *ast.AssignStmt:
			u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define(n, call(x.rt("CaseRecv"), x.expr(u.X))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: id("V")}}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(n), Sel: id("OK")})
			}
			x.exprs(m.Lhs)
			body = append(body, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rhs})
		}
		args = append(args, id(n))
		body = append(body, x.stmts(cc.Body)...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{intLit(idx)}, Body: body})
		idx++
	}
	if !hasDefault {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"simrt: unreachable"`})}}})
	}
	sw := &ast.SwitchStmt{
		Tag:  call(x.rt("Select"), append([]ast.Expr{id(hasDef)}, args...)...),
		Body: &ast.BlockStmt{List: clauses},
	}
	return pre, sw
}

var _ = sort.Strings
