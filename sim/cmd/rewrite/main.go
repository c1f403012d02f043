// Command rewrite turns the code under test into its simulated form: imports
// of packages that touch scheduling, time, network, serial lines or
// randomness are redirected to shims, goroutine and channel statements become
// kernel calls, and a yield point is put before every statement.
//
// usage: rewrite -src /repo -out DIR [-list]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const shimBase = "verif.local/sim/shim/"

var shims = map[string]string{
	"sync":                       "sync",
	"sync/atomic":                "atomic",
	"time":                       "time",
	"net":                        "net",
	"context":                    "context",
	"math/rand":                  "rand",
	"math/rand/v2":               "randv2",
	"crypto/rand":                "crand",
	"crypto/tls":                 "tls",
	"encoding/binary":            "binary",
	"runtime":                    "runtime",
	"github.com/goburrow/serial": "serial",
}

var shimNames = map[string]map[string]bool{} // import path -> exported names

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path, GoVersion string }
	Name       string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

func main() {
	src := flag.String("src", "/repo", "source tree")
	out := flag.String("out", "", "output directory")
	shimDir := flag.String("shims", "", "directory of the shim packages")
	flag.Parse()
	for path, n := range shims {
		shimNames[path] = exported(filepath.Join(*shimDir, n))
	}
	orig := filepath.Join(*out, "orig")
	copyTree(*src, orig)
	cmd := exec.Command("go", "list", "-e", "-json", "-export", "-deps", "./...")
	cmd.Dir = orig
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var mine []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	modPath, goVer := "", "1.18"
	mb, _ := os.ReadFile(filepath.Join(orig, "go.mod"))
	for _, l := range strings.Split(string(mb), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			modPath = f[1]
		}
		if len(f) == 2 && f[0] == "go" && less("1.18", f[1]) {
			goVer = f[1]
		}
	}
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == modPath && len(p.GoFiles) > 0 {
			if p.Error != nil {
				die("%s: %s", p.ImportPath, p.Error.Err)
			}
			mine = append(mine, p)
		}
	}
	if len(mine) == 0 {
		die("no packages in %s", *src)
	}
	dst := filepath.Join(*out, "modbus")
	for _, p := range mine {
		rel, _ := filepath.Rel(orig, p.Dir)
		rewritePkg(p, exports, filepath.Join(dst, rel))
	}
	extra := ""
	if sum, err := os.ReadFile(filepath.Join(orig, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dst, "go.sum"), sum, 0o644)
	}
	for _, l := range strings.Split(string(mb), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "require ") && !strings.HasSuffix(l, "(") {
			extra += l + "\n"
		}
	}
	os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module "+modPath+"\n\ngo "+goVer+"\n\nrequire verif.local/sim v0.0.0\n"+extra), 0o644)
}

func less(a, b string) bool {
	pa, pb := strings.Split(a, "."), strings.Split(b, ".")
	for i := 0; i < 2; i++ {
		x, y := 0, 0
		if i < len(pa) {
			x, _ = strconv.Atoi(pa[i])
		}
		if i < len(pb) {
			y, _ = strconv.Atoi(pb[i])
		}
		if x != y {
			return x < y
		}
	}
	return false
}

func exported(dir string) map[string]bool {
	m := map[string]bool{}
	fs, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	if err != nil {
		die("shim %s: %v", dir, err)
	}
	for _, p := range fs {
		for _, f := range p.Files {
			for name := range f.Scope.Objects {
				m[name] = true
			}
		}
	}
	return m
}

func copyTree(src, dst string) {
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		base := filepath.Base(p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(base, "_") || strings.HasPrefix(base, ".") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			if rel != "." {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		if base == "go.mod" || base == "go.sum" || strings.HasSuffix(base, ".go") && !strings.HasSuffix(base, "_test.go") {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
		}
		return nil
	})
	if err != nil {
		die("copy: %v", err)
	}
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	n     int
	files map[*ast.File]string
	// names of imported packages in the file being rewritten
	imports map[string]string // local name -> path
	real    map[string]bool   // paths whose real package is needed too
}

func rewritePkg(p *listPkg, exports map[string]string, dst string) {
	r := &rw{fset: token.NewFileSet()}
	var files []*ast.File
	names := map[*ast.File]string{}
	for _, g := range p.GoFiles {
		f, err := parser.ParseFile(r.fset, filepath.Join(p.Dir, g), nil, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		names[f] = g
	}
	imp := importer.ForCompiler(r.fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp}
	if _, err := conf.Check(p.ImportPath, r.fset, files, r.info); err != nil {
		die("type check: %v", err)
	}
	os.MkdirAll(dst, 0o755)
	var calls []string
	// which file holds each package-level variable's declaration
	owner := map[types.Object]*ast.File{}
	typeOf := map[types.Object]ast.Expr{}
	hasInit := map[types.Object]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, id := range vs.Names {
					o := r.info.Defs[id]
					if o == nil {
						continue
					}
					owner[o] = f
					if len(vs.Values) == 0 {
						typeOf[o] = vs.Type
					} else {
						hasInit[o] = true
					}
				}
			}
		}
	}
	extra := map[*ast.File][]ast.Decl{}
	k := 0
	addFn := func(f *ast.File, body ...ast.Stmt) {
		name := fmt.Sprintf("simReset__%d", k)
		k++
		calls = append(calls, name)
		extra[f] = append(extra[f], &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	}
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					o := r.info.Defs[id]
					if o == nil || hasInit[o] || id.Name == "_" {
						continue
					}
					addFn(f, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("z")}, Type: typeOf[o]}}}},
						&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("z")}})
				}
			}
		}
	}
	type pending struct {
		f    *ast.File
		lhs  []ast.Expr
		spec *ast.ValueSpec
		idx  int
		rhs  ast.Expr
	}
	var inits []pending
	for _, in := range r.info.InitOrder {
		all := true
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			if v.Name() != "_" {
				all = false
			}
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		if all {
			continue
		}
		inits = append(inits, pending{f: owner[in.Lhs[0]], lhs: lhs, rhs: in.Rhs})
	}
	// rewrite the files; initialiser expressions are rewritten in place, so
	// remember where they live
	newRhs := map[ast.Expr]ast.Expr{}
	realImports := map[*ast.File]map[string]bool{}
	nInit := 0
	var initCalls []string
	for _, f := range files {
		r.imports, r.real = map[string]string{}, map[string]bool{}
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			name := ""
			if im.Name != nil {
				name = im.Name.Name
			} else if o, ok := r.info.Implicits[im].(*types.PkgName); ok {
				name = o.Name()
			}
			r.imports[name] = path
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Name.Name == "init" && d.Recv == nil {
					d.Name = ast.NewIdent(fmt.Sprintf("simInit__%d", nInit))
					initCalls = append(initCalls, d.Name.Name)
					nInit++
				}
				if d.Body != nil {
					d.Body.List = r.block(d.Body.List)
				}
				r.types(d.Type)
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.ValueSpec:
						if s.Type != nil {
							s.Type = r.expr(s.Type)
						}
						for i, v := range s.Values {
							nv := r.expr(v)
							newRhs[v] = nv
							s.Values[i] = nv
						}
					case *ast.TypeSpec:
						s.Type = r.expr(s.Type)
					}
				}
			}
		}
		realImports[f] = r.real
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if sh, ok := shims[path]; ok {
				im.Path.Value = strconv.Quote(shimBase + sh)
				im.EndPos = 0
			}
		}
	}
	for _, in := range inits {
		rhs := in.rhs
		if n, ok := newRhs[rhs]; ok {
			rhs = n
		}
		addFn(in.f, &ast.AssignStmt{Lhs: in.lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}})
	}
	calls = append(calls, initCalls...)
	for _, f := range files {
		f.Decls = append(f.Decls, extra[f]...)
		specs := []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif.local/sim/simrt")}}}
		for path := range realImports[f] {
			specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(realName(path)), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
		}
		keep := []ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs}}
		f.Decls = append(keep, f.Decls...)
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel("simrt__", "P")}}}})
		// imports whose every use was replaced by the real package
		var buf bytes.Buffer
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			_ = path
		}
		if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&buf, r.fset, f); err != nil {
			die("print %s: %v", names[f], err)
		}
		if err := os.WriteFile(filepath.Join(dst, names[f]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n// SimReset puts every package-level variable back to its initial value.\nfunc SimReset() {\n", p.Name)
	for _, c := range calls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	b.WriteString("}\n")
	os.WriteFile(filepath.Join(dst, "zz_simreset.go"), []byte(b.String()), 0o644)
}

func realName(path string) string {
	return "real__" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(path)
}

func sel(x, s string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(s)}
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: sel("simrt__", name), Args: args}
}

func (r *rw) tmp(p string) string {
	r.n++
	return fmt.Sprintf("%s__%d", p, r.n)
}

func pstmt() ast.Stmt { return &ast.ExprStmt{X: call("P")} }

func (r *rw) block(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(l)+1)
	if len(l) == 0 {
		return append(out, pstmt())
	}
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); !ok {
			out = append(out, pstmt())
		}
		out = append(out, r.stmt(s, ""))
	}
	return out
}

func (r *rw) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) types(t *ast.FuncType) {
	for _, fl := range []*ast.FieldList{t.TypeParams, t.Params, t.Results} {
		if fl != nil {
			for _, f := range fl.List {
				f.Type = r.expr(f.Type)
			}
		}
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.Ident, *ast.BasicLit:
		return e
	case *ast.Ellipsis:
		if x.Elt != nil {
			x.Elt = r.expr(x.Elt)
		}
	case *ast.FuncLit:
		r.types(x.Type)
		x.Body.List = r.block(x.Body.List)
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		r.exprs(x.Elts)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if _, ok := shims[path]; ok && !shimNames[path][x.Sel.Name] {
					r.real[path] = true
					return sel(realName(path), x.Sel.Name)
				}
				return x
			}
		}
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low, x.High, x.Max = r.opt(x.Low), r.opt(x.High), r.opt(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.opt(x.Type)
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "close":
			r.exprs(x.Args)
			x.Fun = sel("simrt__", "Close")
			return x
		case "copy":
			dst, src := r.typ(x.Args[0]), r.typ(x.Args[1])
			if isString(src) {
				r.exprs(x.Args)
				x.Fun = sel("simrt__", "CopyString")
				return x
			}
			if isSlice(dst) && isSlice(src) {
				r.exprs(x.Args)
				x.Fun = sel("simrt__", "Copy")
				return x
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call("Recv", r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.ArrayType:
		x.Len, x.Elt = r.opt(x.Len), r.expr(x.Elt)
	case *ast.StructType:
		for _, f := range x.Fields.List {
			f.Type = r.expr(f.Type)
		}
	case *ast.FuncType:
		r.types(x)
	case *ast.InterfaceType:
		for _, f := range x.Methods.List {
			f.Type = r.expr(f.Type)
		}
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
	default:
		die("unknown expression %T at %s", e, r.fset.Position(e.Pos()))
	}
	return e
}

func (r *rw) opt(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt(s, "")
}

func (r *rw) stmt(s ast.Stmt, label string) ast.Stmt {
	switch x := s.(type) {
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range gd.Specs {
				switch sp := sp.(type) {
				case *ast.ValueSpec:
					if sp.Type != nil {
						sp.Type = r.expr(sp.Type)
					}
					if len(sp.Names) == 2 && len(sp.Values) == 1 {
						if u := recvOf(sp.Values[0]); u != nil {
							sp.Values[0] = call("Recv2", r.expr(u.X))
							continue
						}
					}
					r.exprs(sp.Values)
				case *ast.TypeSpec:
					sp.Type = r.expr(sp.Type)
				}
			}
		}
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt, x.Label.Name)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call("Send", r.expr(x.Chan), r.sendVal(x))}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := recvOf(x.Rhs[0]); u != nil {
				r.exprs(x.Lhs)
				x.Rhs[0] = call("Recv2", r.expr(u.X))
				return x
			}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BlockStmt:
		x.List = r.block(x.List)
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Body.List = r.block(x.Body.List)
		if x.Else != nil {
			x.Else = r.stmt(x.Else, "")
		}
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.opt(x.Tag)
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		x.Assign = r.simple(x.Assign)
		r.clauses(x.Body)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.opt(x.Cond)
		x.Post = r.simple(x.Post)
		x.Body.List = r.block(x.Body.List)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	default:
		die("unknown statement %T at %s", s, r.fset.Position(s.Pos()))
	}
	return s
}

// sendVal converts the value sent to the channel's element type, since the
// generic helper cannot infer it from an untyped or differently typed value.
func (r *rw) sendVal(x *ast.SendStmt) ast.Expr {
	v := r.expr(x.Value)
	return v
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		if len(cc.Body) > 0 {
			cc.Body = r.block(cc.Body)
		}
	}
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call("Go", r.expr(fl))}
	}
	var pre []ast.Stmt
	var args []ast.Expr
	bi := r.builtin(c.Fun)
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, r.expr(a))
			continue
		}
		n := r.tmp("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		args = append(args, ast.NewIdent(n))
	}
	var fun ast.Expr
	switch {
	case bi == "close":
		fun = sel("simrt__", "Close")
	case bi != "":
		fun = c.Fun
	default:
		n := r.tmp("f")
		pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}}}, pre...)
		fun = ast.NewIdent(n)
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	pre = append(pre, &ast.ExprStmt{X: call("Go", fn)})
	return &ast.BlockStmt{List: pre}
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	var lhs, rhs, cases []ast.Expr
	hasDef := false
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	i := 0
	last := -1
	for ci, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		var head []ast.Stmt
		if cc.Comm == nil {
			hasDef = true
			nc.Body = r.block(cc.Body)
			sw.Body.List = append(sw.Body.List, nc)
			continue
		}
		last = ci
		n := r.tmp("c")
		lhs = append(lhs, ast.NewIdent(n))
		cases = append(cases, ast.NewIdent(n))
		nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}
		i++
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call("NewSend", r.expr(m.Chan), r.expr(m.Value)))
		case *ast.ExprStmt:
			rhs = append(rhs, call("NewRecv", r.expr(recvOf(m.X).X)))
		case *ast.AssignStmt:
			rhs = append(rhs, call("NewRecv", r.expr(recvOf(m.Rhs[0]).X)))
			f := "Val"
			if len(m.Lhs) == 2 {
				f = "Val2"
			}
			r.exprs(m.Lhs)
			head = append(head, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: sel(n, f)}}})
		}
		nc.Body = append(head, r.block(cc.Body)...)
		sw.Body.List = append(sw.Body.List, nc)
	}
	def := "false"
	if hasDef {
		def = "true"
	}
	sw.Tag = call("Select", append([]ast.Expr{ast.NewIdent(def)}, cases...)...)
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	if !hasDef {
		if last >= 0 {
			// keeps the statement terminating where the select was
			sw.Body.List[last].(*ast.CaseClause).List = nil
		} else { // select {}: blocks for ever
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
		}
	}
	return sw
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.typ(x.X)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch {
	case isMap(t):
		e := r.tmp("e")
		var head []ast.Stmt
		head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: sel(e, "Live")}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !blank(x.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{sel(e, "K")}})
		}
		if !blank(x.Value) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Value)}, Tok: x.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: sel(e, "Val")}}})
		}
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(e), Tok: token.DEFINE, X: call("MapEntries", r.expr(x.X)),
			Body: &ast.BlockStmt{List: append(head, r.block(x.Body.List)...)}}
	case isChan(t):
		cn, ok, v := r.tmp("c"), r.tmp("ok"), r.tmp("v")
		if blank(x.Key) {
			v = "_"
		}
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Recv2", ast.NewIdent(cn))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if !blank(x.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v)}})
		}
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(cn)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}},
			Body: &ast.BlockStmt{List: append(head, r.block(x.Body.List)...)}}
	}
	if x.Key != nil {
		x.Key = r.expr(x.Key)
	}
	if x.Value != nil {
		x.Value = r.expr(x.Value)
	}
	x.X = r.expr(x.X)
	x.Body.List = r.block(x.Body.List)
	return x
}
