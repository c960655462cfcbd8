package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// What is of the program's own types is known; that is enough to tell a range
// over a map or a channel.
func check(fset *token.FileSet, files map[string][]*ast.File, module string) *types.Info {
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	imp := &importer{fset: fset, files: files, module: module, info: info, done: map[string]*types.Package{}}
	for dir := range files {
		imp.load(dir)
	}
	return info
}

type importer struct {
	fset   *token.FileSet
	files  map[string][]*ast.File
	module string
	info   *types.Info
	done   map[string]*types.Package
}

func (imp *importer) load(dir string) *types.Package {
	if p, ok := imp.done[dir]; ok {
		return p
	}
	imp.done[dir] = nil
	conf := types.Config{
		Importer:    imp,
		FakeImportC: true,
		Error:       func(error) {},
	}
	p, _ := conf.Check(dir, imp.fset, imp.files[dir], imp.info)
	imp.done[dir] = p
	return p
}

func (imp *importer) Import(path string) (*types.Package, error) {
	dir, ok := "", path == imp.module
	if ok {
		dir = "."
	} else if strings.HasPrefix(path, imp.module+"/") {
		dir = path[len(imp.module)+1:]
		_, ok = imp.files[dir]
	}
	if ok {
		if p := imp.load(dir); p != nil {
			return p, nil
		}
		return nil, errors.New("import cycle")
	}
	return nil, errors.New("not of the program")
}

// env rewrites what the program uses of its environment.
type env struct {
	info    *types.Info
	timePkg string // name of the package time in this file
	used    bool
	n       int
}

const envPkg = "verifsim_env"

func (e *env) call(fn string, args ...ast.Expr) *ast.CallExpr {
	e.used = true
	return call(envPkg, fn, args...)
}

func (e *env) name(s string) *ast.Ident {
	e.n++
	return ast.NewIdent(fmt.Sprintf("verifsim_%s%d", s, e.n))
}

func (e *env) under(x ast.Expr) types.Type {
	if tv, ok := e.info.Types[x]; ok && tv.Type != nil {
		return tv.Type.Underlying()
	}
	return nil
}

func (e *env) isChan(x ast.Expr) bool { _, ok := e.under(x).(*types.Chan); return ok }
func (e *env) isMap(x ast.Expr) bool  { _, ok := e.under(x).(*types.Map); return ok }

func (e *env) builtin(x ast.Expr, name string) bool {
	id, ok := x.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = e.info.Uses[id].(*types.Builtin)
	return ok
}

func sel(x ast.Expr, name string) ast.Expr {
	return &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}
}

func paren(x ast.Expr) ast.Expr {
	if p, ok := x.(*ast.ParenExpr); ok {
		return paren(p.X)
	}
	return x
}

func recv(x ast.Expr) (ast.Expr, bool) {
	u, ok := paren(x).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

var (
	exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// walk rewrites what is below a node.
func (e *env) walk(n ast.Node) {
	switch n := n.(type) {
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if ch, ok := recv(n.Rhs[0]); ok {
				n.Rhs[0] = e.call("Recv2", ch)
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if ch, ok := recv(n.Values[0]); ok {
				n.Values[0] = e.call("Recv2", ch)
			}
		}
	case *ast.CallExpr:
		switch {
		case e.builtin(n.Fun, "close") && len(n.Args) == 1:
			n.Fun = e.call("Close").Fun
		case e.timePkg != "":
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				e.time(s)
			}
		}
	}
	v := reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		e.field(v.Field(i))
	}
}

func (e *env) field(f reflect.Value) {
	switch {
	case f.Type() == exprType:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(e.expr(f.Interface().(ast.Expr))))
		}
	case f.Type() == stmtType:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(e.stmt(f.Interface().(ast.Stmt))))
		}
	case f.Kind() == reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			e.field(f.Index(i))
		}
	case f.Kind() == reflect.Pointer && f.Type().Implements(nodeType):
		if !f.IsNil() {
			if _, ok := f.Interface().(*ast.Ident); !ok {
				e.walk(f.Interface().(ast.Node))
			}
		}
	case f.Kind() == reflect.Interface && f.Type().Implements(nodeType):
		if !f.IsNil() {
			e.walk(f.Interface().(ast.Node))
		}
	}
}

func (e *env) time(s *ast.SelectorExpr) {
	id, ok := s.X.(*ast.Ident)
	if !ok || id.Name != e.timePkg {
		return
	}
	switch s.Sel.Name {
	case "Sleep", "Now", "Since", "Until", "After":
		id.Name = envPkg
		e.used = true
	}
}

func (e *env) expr(x ast.Expr) ast.Expr {
	if ch, ok := recv(x); ok {
		return e.call("Recv", e.expr(ch))
	}
	if s, ok := x.(*ast.SelectorExpr); ok && e.timePkg != "" {
		e.time(s)
	}
	e.walk(x)
	return x
}

func (e *env) stmt(st ast.Stmt) ast.Stmt {
	switch n := st.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel(e.with(n), "Do")}}
	case *ast.SelectStmt:
		return e.selectStmt(n)
	case *ast.RangeStmt:
		if r := e.rangeStmt(n); r != nil {
			return r
		}
	}
	e.walk(st)
	return st
}

func (e *env) with(n *ast.SendStmt) *ast.CallExpr {
	return &ast.CallExpr{
		Fun:  sel(e.call("OnSend", e.expr(n.Chan)), "With"),
		Args: []ast.Expr{e.expr(n.Value)},
	}
}

func (e *env) selectStmt(n *ast.SelectStmt) ast.Stmt {
	var names, vals []ast.Expr
	def := false
	body := &ast.BlockStmt{}
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		var first ast.Stmt
		if cc.Comm == nil {
			def = true
		} else {
			nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(names))}}
			id := e.name("case")
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				vals = append(vals, e.with(s))
			case *ast.ExprStmt:
				ch, _ := recv(s.X)
				vals = append(vals, e.call("OnRecv", e.expr(ch)))
			case *ast.AssignStmt:
				ch, _ := recv(s.Rhs[0])
				vals = append(vals, e.call("OnRecv", e.expr(ch)))
				rhs := []ast.Expr{sel(id, "Val")}
				if len(s.Lhs) == 2 {
					rhs = append(rhs, sel(id, "Ok"))
				}
				as := &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs}
				e.walk(as)
				first = as
				if s.Tok == token.DEFINE && blank(s.Lhs) {
					as.Tok = token.ASSIGN
				}
			}
			names = append(names, id)
		}
		if first != nil {
			nc.Body = append(nc.Body, first)
		}
		for _, s := range cc.Body {
			nc.Body = append(nc.Body, e.stmt(s))
		}
		body.List = append(body.List, nc)
	}
	d := "false"
	if def {
		d = "true"
	} else {
		// So that it ends a function as a select does.
		body.List = append(body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
			Fun:  ast.NewIdent("panic"),
			Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}},
		}}}})
	}
	sw := &ast.SwitchStmt{
		Tag:  e.call("Select", append([]ast.Expr{ast.NewIdent(d)}, names...)...),
		Body: body,
	}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	return sw
}

func blank(list []ast.Expr) bool {
	for _, x := range list {
		if id, ok := x.(*ast.Ident); !ok || id.Name != "_" {
			return false
		}
	}
	return true
}

// rangeStmt is nil for those which are not over maps and channels.
func (e *env) rangeStmt(n *ast.RangeStmt) ast.Stmt {
	fn, vars := "", []ast.Expr{n.Key, n.Value}
	switch {
	case e.isMap(n.X):
		fn = "RangeMap"
	case e.isChan(n.X):
		fn, vars = "RangeChan", vars[:1]
	default:
		return nil
	}
	it := e.name("range")
	lhs := []ast.Expr{it}
	var args []ast.Expr
	for _, v := range vars {
		id, ok := v.(*ast.Ident)
		switch {
		case v == nil, ok && id.Name == "_":
			lhs = append(lhs, ast.NewIdent("_"))
			args = append(args, ast.NewIdent("nil"))
			continue
		case !ok:
			return nil
		}
		if n.Tok == token.DEFINE {
			lhs = append(lhs, id)
		} else {
			lhs = append(lhs, ast.NewIdent("_"))
		}
		args = append(args, &ast.UnaryExpr{Op: token.AND, X: id})
	}
	x := e.expr(n.X)
	e.walk(n.Body)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{e.call(fn, x)}},
		Cond: &ast.CallExpr{Fun: sel(it, "Next"), Args: args},
		Body: n.Body,
	}
}
