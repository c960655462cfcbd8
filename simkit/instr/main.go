// Command instr copies the program under test and rewrites the copy so that
// the simulator decides its interleavings: a call of sim.Y is inserted before
// every statement, go statements become tasks of the simulator, and the
// packages sync, sync/atomic, and math/rand are replaced by simsync, simatomic,
// and simrand. Channels, the order of maps, and the clock are those of simenv
// (unless -plain is given). The console (package main) becomes package console
// with its standard streams behind a seam. The original is only read. With
// MODULE the copy is a module of that name.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	args := os.Args[1:]
	plain := len(args) > 0 && args[0] == "-plain"
	if plain {
		args = args[1:]
	}
	if len(args) != 2 && len(args) != 3 {
		die("usage: instr [-plain] SRC DST [MODULE]")
	}
	src, dst := args[0], args[1]
	if len(args) == 3 {
		newModule = args[2]
	}
	gomod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		die("%s", err)
	}
	for _, l := range strings.Split(string(gomod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			oldModule = strings.Trim(f[1], "\"")
		}
	}
	ctx := build.Default
	fset := token.NewFileSet()
	type file struct {
		rel string
		f   *ast.File
	}
	var files []file
	pkgs := map[string][]*ast.File{}
	written := map[string]bool{}
	write := func(name string, buf []byte) error {
		written[name] = true
		return write(name, buf)
	}
	err = filepath.WalkDir(src, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		if d.IsDir() {
			n := d.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if rel == "go.mod" || rel == "go.sum" {
			buf, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			if rel == "go.mod" && newModule != "" {
				buf = bytes.Replace(buf, []byte("module "+oldModule), []byte("module "+newModule), 1)
			}
			return write(filepath.Join(dst, rel), buf)
		}
		if !strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		if ok, err := ctx.MatchFile(filepath.Dir(path), d.Name()); err != nil || !ok {
			return err
		}
		f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, file{rel, f})
		dir := filepath.Dir(rel)
		pkgs[dir] = append(pkgs[dir], f)
		return nil
	})
	if err != nil {
		die("%s", err)
	}
	var info *types.Info
	if !plain {
		info = check(fset, pkgs, oldModule)
	}
	for _, f := range files {
		buf, out, err := rewrite(fset, f.f, f.rel, info)
		if err == nil {
			err = write(filepath.Join(dst, out), buf)
		}
		if err != nil {
			die("%s", err)
		}
	}
	// Files of an earlier copy which are no longer wanted.
	filepath.WalkDir(dst, func(path string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(path, ".go") && !written[path] {
			os.Remove(path)
		}
		return nil
	})
}

// The copy may have another name, to be a second program in one process.
var oldModule, newModule string

func write(name string, buf []byte) error {
	if old, err := os.ReadFile(name); err == nil && bytes.Equal(old, buf) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		return err
	}
	return os.WriteFile(name, buf, 0o644)
}

const (
	simPkg = "verifsim_sim"
	osPkg  = "verifsim_os"
)

func call(pkg, fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(fn)},
		Args: args,
	}
}

func yield() ast.Stmt { return &ast.ExprStmt{X: call(simPkg, "Y")} }

func rewrite(fset *token.FileSet, f *ast.File, rel string, info *types.Info) ([]byte, string, error) {
	out := rel
	e := &env{info: info}
	console := f.Name.Name == "main" && filepath.Dir(rel) == "."
	replace := map[string]string{
		"sync":        "verifsim/simsync",
		"sync/atomic": "verifsim/simatomic",
	}
	if info != nil {
		replace["math/rand"] = "verifsim/simrand"
	}
	fmtName, osName := "", ""
	for _, imp := range f.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		base := p[strings.LastIndex(p, "/")+1:]
		if newModule != "" && (p == oldModule || strings.HasPrefix(p, oldModule+"/")) {
			imp.Path.Value = strconv.Quote(newModule + p[len(oldModule):])
		}
		if p == "fmt" || p == "os" {
			n := base
			if imp.Name != nil {
				n = imp.Name.Name
			}
			if p == "fmt" {
				fmtName = n
			} else {
				osName = n
			}
		}
		if p == "time" {
			e.timePkg = base
			if imp.Name != nil {
				e.timePkg = imp.Name.Name
			}
		}
		if r, ok := replace[p]; ok {
			imp.Path.Value = strconv.Quote(r)
			if imp.Name == nil {
				imp.Name = ast.NewIdent(base)
			}
		}
	}

	useOS := false
	if console {
		out = filepath.Join("verifconsole", rel)
		f.Name.Name = "console"
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Recv == nil && n.Name.Name == "main" {
					n.Name.Name = "Main"
				}
			case *ast.SelectorExpr:
				id, ok := n.X.(*ast.Ident)
				if !ok {
					break
				}
				switch {
				case id.Name == osName && osName != "":
					switch n.Sel.Name {
					case "Stdin", "Stdout", "Stderr", "Exit", "File", "Args":
						id.Name = osPkg
						useOS = true
					}
				case id.Name == fmtName && fmtName != "":
					switch n.Sel.Name {
					case "Print", "Println", "Printf":
						id.Name = osPkg
						useOS = true
					}
				}
			}
			return true
		})
	}

	if info != nil {
		e.walk(f)
	}

	used := false
	prefix := func(list []ast.Stmt) []ast.Stmt {
		var nl []ast.Stmt
		for _, st := range list {
			if g, ok := st.(*ast.GoStmt); ok {
				nl = append(nl, goStmt(g)...)
				used = true
				continue
			}
			nl = append(nl, yield(), st)
			used = true
		}
		return nl
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				n.Body.List = []ast.Stmt{&ast.EmptyStmt{}}
			}
		}
		return true
	})
	var blocks []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			blocks = append(blocks, caseList(n.Body)...)
		case *ast.TypeSwitchStmt:
			blocks = append(blocks, caseList(n.Body)...)
		case *ast.SelectStmt:
			blocks = append(blocks, caseList(n.Body)...)
		}
		return true
	})
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			skip[n.Body] = true
		case *ast.TypeSwitchStmt:
			skip[n.Body] = true
		case *ast.SelectStmt:
			skip[n.Body] = true
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BlockStmt); ok && !skip[b] {
			blocks = append(blocks, b)
		}
		return true
	})
	for _, b := range blocks {
		switch b := b.(type) {
		case *ast.BlockStmt:
			b.List = prefix(b.List)
		case *ast.CaseClause:
			b.Body = prefix(b.Body)
		case *ast.CommClause:
			b.Body = prefix(b.Body)
		}
	}

	if used {
		addImport(f, simPkg, "verifsim/sim")
	}
	if e.used {
		addImport(f, envPkg, "verifsim/simenv")
		keep(f, e.timePkg, "Unix")
	}
	if useOS {
		addImport(f, osPkg, "verifsim/simos")
		keep(f, fmtName, "Sprint")
		keep(f, osName, "Getpid")
	}

	var buf bytes.Buffer
	if err := printer.Fprint(&buf, fset, f); err != nil {
		return nil, "", err
	}
	return buf.Bytes(), out, nil
}

// keep an import used.
func keep(f *ast.File, pkg, fn string) {
	if pkg == "" {
		return
	}
	f.Decls = append(f.Decls, &ast.GenDecl{
		Tok: token.VAR,
		Specs: []ast.Spec{&ast.ValueSpec{
			Names:  []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(fn)}},
		}},
	})
}

func caseList(b *ast.BlockStmt) []ast.Node {
	var ns []ast.Node
	for _, s := range b.List {
		ns = append(ns, s)
	}
	return ns
}

// goStmt evaluates the function and its arguments, and starts a task.
func goStmt(g *ast.GoStmt) []ast.Stmt {
	if fl, ok := g.Call.Fun.(*ast.FuncLit); ok && len(g.Call.Args) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: call(simPkg, "GoTask", fl)}}
	}
	var lhs, rhs, args []ast.Expr
	for i, a := range g.Call.Args {
		n := fmt.Sprintf("verifsim_arg%d", i)
		lhs = append(lhs, ast.NewIdent(n))
		rhs = append(rhs, a)
		args = append(args, ast.NewIdent(n))
	}
	fn := &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{
			X: &ast.CallExpr{Fun: g.Call.Fun, Args: args, Ellipsis: g.Call.Ellipsis}}}},
	}
	var list []ast.Stmt
	if len(lhs) > 0 {
		list = append(list, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs})
	}
	list = append(list, &ast.ExprStmt{X: call(simPkg, "GoTask", fn)})
	return []ast.Stmt{&ast.BlockStmt{List: list}}
}

func addImport(f *ast.File, name, path string) {
	spec := &ast.ImportSpec{
		Name: ast.NewIdent(name),
		Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)},
	}
	d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{d}, f.Decls...)
	f.Imports = append(f.Imports, spec)
}
