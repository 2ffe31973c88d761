// instr rewrites the source files of Go packages so that a cooperative scheduler decides the interleaving
// of their statements: it puts a scheduling point in front of every statement and inside every loop, splits
// assignments to shared variables into reading and writing, replaces copy by a copy with scheduling points
// inside, and sync and sync/atomic by packages that know the scheduler.
//
//	instr LEVEL OUTDIR DIR...    LEVEL 2: all of this; 1: no splitting of assignments and copies
//
// It prints the JSON object {original: rewritten} for go build -overlay.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const base = "github.com/iand/starbow/internal/verifdrv/"

type rewriter struct {
	fset    *token.FileSet
	level   int
	globals map[string]bool
	n       int
}

func ident(s string) *ast.Ident { return ast.NewIdent(s) }

func call(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ident("verifsched"), Sel: ident(fn)}, Args: args}
}

func (r *rewriter) yield() ast.Stmt {
	r.n++
	return &ast.ExprStmt{X: call("Y")}
}

// pure reports that evaluating e twice is the same as once.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	case *ast.BinaryExpr:
		return pure(e.X) && pure(e.Y)
	}
	return false
}

func (r *rewriter) shared(e ast.Expr) bool {
	if id, ok := e.(*ast.Ident); ok {
		return r.globals[id.Name] && id.Name != "_"
	}
	return pure(e)
}

func (r *rewriter) text(n ast.Node) string {
	var b bytes.Buffer
	_ = printer.Fprint(&b, r.fset, n)
	return b.String()
}

// clone copies an expression without positions.
func (r *rewriter) clone(e ast.Expr) ast.Expr {
	x, err := parser.ParseExpr(r.text(e))
	if err != nil {
		return e
	}
	return x
}

// split returns the statements to put in place of s.
func (r *rewriter) split(s ast.Stmt) []ast.Stmt {
	if r.level < 2 {
		return []ast.Stmt{s}
	}
	r.n++
	t := ident(fmt.Sprintf("verift%d", r.n))
	define := func(e ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.clone(e)}}
	}
	store := func(e ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{r.clone(e)}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}}
	}
	block := func(ss ...ast.Stmt) []ast.Stmt { return []ast.Stmt{&ast.BlockStmt{List: ss}} }
	switch s := s.(type) {
	case *ast.GoStmt:
		if id, ok := s.Call.Fun.(*ast.Ident); ok && id.Obj == nil && !r.globals[id.Name] {
			break // a builtin function, or one of another file's: left alone
		}
		// the function and the arguments are evaluated here, the call is made by the new thread
		bind := func(e ast.Expr, n int) (ast.Expr, ast.Stmt) {
			switch x := e.(type) {
			case *ast.BasicLit:
				return e, nil
			case *ast.Ident:
				if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
					return e, nil
				}
			}
			v := ident(fmt.Sprintf("verifg%d_%d", r.n, n))
			return v, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
		}
		var out []ast.Stmt
		c := &ast.CallExpr{Ellipsis: s.Call.Ellipsis}
		var st ast.Stmt
		if c.Fun, st = bind(s.Call.Fun, 0); st != nil {
			out = append(out, st)
		}
		for i, a := range s.Call.Args {
			x, st := bind(a, i+1)
			c.Args = append(c.Args, x)
			if st != nil {
				out = append(out, st)
			}
		}
		body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
		return block(append(out, &ast.ExprStmt{X: call("Go", body)})...)
	case *ast.IncDecStmt:
		if r.shared(s.X) {
			return block(define(s.X), r.yield(), &ast.IncDecStmt{X: t, Tok: s.Tok}, store(s.X))
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE || !r.shared(s.Lhs[0]) {
			break
		}
		if _, ok := s.Rhs[0].(*ast.FuncLit); ok {
			break
		}
		if s.Tok == token.ASSIGN {
			return block(define(s.Lhs[0]), &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.ASSIGN, Rhs: s.Rhs}, r.yield(), store(s.Lhs[0]))
		}
		return block(define(s.Lhs[0]), r.yield(), &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: s.Tok, Rhs: s.Rhs}, r.yield(), store(s.Lhs[0]))
	}
	return []ast.Stmt{s}
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		out = append(out, r.yield())
		out = append(out, r.split(s)...)
	}
	return out
}

func (r *rewriter) rewrite(f *ast.File) {
	var bodies []*ast.BlockStmt
	var clauses []ast.Node
	loops := map[*ast.BlockStmt]bool{}
	cases := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && r.level >= 2 && id.Name == "copy" && id.Obj == nil && !r.globals["copy"] && len(n.Args) == 2 {
				n.Fun = &ast.SelectorExpr{X: ident("verifsched"), Sel: ident("Copy")}
			}
		case *ast.ForStmt:
			loops[n.Body] = true
		case *ast.RangeStmt:
			loops[n.Body] = true
		case *ast.SwitchStmt:
			cases[n.Body] = true
		case *ast.TypeSwitchStmt:
			cases[n.Body] = true
		case *ast.SelectStmt:
			cases[n.Body] = true
		case *ast.BlockStmt:
			bodies = append(bodies, n)
		case *ast.CaseClause, *ast.CommClause:
			clauses = append(clauses, n)
		}
		return true
	})
	for _, b := range bodies {
		if cases[b] {
			continue
		}
		b.List = r.list(b.List)
		if loops[b] {
			b.List = append([]ast.Stmt{r.yield()}, b.List...)
		}
	}
	for _, c := range clauses {
		switch c := c.(type) {
		case *ast.CaseClause:
			c.Body = r.list(c.Body)
		case *ast.CommClause:
			c.Body = r.list(c.Body)
		}
	}
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		switch path {
		case "sync":
			s.Path.Value = strconv.Quote(base + "vsync")
			if s.Name == nil {
				s.Name = ident("sync")
			}
		case "sync/atomic":
			s.Path.Value = strconv.Quote(base + "vatomic")
			if s.Name == nil {
				s.Name = ident("atomic")
			}
		}
	}
	if r.n > 0 {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ident("verifsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "sched")}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
	}
	f.Comments = nil
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	level, err := strconv.Atoi(os.Args[1])
	die(err)
	out := map[string]string{}
	for d, dir := range os.Args[3:] {
		fset := token.NewFileSet()
		names, err := filepath.Glob(filepath.Join(dir, "*.go"))
		die(err)
		var files []*ast.File
		var paths []string
		globals := map[string]bool{}
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			die(err)
			match, err := build.Default.MatchFile(dir, filepath.Base(name))
			die(err)
			if !match || bytes.Contains(src, []byte("import \"C\"")) {
				continue
			}
			f, err := parser.ParseFile(fset, name, src, 0)
			die(err)
			files, paths = append(files, f), append(paths, name)
			for _, decl := range f.Decls {
				switch decl := decl.(type) {
				case *ast.FuncDecl:
					if decl.Recv == nil {
						globals[decl.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range decl.Specs {
						if v, ok := s.(*ast.ValueSpec); ok {
							for _, n := range v.Names {
								globals[n.Name] = true
							}
						}
					}
				}
			}
		}
		for i, f := range files {
			r := &rewriter{fset: fset, level: level, globals: globals}
			r.rewrite(f)
			var b bytes.Buffer
			die(printer.Fprint(&b, fset, f))
			src, err := format.Source(b.Bytes())
			if err != nil {
				src = b.Bytes()
			}
			p := filepath.Join(os.Args[2], fmt.Sprintf("%d-%s", d, filepath.Base(paths[i])))
			die(os.WriteFile(p, src, 0o644))
			out[paths[i]] = p
		}
	}
	die(json.NewEncoder(os.Stdout).Encode(out))
}
