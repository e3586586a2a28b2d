package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// makeOverlay rewrites package memdb for the scheduler: a scheduling point
// before every statement, the scheduler's locks instead of sync's, its clock
// instead of time.Now, its tasks instead of go statements.
func makeOverlay(repo, dir, harness string) (string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	files, err := filepath.Glob(filepath.Join(repo, "memdb", "*.go"))
	if err != nil || len(files) == 0 {
		return "", fmt.Errorf("no files in memdb: %v", err)
	}
	rep := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := rewrite(f)
		if err != nil {
			return "", err
		}
		out := filepath.Join(dir, filepath.Base(f))
		if err := os.WriteFile(out, src, 0o644); err != nil {
			return "", err
		}
		rep[f] = out
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(dir, "overlay.json")
	return ov, os.WriteFile(ov, b, 0o644)
}

const vs = "vsched_"

func sel(name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: ast.NewIdent(name)}
}

func yieldStmt() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Yield")}}
}

var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Locker": true, "WaitGroup": true, "Once": true, "Cond": true, "NewCond": true}
var timeNames = map[string]bool{"Now": true, "Since": true, "Until": true}

func rewrite(path string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	f.Comments = nil
	f.Doc = nil
	names := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		names[n] = p
	}
	usedSync, usedTime := "", ""
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		switch names[id.Name] {
		case "sync":
			usedSync = id.Name
			if syncNames[s.Sel.Name] {
				id.Name = vs
			}
		case "time":
			usedTime = id.Name
			if timeNames[s.Sel.Name] {
				id.Name = vs
			}
		}
		return true
	})
	// scheduling points, without comments the positions do not matter
	var list func(l []ast.Stmt) []ast.Stmt
	var walk func(n ast.Node)
	list = func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			walk(s)
			if g, ok := s.(*ast.GoStmt); ok {
				s = goStmt(g)
			}
			if _, ok := s.(*ast.LabeledStmt); !ok {
				if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
					out = append(out, s)
					continue
				}
			}
			out = append(out, yieldStmt(), s)
		}
		return out
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.BlockStmt:
				x.List = list(x.List)
				return false
			case *ast.CaseClause:
				for _, e := range x.List {
					walk(e)
				}
				x.Body = list(x.Body)
				return false
			case *ast.CommClause:
				x.Body = list(x.Body)
				return false
			case *ast.SwitchStmt:
				if x.Init != nil {
					walk(x.Init)
				}
				if x.Tag != nil {
					walk(x.Tag)
				}
				for _, s := range x.Body.List {
					walk(s)
				}
				return false
			case *ast.TypeSwitchStmt:
				for _, s := range x.Body.List {
					walk(s)
				}
				return false
			case *ast.SelectStmt:
				for _, s := range x.Body.List {
					walk(s)
				}
				return false
			}
			return true
		})
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			fd.Body.List = list(fd.Body.List)
		} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			walk(gd)
		}
	}
	// imports
	spec := &ast.ImportSpec{Name: ast.NewIdent(vs), Path: &ast.BasicLit{Kind: token.STRING, Value: `"gredisverif/vsched"`}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	var b bytes.Buffer
	if err := (&printer.Config{Mode: printer.UseSpaces, Tabwidth: 4}).Fprint(&b, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	b.WriteString("\n\nvar _ = " + vs + ".Yield\n")
	if usedSync != "" {
		b.WriteString("var _ " + usedSync + ".Mutex\n")
	}
	if usedTime != "" {
		b.WriteString("var _ " + usedTime + ".Duration\n")
	}
	return b.Bytes(), nil
}

// goStmt turns "go f(a, b)" into a task, evaluating f's arguments now.
func goStmt(g *ast.GoStmt) ast.Stmt {
	blk := &ast.BlockStmt{}
	call := &ast.CallExpr{Fun: g.Call.Fun, Ellipsis: g.Call.Ellipsis}
	for i, a := range g.Call.Args {
		id := ast.NewIdent(fmt.Sprintf("vsched_a%d", i))
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		call.Args = append(call.Args, ast.NewIdent(id.Name))
	}
	fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	blk.List = append(blk.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Go"), Args: []ast.Expr{fn}}})
	return blk
}
