// mutate lists single-change mutants of Go source files (development aid for
// mutation testing of the checks): one JSON object per line with file, byte
// range, replacement and description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	ID    int    `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Desc  string `json:"desc"`
	Func  string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	id := 0
	root := os.Args[1]
	for _, f := range os.Args[2:] {
		fset := token.NewFileSet()
		src, err := os.ReadFile(root + "/" + f)
		if err != nil {
			panic(err)
		}
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(a, b token.Pos, nw, desc string) {
			id++
			enc.Encode(mutant{id, f, fset.Position(a).Line, off(a), off(b), nw, desc, fn})
		}
		rep := func(n ast.Node, nw, desc string) { emit(n.Pos(), n.End(), nw, desc) }
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.ExprStmt:
					rep(s, "", "delete: "+text(s))
				case *ast.DeferStmt:
					rep(s, "", "delete: "+text(s))
				case *ast.IncDecStmt:
					rep(s, "", "delete: "+text(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						rep(s, "", "delete: "+text(s))
					}
				case *ast.BranchStmt:
					if s.Label == nil {
						switch s.Tok {
						case token.BREAK:
							rep(s, "continue", "break->continue")
						case token.CONTINUE:
							rep(s, "break", "continue->break")
							rep(s, "", "delete continue")
						}
					}
				case *ast.IfStmt:
					c := text(s.Cond)
					rep(s.Cond, "!("+c+")", "negate: "+c)
					rep(s.Cond, "("+c+") && false", "never: "+c)
					rep(s.Cond, "("+c+") || true", "always: "+c)
				case *ast.ForStmt:
				case *ast.ReturnStmt:
					for _, r := range s.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							nw := "true"
							if id.Name == "true" {
								nw = "false"
							}
							rep(r, nw, "return "+id.Name+"->"+nw)
						}
					}
				case *ast.BinaryExpr:
					var alt []string
					switch s.Op {
					case token.LSS:
						alt = []string{"<=", ">="}
					case token.LEQ:
						alt = []string{"<"}
					case token.GTR:
						alt = []string{">=", "<="}
					case token.GEQ:
						alt = []string{">"}
					case token.EQL:
						alt = []string{"!="}
					case token.NEQ:
						alt = []string{"=="}
					case token.LAND:
						rep(s, text(s.X), "left only: "+text(s))
						rep(s, text(s.Y), "right only: "+text(s))
						alt = []string{"||"}
					case token.LOR:
						rep(s, text(s.X), "left only: "+text(s))
						rep(s, text(s.Y), "right only: "+text(s))
						alt = []string{"&&"}
					case token.ADD:
						alt = []string{"-"}
						rep(s, text(s.X), "drop operand: "+text(s))
					case token.SUB:
						alt = []string{"+"}
						rep(s, text(s.X), "drop operand: "+text(s))
					case token.MUL:
						alt = []string{"/"}
					case token.REM:
						alt = []string{"/"}
					}
					for _, a := range alt {
						emit(s.OpPos, s.OpPos+token.Pos(len(s.Op.String())), a, text(s)+": "+s.Op.String()+"->"+a)
					}
				case *ast.BasicLit:
					if s.Kind == token.INT {
						if v, err := strconv.ParseInt(s.Value, 0, 64); err == nil {
							rep(s, strconv.FormatInt(v+1, 10), fmt.Sprintf("%d->%d", v, v+1))
							if v > 0 {
								rep(s, strconv.FormatInt(v-1, 10), fmt.Sprintf("%d->%d", v, v-1))
							}
						}
					}
				case *ast.Ident:
				case *ast.CallExpr:
					if se, ok := s.Fun.(*ast.SelectorExpr); ok {
						m := map[string]string{"Lock": "RLock", "UnLock": "RUnLock", "Unlock": "RUnlock", "RLock": "Lock", "LockMulti": "RLockMulti", "UnLockMulti": "RUnLockMulti"}
						if nw := m[se.Sel.Name]; nw != "" {
							rep(se.Sel, nw, se.Sel.Name+"->"+nw+": "+text(s))
						}
						if se.Sel.Name == "CheckTTL" {
							rep(s, "true", "CheckTTL->true")
						}
					}
					if len(s.Args) >= 2 {
						for i := 0; i+1 < len(s.Args); i++ {
							a, b := text(s.Args[i]), text(s.Args[i+1])
							if a != b {
								emit(s.Args[i].Pos(), s.Args[i+1].End(), b+", "+a, "swap args: "+text(s))
							}
						}
					}
					for i, a := range s.Args {
						if t, ok := a.(*ast.CallExpr); ok && len(t.Args) == 1 {
							if se, ok := t.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "ToLower" || se.Sel.Name == "ToUpper") {
								rep(s.Args[i], text(t.Args[0]), "drop "+se.Sel.Name)
							}
						}
					}
				case *ast.SliceExpr:
					if s.Low != nil {
						rep(s.Low, text(s.Low)+"+1", "low+1: "+text(s))
					}
					if s.High != nil {
						rep(s.High, text(s.High)+"-1", "high-1: "+text(s))
					}
				case *ast.CaseClause:
					for _, st := range s.Body {
						_ = st
					}
				}
				return true
			})
		}
	}
}
