// mutate lists small changes of the Go files given, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File     string
	Line     int
	From, To int
	New      string
	Kind     string
	Func     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				name = string(src[off(fd.Recv.List[0].Type.Pos()):off(fd.Recv.List[0].Type.End())]) + "." + name
			}
			emit := func(from, to token.Pos, n, kind string) {
				enc.Encode(M{f, fs.Position(from).Line, off(from), off(to), n, kind, name})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alts := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}}[x.Op]
					if x.Op == token.ADD {
						if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
							break
						}
					}
					for _, a := range alts {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op "+x.Op.String()+" -> "+a)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "left of "+x.Op.String())
						emit(x.Pos(), x.End(), text(x.Y), "right of "+x.Op.String())
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, _ := strconv.Atoi(x.Value)
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int -1")
						}
					}
					if x.Kind == token.FLOAT {
						emit(x.Pos(), x.End(), "("+x.Value+"+1)", "float +1")
						if x.Value != "0.0" {
							emit(x.Pos(), x.End(), "0.0", "float 0")
						}
					}
				case *ast.IfStmt:
					if x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate if")
						emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never if")
						emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always if")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt:
							emit(s.Pos(), s.End(), "", "delete statement")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "", "delete assignment")
							}
						case *ast.BranchStmt:
							if y.Label == nil {
								alt := map[token.Token]string{token.BREAK: "continue", token.CONTINUE: "break"}[y.Tok]
								emit(s.Pos(), s.End(), alt, "branch")
								emit(s.Pos(), s.End(), "", "delete branch")
							}
						}
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt:
							emit(s.Pos(), s.End(), "", "delete statement")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "", "delete assignment")
							}
						}
					}
					if x.List != nil && len(x.List) > 0 {
						// drop the clause
						emit(x.Pos(), x.End(), "", "delete case")
					}
				case *ast.CallExpr:
					if len(x.Args) == 2 && text(x.Args[0]) != text(x.Args[1]) {
						emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap args")
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						alt := map[string]string{"Plus": "Minus", "Minus": "Plus", "Copy": ""}[s.Sel.Name]
						if alt != "" {
							emit(s.Sel.Pos(), s.Sel.End(), alt, "method "+s.Sel.Name+" -> "+alt)
						}
						if s.Sel.Name == "Copy" || s.Sel.Name == "Simplify" || s.Sel.Name == "AsSimplifiedExpression" {
							emit(x.Pos(), x.End(), text(s.X), "drop ."+s.Sel.Name+"()")
						}
					}
				case *ast.RangeStmt:
					emit(x.X.Pos(), x.X.End(), "("+text(x.X)+")[1:]", "skip first")
					emit(x.X.Pos(), x.X.End(), "("+text(x.X)+")[:len("+text(x.X)+")-1]", "skip last")
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						if id, ok := x.Results[0].(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							emit(id.Pos(), id.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "flip bool")
						}
					}
				}
				return true
			})
		}
	}
}
