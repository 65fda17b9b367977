// automut lists single-point mutants of a Go file as JSON lines:
// {"off":..,"len":..,"new":"..","line":..,"what":".."}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	fs := token.NewFileSet()
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	out := func(a, b token.Pos, s, what string) {
		j, _ := json.Marshal(map[string]interface{}{"off": off(a), "len": off(b) - off(a), "new": s, "line": fs.Position(a).Line,
			"what": fmt.Sprintf("%s: %q -> %q", what, src[off(a):off(b)], s)})
		fmt.Println(string(j))
	}
	ops := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.REM: {"+"},
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					out(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "operator")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						out(n.Pos(), n.End(), fmt.Sprint(v+1), "constant")
						if v > 0 {
							out(n.Pos(), n.End(), fmt.Sprint(v-1), "constant")
						}
					}
				}
			case *ast.IfStmt:
				out(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
				if n.Init == nil {
					out(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never")
					out(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always")
				}
			case *ast.ForStmt:
			case *ast.BlockStmt:
				for i, s := range n.List {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
						out(s.Pos(), s.End(), "_ = 0", "drop")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							out(s.Pos(), s.End(), "_ = 0", "drop")
						}
					}
					if i+1 < len(n.List) {
						a, b := s, n.List[i+1]
						switch a.(type) {
						case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt:
							switch b.(type) {
							case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt:
								out(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap")
							}
						}
					}
				}
			case *ast.ReturnStmt:
				if len(n.Results) > 0 {
					l := n.Results[len(n.Results)-1]
					switch t := text(l); t {
					case "err":
						out(l.Pos(), l.End(), "nil", "result")
					case "true":
						out(l.Pos(), l.End(), "false", "result")
					case "false":
						out(l.Pos(), l.End(), "true", "result")
					}
				}
			case *ast.CallExpr:
				if len(n.Args) == 2 {
					out(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "arguments")
				}
			}
			return true
		})
	}
}
