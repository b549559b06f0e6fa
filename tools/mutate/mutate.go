// mutate FILE...: prints one JSON line per small change of a function body
// (development aid: which changes pass the existing tests and the checks?)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File     string
	Line     int
	Fn       string
	Off, End int
	Repl     string
	Desc     string
}

func main() {
	for _, f := range os.Args[1:] {
		one(f)
	}
}

func one(name string) {
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	file, err := parser.ParseFile(fs, name, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		emit := func(a, b token.Pos, repl, desc string) {
			m := M{name, fs.Position(a).Line, fd.Name.Name, off(a), off(b), repl, desc}
			j, _ := json.Marshal(m)
			fmt.Println(string(j))
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				t := text(n.Fun)
				if t == "ostats.Record" || t == "fmt.Println" || t == "fmt.Printf" || t == "panic" || t == "errors.Wrap" || t == "errors.Wrapf" || t == "errors.New" {
					return false
				}
			case *ast.BinaryExpr:
				alts := map[token.Token][]string{
					token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}, token.QUO: {"%"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
				}
				for _, a := range alts[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a, fmt.Sprintf("%s -> %s in %s", n.Op, a, text(n)))
				}
				if n.Op == token.ADD || n.Op == token.SUB {
					emit(n.Pos(), n.End(), text(n.X), fmt.Sprintf("drop right of %s", text(n)))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						emit(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), fmt.Sprintf("%s -> %d", n.Value, v+1))
						if v > 0 {
							emit(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), fmt.Sprintf("%s -> %d", n.Value, v-1))
						}
					}
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && zzF()", "never "+text(n.Cond))
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || !zzF()", "always "+text(n.Cond))
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && zzF()", "never loop "+text(n.Cond))
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
				emit(n.Pos(), n.End(), "", "drop "+text(n))
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), "", "drop "+text(n))
					for i := range n.Lhs {
						_ = i
					}
				}
				if n.Tok == token.ADD_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "-=", "+= to -= in "+text(n))
				}
				if n.Tok == token.SUB_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "+=", "-= to += in "+text(n))
				}
			case *ast.ReturnStmt:
				if k := len(n.Results); k > 0 {
					l := n.Results[k-1]
					if id, ok := l.(*ast.Ident); ok && id.Name == "err" {
						emit(l.Pos(), l.End(), "nil", "return nil for err")
					}
				}
			}
			return true
		})
	}
}
