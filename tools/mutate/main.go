// mutate FILE.go...: prints one JSON line per mutant: file, line, what, start, end, text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string
	Line       int
	What       string
	Start, End int
	Text       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(what string, a, b token.Pos, text string) {
			_ = enc.Encode(mut{file, fs.Position(a).Line, what, off(a), off(b), text})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]token.Token{
			token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
			token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.AND: {token.OR},
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch a := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
					emit("delete", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if a.Tok != token.DEFINE {
						emit("delete", s.Pos(), s.End(), "")
					}
				case *ast.IfStmt:
					emit("never", a.Cond.Pos(), a.Cond.End(), "false && ("+text(a.Cond)+")")
					if a.Else == nil || true {
						emit("always", a.Cond.Pos(), a.Cond.End(), "true || ("+text(a.Cond)+")")
					}
				case *ast.BranchStmt:
					if a.Tok == token.CONTINUE && a.Label == nil {
						emit("delete", s.Pos(), s.End(), "")
					}
					if a.Tok == token.BREAK && a.Label == nil {
						emit("delete", s.Pos(), s.End(), "")
					}
				case *ast.ForStmt:
					if a.Cond != nil {
						emit("never", a.Cond.Pos(), a.Cond.End(), "false && ("+text(a.Cond)+")")
					}
				case *ast.ReturnStmt:
					for _, r := range a.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit("nilerr", r.Pos(), r.End(), "nil")
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch a := n.(type) {
			case *ast.GenDecl:
				return a.Tok != token.IMPORT
			case *ast.BinaryExpr:
				for _, t := range swap[a.Op] {
					emit(a.Op.String()+" -> "+t.String(), a.OpPos, a.OpPos+token.Pos(len(a.Op.String())), t.String())
				}
			case *ast.BlockStmt:
				stmts(a.List)
			case *ast.CaseClause:
				stmts(a.Body)
				if len(a.List) > 1 {
					for i := range a.List {
						if i == 0 {
							emit("drop case", a.List[0].Pos(), a.List[1].Pos(), "")
						} else {
							emit("drop case", a.List[i-1].End(), a.List[i].End(), "")
						}
					}
				} else if len(a.List) == 1 && len(a.Body) > 0 {
					if _, ok := a.Body[0].(*ast.EmptyStmt); !ok {
						emit("empty case", a.Body[0].Pos(), a.Body[len(a.Body)-1].End(), "")
					}
				}
			case *ast.BasicLit:
				if a.Kind == token.INT {
					if i, err := strconv.Atoi(a.Value); err == nil {
						emit("int+1", a.Pos(), a.End(), fmt.Sprint(i+1))
						if i > 0 {
							emit("int-1", a.Pos(), a.End(), fmt.Sprint(i-1))
						}
					}
				}
			case *ast.Ident:
				if a.Name == "true" {
					emit("bool", a.Pos(), a.End(), "false")
				}
				if a.Name == "false" {
					emit("bool", a.Pos(), a.End(), "true")
				}
			case *ast.UnaryExpr:
				if a.Op == token.NOT {
					emit("drop !", a.OpPos, a.OpPos+1, "")
				}
			}
			return true
		})
	}
}
