// mutate lists small syntactic changes of Go files as JSON lines
// {file, off, end, new, kind, line}: replacing bytes [off, end) by new.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type site struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/", "+"},
	token.QUO: {"*"}, token.REM: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"},
	token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
	token.ADD_ASSIGN: {"-="}, token.SUB_ASSIGN: {"+="}, token.INC: {"--"}, token.DEC: {"++"},
	token.OR_ASSIGN: {"&="}, token.AND_ASSIGN: {"|="}, token.XOR_ASSIGN: {"|="},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, s, kind string) {
			enc.Encode(site{name, off(a), off(b), s, kind, fs.Position(a).Line, fn})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "_ = 0", "delete")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "_ = 0", "delete")
					}
				case *ast.IfStmt:
					if x.Init == nil {
						emit(s.Pos(), s.End(), "_ = 0", "delete-if")
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op "+x.Op.String()+" to "+s)
				}
			case *ast.AssignStmt:
				for _, s := range swaps[x.Tok] {
					emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), s, "op "+x.Tok.String()+" to "+s)
				}
			case *ast.IncDecStmt:
				emit(x.TokPos, x.TokPos+2, swaps[x.Tok][0], "incdec")
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				} else if x.Kind == token.FLOAT {
					emit(x.Pos(), x.End(), "("+x.Value+"*1.1+0.1)", "float")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
				if x.Else != nil {
					emit(x.Body.End(), x.Else.End(), "", "no-else")
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					last := x.Results[k-1]
					if id, ok := last.(*ast.Ident); ok && (id.Name == "err" || id.Name == "e") {
						emit(last.Pos(), last.End(), "nil", "nil-error")
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					emit(x.OpPos, x.OpPos+1, "", "unary")
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CallExpr:
				if len(x.Args) == 2 && text(x.Args[0]) != text(x.Args[1]) {
					emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap-args")
				}
			}
			return true
		})
	}
}
