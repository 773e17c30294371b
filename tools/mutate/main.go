// mutate lists small changes of a Go file: one JSON object {"at", "end", "text", "what"} per line.
//
//	go run ./tools/mutate FILE
//
// For use while working (tools/mutants.py); no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"strconv"
)

type mutant struct {
	At   int    `json:"at"`
	End  int    `json:"end"`
	Text string `json:"text"`
	What string `json:"what"`
}

var family = regexp.MustCompile(`^(StateGB|GCB|InCB|Emoji|State)`)

func main() {
	fset := token.NewFileSet()
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	base := fset.File(f.Pos())
	off := func(p token.Pos) int { return base.Offset(p) }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	out := json.NewEncoder(os.Stdout)
	emit := func(from, to token.Pos, s string) {
		line := fset.Position(from).Line
		old := string(src[off(from):off(to)])
		if len(old) > 60 {
			old = old[:60] + "..."
		}
		out.Encode(mutant{off(from), off(to), s, fmt.Sprintf("line %d: %q -> %q", line, old, s)})
	}
	// Families of constants that may be confused.
	names := map[string][]string{}
	seen := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && !seen[id.Name] {
			seen[id.Name] = true
			if m := family.FindString(id.Name); m != "" && m != id.Name && id.Obj == nil || m == "StateGB" {
				names[m[:3]] = append(names[m[:3]], id.Name)
			}
		}
		return true
	})
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB, token.OR}, token.SUB: {token.ADD}, token.OR: {token.AND, token.XOR}, token.AND: {token.OR}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, t := range swap[n.Op] {
				emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String())
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit(n.Pos(), n.End(), text(n.X))
				emit(n.Pos(), n.End(), text(n.Y))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				emit(n.Pos(), n.End(), text(n.X))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, err := strconv.ParseInt(n.Value, 0, 64)
				if err == nil {
					emit(n.Pos(), n.End(), fmt.Sprint(v+1))
					if v > 0 {
						emit(n.Pos(), n.End(), fmt.Sprint(v-1))
					}
					if v > 1 {
						emit(n.Pos(), n.End(), "0")
					}
				}
			}
		case *ast.IfStmt:
			emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
			emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
		case *ast.ForStmt:
			if n.Cond != nil {
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
			}
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				emit(n.Pos(), n.End(), "{ _ = "+text(n.Rhs[0])+" }")
			}
			if n.Tok == token.OR_ASSIGN || n.Tok == token.ADD_ASSIGN {
				emit(n.TokPos, n.TokPos+2, "=")
			}
		case *ast.ExprStmt:
			emit(n.Pos(), n.End(), "{}")
		case *ast.IncDecStmt:
			emit(n.Pos(), n.End(), "{}")
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE {
				emit(n.Pos(), n.End(), "break")
			} else if n.Tok == token.BREAK {
				emit(n.Pos(), n.End(), "{}")
			}
		case *ast.CaseClause:
			if len(n.List) > 1 {
				for i, e := range n.List {
					if i == 0 {
						emit(e.Pos(), n.List[1].Pos(), "")
					} else {
						emit(n.List[i-1].End(), e.End(), "")
					}
				}
			}
			if len(n.Body) > 0 {
				emit(n.Colon+1, n.Body[len(n.Body)-1].End(), "")
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				switch text(r) {
				case "true":
					emit(r.Pos(), r.End(), "false")
				case "false":
					emit(r.Pos(), r.End(), "true")
				case "err":
					emit(r.Pos(), r.End(), "nil")
				}
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				emit(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1")
				emit(n.Low.Pos(), n.Low.End(), "0*("+text(n.Low)+")")
			}
			if n.High != nil {
				emit(n.High.Pos(), n.High.End(), text(n.High)+"-1")
			}
		case *ast.IndexExpr:
			emit(n.Index.Pos(), n.Index.End(), "0*("+text(n.Index)+")")
		case *ast.CallExpr:
			// A wrapper that only trims, copies or the like.
			if len(n.Args) == 1 {
				emit(n.Pos(), n.End(), text(n.Args[0]))
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
				emit(n.Pos(), n.End(), text(n.Args[0]))
			}
		case *ast.Ident:
			if m := family.FindString(n.Name); m != "" {
				for _, o := range names[m[:3]] {
					if o != n.Name {
						emit(n.Pos(), n.End(), o)
					}
				}
			}
		}
		return true
	})
}
