// mutate lists single-point changes of the Go files of a directory, or applies one of them.
//
//	mutate list DIR          one line per change: number, file:line, description
//	mutate apply DIR N       writes the N-th change into the file
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type change struct {
	file     string
	line     int
	from, to int
	text     string
	what     string
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
}

func main() {
	dir := os.Args[2]
	var files []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasSuffix(p, "doc.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var all []change
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		all = append(all, changes(f, string(src))...)
	}
	if os.Args[1] == "list" {
		for i, c := range all {
			rel, _ := filepath.Rel(dir, c.file)
			fmt.Printf("%d\t%s:%d\t%s\n", i, rel, c.line, c.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[3])
	c := all[n]
	src, _ := os.ReadFile(c.file)
	os.WriteFile(c.file, []byte(string(src[:c.from])+c.text+string(src[c.to:])), 0644)
}

func changes(name, src string) []change {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, 0)
	if err != nil {
		panic(err)
	}
	var r []change
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	clip := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70] + "…"
		}
		return s
	}
	add := func(from, to token.Pos, text, what string) {
		r = append(r, change{name, fs.Position(from).Line, off(from), off(to), text, what})
	}
	of := func(n ast.Node) string { return src[off(n.Pos()):off(n.End())] }
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec, *ast.Field:
			return false
		case *ast.CallExpr:
			if s := of(x.Fun); s == "fmt.Errorf" || s == "fmt.Sprintf" || s == "errors.New" || s == "panic" {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swaps[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String(), clip(of(x))+": "+x.Op.String()+" -> "+t.String())
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.X.Pos(), x.Y.Pos(), "", clip(of(x))+": left operand dropped")
				add(x.X.End(), x.Y.End(), "", clip(of(x))+": right operand dropped")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.X.Pos(), "", clip(of(x))+": ! dropped")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), x.Value+" -> +1")
					if v > 0 {
						add(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), x.Value+" -> -1")
					}
				}
			}
			if x.Kind == token.FLOAT {
				add(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" -> +1")
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "("+of(x.Cond)+") && false", "if "+clip(of(x.Cond))+": never")
			add(x.Cond.Pos(), x.Cond.End(), "("+of(x.Cond)+") || true", "if "+clip(of(x.Cond))+": always")
		case *ast.ExprStmt:
			add(x.Pos(), x.End(), "", clip(of(x))+": dropped")
		case *ast.IncDecStmt:
			add(x.Pos(), x.End(), "", clip(of(x))+": dropped")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				s := clip(of(x))
				t := ""
				for _, e := range x.Rhs {
					t += "_ = " + of(e) + ";"
				}
				if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
					t = strings.Repeat("_, ", len(x.Lhs)-1) + "_ = " + of(x.Rhs[0])
				}
				add(x.Pos(), x.End(), t, s+": dropped")
			}
			if x.Tok == token.ADD_ASSIGN {
				add(x.TokPos, x.TokPos+2, "=", clip(of(x))+": += -> =")
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "continue", "break -> continue")
			}
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), x.End(), "break", "continue -> break")
			}
		case *ast.GoStmt:
			add(x.Pos(), x.Call.Pos(), "", "go dropped")
		}
		return true
	}
	ast.Inspect(f, visit)
	return r
}
