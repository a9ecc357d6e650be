// mutate lists or applies small changes to Go files: mutate FILE...        lists "file:n line text"
// mutate -apply N FILE prints the file with change N made.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	pos, end int
	repl     string
	what     string
	line     int
}

func main() {
	args := os.Args[1:]
	apply := -1
	if len(args) > 1 && args[0] == "-apply" {
		apply, _ = strconv.Atoi(args[1])
		args = args[2:]
	}
	for _, f := range args {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		ms := muts(f, src)
		if apply >= 0 {
			m := ms[apply]
			os.Stdout.WriteString(string(src[:m.pos]) + m.repl + string(src[m.end:]))
			return
		}
		for i, m := range ms {
			fmt.Printf("%s\t%d\t%d\t%s\n", f, i, m.line, m.what)
		}
	}
}

func muts(f string, src []byte) []mut {
	fs := token.NewFileSet()
	file, err := parser.ParseFile(fs, f, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var out []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70]
		}
		return s
	}
	add := func(p, e token.Pos, repl, what string) {
		out = append(out, mut{off(p), off(e), repl, what, fs.Position(p).Line})
	}
	logs := func(s string) bool {
		return strings.Contains(s, "logger.") || strings.Contains(s, "log.") || strings.Contains(s, "Warn(")
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT || x.Tok == token.TYPE {
				return false
			}
		case *ast.BinaryExpr:
			swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.GTR: ">=", token.LEQ: "<", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.REM: "*", token.AND: "|", token.OR: "&"}
			if r, ok := swap[x.Op]; ok {
				if x.Op == token.ADD && strings.Contains(text(x), `"`) {
					break
				}
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, fmt.Sprintf("%s: %s -> %s", short(text(x)), x.Op, r))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.OpPos, x.OpPos+1, "", "drop ! in "+short(text(x)))
			}
		case *ast.IfStmt:
			if !logs(text(x.Body)) || len(x.Body.List) > 1 {
				c := text(x.Cond)
				add(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "if false: "+short(c))
				if x.Else == nil {
					add(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "if true: "+short(c))
				}
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				_ = s
			}
			if len(x.List) > 1 {
				for i, c := range x.List {
					if i > 0 {
						add(x.List[i-1].End(), c.End(), "", "drop case "+short(text(c)))
					} else {
						add(c.Pos(), x.List[1].Pos(), "", "drop case "+short(text(c)))
					}
				}
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x.Pos(), x.End(), "("+x.Value+"+1)", "literal "+x.Value+"+1")
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				r := "false"
				if x.Name == "false" {
					r = "true"
				}
				add(x.Pos(), x.End(), r, x.Name+" -> "+r)
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				del(s, add, text, short, logs)
			}
		}
		if c, ok := n.(*ast.CaseClause); ok {
			for _, s := range c.Body {
				del(s, add, text, short, logs)
			}
		}
		if c, ok := n.(*ast.CommClause); ok {
			for _, s := range c.Body {
				del(s, add, text, short, logs)
			}
		}
		return true
	})
	return out
}

func del(s ast.Stmt, add func(p, e token.Pos, r, w string), text func(ast.Node) string, short func(string) string, logs func(string) bool) {
	t := text(s)
	switch x := s.(type) {
	case *ast.ExprStmt:
		if !logs(t) {
			add(s.Pos(), s.End(), "", "delete "+short(t))
			if strings.HasPrefix(t, "go ") {
				return
			}
		}
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			blank := ""
			add(s.Pos(), s.End(), blank, "delete "+short(t))
		}
	case *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt:
		add(s.Pos(), s.End(), "", "delete "+short(t))
	case *ast.DeferStmt:
		add(s.Pos(), s.End(), "", "delete "+short(t))
	case *ast.GoStmt:
		add(s.Pos(), s.Pos()+3, "", "not go: "+short(t))
	}
}
