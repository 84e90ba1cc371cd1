// Command mutate lists single-place changes of a Go file (statements removed, conditions negated or fixed, operators,
// constants and returned errors changed) or writes one of them.
//
// usage: mutate FILE            lists "index line description"
//
//	mutate FILE INDEX OUT  writes the changed file
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
	line     int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}

	fset := token.NewFileSet()

	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}

	var edits []edit

	off := func(p token.Pos) int { return fset.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 90 {
			s = s[:90] + "..."
		}
		return s
	}
	add := func(n ast.Node, text, what string) {
		edits = append(edits, edit{off(n.Pos()), off(n.End()), text, what, fset.Position(n.Pos()).Line})
	}

	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for _, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
				add(s, "", "remove "+short(txt(s)))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s, "", "remove "+short(txt(s)))
				}
			case *ast.BranchStmt:
				add(s, "", "remove "+short(txt(s)))
				if s.Tok == token.CONTINUE && s.Label == nil {
					add(s, "break", "continue -> break")
				}
				if s.Tok == token.BREAK && s.Label == nil {
					add(s, "continue", "break -> continue")
				}
			case *ast.RangeStmt, *ast.ForStmt:
				add(s, "", "remove loop "+short(txt(s)))
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					add(s, "", "remove return")
				}
			}
		}
	}

	ast.Inspect(f, func(n ast.Node) bool {
		if call, ok := n.(*ast.CallExpr); ok { // texts of errors do not matter
			switch t := txt(call.Fun); t {
			case "fmt.Errorf", "errors.New", "panic":
				return false
			}
		}

		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT || n.Tok == token.TYPE {
				return false
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
			if len(n.List) > 1 {
				for i, e := range n.List {
					var rest []string
					for j, o := range n.List {
						if j != i {
							rest = append(rest, txt(o))
						}
					}
					edits = append(edits, edit{off(n.List[0].Pos()), off(n.List[len(n.List)-1].End()), strings.Join(rest, ", "), "case without " + short(txt(e)), fset.Position(n.Pos()).Line})
				}
			}
			if len(n.Body) > 0 && n.List != nil {
				edits = append(edits, edit{off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), "", "empty case " + short(txt(n.List[0])), fset.Position(n.Pos()).Line})
			}
		case *ast.IfStmt:
			add(n.Cond, "!("+txt(n.Cond)+")", "negate "+short(txt(n.Cond)))
			add(n.Cond, "false && ("+txt(n.Cond)+")", "never "+short(txt(n.Cond)))
			add(n.Cond, "true || ("+txt(n.Cond)+")", "always "+short(txt(n.Cond)))
		case *ast.BinaryExpr:
			sw := map[token.Token][]string{
				token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
				token.LAND: {"||"}, token.LOR: {"&&"}, token.SUB: {"+"}, token.MUL: {"+"},
			}
			for _, t := range sw[n.Op] {
				edits = append(edits, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), t, n.Op.String() + " -> " + t + " in " + short(txt(n)), fset.Position(n.Pos()).Line})
			}
			if n.Op == token.LAND || n.Op == token.LOR || n.Op == token.ADD {
				add(n, txt(n.X), "only left of "+short(txt(n)))
				add(n, txt(n.Y), "only right of "+short(txt(n)))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n, txt(n.X), "without ! "+short(txt(n)))
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.STRING:
				if n.Value != `""` && n.Value != "``" {
					add(n, `""`, "empty string for "+short(n.Value))
					if s, err := strconv.Unquote(n.Value); err == nil {
						add(n, strconv.Quote(s+"x"), "other string for "+short(n.Value))
					}
				} else {
					add(n, `"x"`, "x for empty string")
				}
			case token.INT:
				add(n, "("+n.Value+"+1)", n.Value+"+1")
				if n.Value != "0" {
					add(n, "("+n.Value+"-1)", n.Value+"-1")
				}
			}
		case *ast.Ident:
			switch n.Name {
			case "true":
				add(n, "false", "true -> false")
			case "false":
				add(n, "true", "false -> true")
			}
			ins := []string{"InPath", "InQuery", "InHeader", "InCookie", "InFormData", "InBody"}
			for i, v := range ins {
				if n.Name == v {
					add(n, ins[(i+1)%len(ins)], "other location for "+v)
				}
			}
		case *ast.SelectorExpr:
			s := txt(n)
			sw := map[string]string{
				"openapi.InPath": "openapi.InQuery", "openapi.InQuery": "openapi.InHeader", "openapi.InHeader": "openapi.InCookie", "openapi.InCookie": "openapi.InQuery", "openapi.InFormData": "openapi.InQuery", "openapi.InBody": "openapi.InQuery",
				"ParameterInPath": "", "http.StatusOK": "http.StatusCreated", "http.StatusNoContent": "http.StatusOK",
			}
			if v := sw[s]; v != "" {
				add(n, v, s+" -> "+v)
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				t := txt(r)
				if t == "err" || strings.HasPrefix(t, "fmt.Errorf") || strings.HasPrefix(t, "errors.New") || strings.HasPrefix(t, "err") && !strings.ContainsAny(t, "( .") {
					add(r, "nil", "return nil for "+short(t))
				}
			}
		case *ast.CallExpr:
			// append(a, b...) -> a; first argument only.
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) > 1 {
				add(n, txt(n.Args[0]), "without append "+short(txt(n)))
			}
			if len(n.Args) == 2 && !n.Ellipsis.IsValid() {
				edits = append(edits, edit{off(n.Args[0].Pos()), off(n.Args[1].End()), txt(n.Args[1]) + ", " + txt(n.Args[0]), "swap arguments of " + short(txt(n)), fset.Position(n.Pos()).Line})
			}
			if len(n.Args) == 1 {
				if _, ok := n.Fun.(*ast.SelectorExpr); ok {
					add(n, txt(n.Args[0]), "argument for call "+short(txt(n)))
				}
			}
		case *ast.CompositeLit:
			for i, e := range n.Elts {
				end := off(e.End())
				if i+1 < len(n.Elts) {
					end = off(n.Elts[i+1].Pos())
				}
				what := short(txt(e))
				rest := ""
				if i+1 == len(n.Elts) { // keep a trailing comma out
					j := end
					for j < len(src) && (src[j] == ' ' || src[j] == '\n' || src[j] == '\t') {
						j++
					}
					if j < len(src) && src[j] == ',' {
						end = j + 1
					}
				}
				edits = append(edits, edit{off(e.Pos()), end, rest, "literal without " + what, fset.Position(e.Pos()).Line})
			}
		}
		return true
	})

	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })

	if len(os.Args) == 2 {
		for i, e := range edits {
			fmt.Printf("%d\t%d\t%s\n", i, e.line, e.what)
		}
		return
	}

	i, _ := strconv.Atoi(os.Args[2])
	e := edits[i]

	var b bytes.Buffer
	b.Write(src[:e.from])
	b.WriteString(e.text)
	b.Write(src[e.to:])

	if err := os.WriteFile(os.Args[3], b.Bytes(), 0o600); err != nil {
		panic(err)
	}
}
