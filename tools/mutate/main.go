// Command mutate writes single-edit mutants of the non-test files of a package
// directory: mutate DIR OUT writes OUT/NNNN.{go,txt} (the mutated file and a
// line "FILE LINE DESCRIPTION"). Development tool, never used by a check.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	os.MkdirAll(out, 0o755)
	files, _ := filepath.Glob(dir + "/*.go")
	n := 0
	for _, name := range files {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		var edits []edit
		add := func(x ast.Node, new string) {
			old := text(x)
			if len(old) > 60 {
				old = old[:60] + "..."
			}
			edits = append(edits, edit{off(x.Pos()), off(x.End()), new, strings.ReplaceAll(old, "\n", " ") + "  =>  " + strings.ReplaceAll(new, "\n", " ")})
		}
		swaps := map[token.Token][]token.Token{
			token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
			token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
			token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
			token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.REM: {token.QUO},
		}
		var inConst bool
		var visit func(ast.Node) bool
		visit = func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				if x.Name.Name == "String" && x.Recv != nil {
					// formatting code counts too
				}
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, t := range swaps[x.Op] {
					o := off(x.OpPos)
					edits = append(edits, edit{o, o + len(x.Op.String()), t.String(), text(x) + "  =>  " + t.String()})
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x, "("+text(x.X)+")")
					add(x, "("+text(x.Y)+")")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x, fmt.Sprint(v+1))
						if v > 0 {
							add(x, fmt.Sprint(v-1))
						}
					}
				case token.STRING:
					s, err := strconv.Unquote(x.Value)
					if err == nil && len(s) > 1 && !strings.Contains(s, "%") {
						add(x, strconv.Quote(s[:len(s)-1]))
						add(x, strconv.Quote(s[1:]))
					} else if err == nil && len(s) == 1 {
						add(x, strconv.Quote(s+s))
					}
				case token.CHAR:
					if x.Value != "'x'" {
						add(x, "'x'")
					}
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				add(x.Cond, "true || "+par(c))
				add(x.Cond, "false && "+par(c))
				add(x.Cond, "!("+c+")")
			case *ast.ForStmt:
				if x.Cond != nil {
					add(x.Cond, "false && "+par(text(x.Cond)))
				}
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN || x.Tok == token.OR_ASSIGN || x.Tok == token.SHL_ASSIGN {
					var l []string
					for range x.Lhs {
						l = append(l, "_")
					}
					if x.Tok == token.ASSIGN {
						add(x, strings.Join(l, ", ")+" = "+string(src[off(x.Rhs[0].Pos()):off(x.Rhs[len(x.Rhs)-1].End())]))
						for i := range x.Lhs {
							if len(x.Lhs) > 1 {
								p := x.Lhs[i]
								edits = append(edits, edit{off(p.Pos()), off(p.End()), "_", text(x) + "  =>  drop " + text(p)})
							}
						}
					} else {
						add(x, "_ = "+text(x.Rhs[0]))
					}
					if x.Tok == token.ADD_ASSIGN {
						o := off(x.TokPos)
						edits = append(edits, edit{o, o + 2, "=", text(x) + "  =>  ="}, edit{o, o + 2, "-=", text(x) + "  =>  -="})
					}
				}
			case *ast.IncDecStmt:
				add(x, "_ = "+text(x.X))
				if x.Tok == token.INC {
					add(x, text(x.X)+"--")
				}
			case *ast.ExprStmt:
				add(x, "_ = 0")
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					t := text(r)
					switch {
					case t == "true":
						add(r, "false")
					case t == "false":
						add(r, "true")
					case t == "err" || t == "rerr" || strings.HasPrefix(t, "applyError(") || strings.HasPrefix(t, "p.Errorf(") || strings.HasPrefix(t, "fmt.Errorf(") || strings.HasPrefix(t, "errors.New("):
						add(r, "nil")
					}
				}
			case *ast.BranchStmt:
				switch x.Tok {
				case token.CONTINUE:
					add(x, "break")
					add(x, "_ = 0")
				case token.BREAK:
					add(x, "continue")
					add(x, "_ = 0")
				case token.FALLTHROUGH:
					add(x, "_ = 0")
				}
			case *ast.CaseClause:
				if x.List != nil && len(x.List) > 1 {
					for i := range x.List {
						var keep []string
						for j, e := range x.List {
							if j != i {
								keep = append(keep, text(e))
							}
						}
						edits = append(edits, edit{off(x.List[0].Pos()), off(x.List[len(x.List)-1].End()), strings.Join(keep, ", "), "case without " + text(x.List[i])})
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low, text(x.Low)+"+1")
				}
				if x.High != nil {
					add(x.High, text(x.High)+"-1")
				}
			case *ast.CompositeLit:
				if len(x.Elts) > 2 {
					for i, e := range x.Elts {
						_ = i
						end := off(e.End())
						if end < len(src) && src[end] == ',' {
							edits = append(edits, edit{off(e.Pos()), end + 1, "", "without " + strings.ReplaceAll(text(e), "\n", " ")})
						}
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 2 && (id.Name == "min" || id.Name == "max") {
					add(x, text(x.Args[0]))
					add(x, text(x.Args[1]))
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if p, ok := s.X.(*ast.Ident); ok && p.Name == "strings" && strings.HasPrefix(s.Sel.Name, "Trim") && len(x.Args) >= 1 {
						add(x, text(x.Args[0]))
					}
				}
			}
			return true
		}
		_ = inConst
		ast.Inspect(f, visit)
		for _, e := range edits {
			n++
			m := string(src[:e.from]) + e.text + string(src[e.to:])
			line := 1 + strings.Count(string(src[:e.from]), "\n")
			os.WriteFile(fmt.Sprintf("%s/%04d.go", out, n), []byte(m), 0o644)
			os.WriteFile(fmt.Sprintf("%s/%04d.txt", out, n), []byte(fmt.Sprintf("%s %d %s\n", filepath.Base(name), line, e.what)), 0o644)
		}
	}
	fmt.Println(n, "mutants")
}

func par(s string) string { return "(" + s + ")" }
