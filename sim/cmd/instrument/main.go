// instrument writes a copy of the library's sources in which a simulator call
// precedes every statement, package sync is replaced by the simulated one,
// work in strings, bytes and built-in copies is charged, and package-level
// state can be reset, plus the overlay file that makes the go
// command use it. The repository itself is not touched.
//
//	instrument REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off  int
	text string
	del  int
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	dirs := map[string]bool{}
	die(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (n == "testdata" || n == "vendor" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			if ok, _ := build.Default.MatchFile(filepath.Dir(p), filepath.Base(p)); ok {
				dirs[filepath.Dir(p)] = true
			}
		}
		return nil
	}))
	var list []string
	for d := range dirs {
		list = append(list, d)
	}
	sort.Strings(list)
	for i, d := range list {
		die(instrumentDir(d, filepath.Join(out, fmt.Sprintf("p%d", i)), replace))
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))

	// The race-detecting build also gets a sync.Pool that keeps nothing: the
	// standard library's pools (package fmt's printers) would order simulated
	// tasks by chance and so hide races.
	if src := filepath.Join(build.Default.GOROOT, "src", "sync", "pool.go"); patchPool(src, filepath.Join(out, "pool.go")) {
		replace[src] = filepath.Join(out, "pool.go")
	}
	b, _ = json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(os.WriteFile(filepath.Join(out, "overlay-race.json"), b, 0o644))
}

func patchPool(src, dst string) bool {
	const put = "func (p *Pool) Put(x any) {\n\tif x == nil {"
	b, err := os.ReadFile(src)
	if err != nil || !strings.Contains(string(b), put) {
		return false
	}
	die(os.WriteFile(dst, []byte(strings.Replace(string(b), put, strings.Replace(put, "x == nil", "true", 1), 1)), 0o644))
	return true
}

// channelOps makes waiting for a buffered channel (a semaphore, a free list)
// visible to the simulator. Waiting in a select or a range stays real.
func channelOps(n ast.Node, edit func(p token.Pos, del int, text string), twoValued map[ast.Expr]bool, inSelect map[ast.Node]bool) {
	recv := func(e ast.Expr) *ast.UnaryExpr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	switch n := n.(type) {
	case *ast.CommClause:
		switch c := n.Comm.(type) {
		case *ast.SendStmt:
			inSelect[c] = true
		case *ast.ExprStmt:
			if u := recv(c.X); u != nil {
				inSelect[u] = true
			}
		case *ast.AssignStmt:
			if u := recv(c.Rhs[0]); u != nil {
				inSelect[u] = true
			}
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u := recv(n.Rhs[0]); u != nil {
				twoValued[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u := recv(n.Values[0]); u != nil {
				twoValued[u] = true
			}
		}
	case *ast.SendStmt:
		if !inSelect[n] {
			edit(n.Pos(), 0, "simrt__.Send(")
			edit(n.Arrow, 2, ")(")
			edit(n.End(), 0, ")")
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !inSelect[n] {
			name := "Recv"
			if twoValued[n] {
				name = "Recv2"
			}
			edit(n.OpPos, 2, "simrt__."+name+"(")
			edit(n.End(), 0, ")")
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(n.Args) == 1 {
			edit(id.Pos(), 5, "simrt__.Close")
		}
	}
}

type pkgVar struct {
	file  int
	names []string
	expr  ast.Expr // nil: zero value
	typ   ast.Expr
	deps  map[string]bool
	done  bool
}

func instrumentDir(dir, out string, replace map[string]string) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var srcs [][]byte
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), src, parser.ParseComments)
		if err != nil {
			return err
		}
		files, names, srcs = append(files, f), append(names, n), append(srcs, src)
	}
	if len(files) == 0 || files[0].Name.Name == "main" {
		return nil
	}

	// package-level identifiers each function and initialiser mentions
	refs := map[string]map[string]bool{}
	collect := func(n ast.Node) map[string]bool {
		m := map[string]bool{}
		if n == nil {
			return m
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				m[id.Name] = true
			}
			return true
		})
		return m
	}
	var vars []*pkgVar
	isVar := map[string]bool{}
	sites := 0
	foreign := false // starts goroutines of its own: their locks and channels stay real
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.GoStmt); ok {
				foreign = true
			}
			return true
		})
	}
	type initFn struct{ file, n int }
	var inits []initFn
	edits := make([][]edit, len(files))
	for fi, f := range files {
		pos := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(p token.Pos, text string) { edits[fi] = append(edits[fi], edit{off: pos(p), text: text}) }
		add(f.Name.End(), `; import simrt__ "gitdiffsim/simrt"`)
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` && !foreign {
				name := "sync "
				if im.Name != nil {
					name = ""
				}
				edits[fi] = append(edits[fi], edit{off: pos(im.Path.Pos()), del: len(im.Path.Value), text: name + `"gitdiffsim/simsync"`})
			}
			if v := im.Path.Value; v == `"strings"` || v == `"bytes"` {
				edits[fi] = append(edits[fi], edit{off: pos(im.Path.Pos()), del: len(v), text: `"gitdiffsim/simstr/` + v[1:]})
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				name := d.Name.Name
				m := collect(d.Body)
				if refs[name] == nil {
					refs[name] = map[string]bool{}
				}
				for k := range m {
					refs[name][k] = true
				}
				if name == "init" && d.Recv == nil {
					edits[fi] = append(edits[fi], edit{off: pos(d.Name.Pos()), del: 4, text: fmt.Sprintf("simInit_%d_%d", fi, len(inits))})
					inits = append(inits, initFn{fi, len(inits)})
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					var ns []string
					for _, n := range vs.Names {
						ns = append(ns, n.Name)
						isVar[n.Name] = true
					}
					switch {
					case len(vs.Values) == 0:
						for _, n := range ns {
							vars = append(vars, &pkgVar{file: fi, names: []string{n}, typ: vs.Type, deps: map[string]bool{}})
						}
					case len(vs.Values) == len(ns):
						for i, n := range ns {
							vars = append(vars, &pkgVar{file: fi, names: []string{n}, expr: vs.Values[i], typ: vs.Type, deps: collect(vs.Values[i])})
						}
					default:
						vars = append(vars, &pkgVar{file: fi, names: ns, expr: vs.Values[0], deps: collect(vs.Values[0])})
					}
				}
			}
		}
		// step calls
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				switch s := s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				case *ast.LabeledStmt:
					// also step each time the label is reached by goto
					if _, ok := s.Stmt.(*ast.EmptyStmt); !ok {
						switch s.Stmt.(type) {
						case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.BlockStmt:
						default:
							add(s.Stmt.Pos(), "simrt__.Step();")
							sites++
							continue
						}
					}
				}
				add(s.Pos(), "simrt__.Step();")
				sites++
			}
		}
		twoValued, inSelect := map[ast.Expr]bool{}, map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			if !foreign {
				channelOps(n, func(p token.Pos, del int, text string) {
					edits[fi] = append(edits[fi], edit{off: pos(p), del: del, text: text})
				}, twoValued, inSelect)
			}
			if c, ok := n.(*ast.CallExpr); ok {
				switch id, _ := c.Fun.(*ast.Ident); {
				case id == nil:
				case id.Name == "copy" && len(c.Args) == 2:
					add(c.Pos(), "simrt__.N(")
					add(c.End(), ")")
				case id.Name == "append" && len(c.Args) == 2 && c.Ellipsis.IsValid():
					add(c.Args[1].Pos(), "simrt__.S(")
					add(c.Args[1].End(), ")")
				}
			}
			if fs, ok := n.(*ast.ForStmt); ok && len(fs.Body.List) == 0 {
				add(fs.Body.Rbrace, "simrt__.Step();")
				sites++
			}
			return true
		})
	}

	// initialisation order: repeatedly the first variable without
	// uninitialised dependencies
	var reach func(n string, seen map[string]bool, out map[string]bool)
	reach = func(n string, seen map[string]bool, out map[string]bool) {
		if seen[n] {
			return
		}
		seen[n] = true
		if isVar[n] {
			out[n] = true
			return
		}
		for k := range refs[n] {
			reach(k, seen, out)
		}
	}
	ready := map[string]bool{}
	for _, v := range vars {
		if v.expr == nil {
			continue
		}
		dep := map[string]bool{}
		seen := map[string]bool{}
		for k := range v.deps {
			reach(k, seen, dep)
		}
		v.deps = dep
	}
	var order []*pkgVar
	for _, v := range vars {
		if v.expr == nil {
			v.done = true
			order = append(order, v)
			for _, n := range v.names {
				ready[n] = true
			}
		}
	}
	for {
		var next *pkgVar
		for _, v := range vars {
			if v.done {
				continue
			}
			ok := true
			for d := range v.deps {
				if !ready[d] {
					self := false
					for _, n := range v.names {
						self = self || n == d
					}
					if !self {
						ok = false
					}
				}
			}
			if ok {
				next = v
				break
			}
		}
		if next == nil {
			for _, v := range vars { // cycle through methods: declaration order
				if !v.done {
					next = v
					break
				}
			}
		}
		if next == nil {
			break
		}
		next.done = true
		order = append(order, next)
		for _, n := range next.names {
			ready[n] = true
		}
	}

	text := func(fi int, n ast.Node) string {
		return string(srcs[fi][fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	tails := make([]strings.Builder, len(files))
	var calls []string
	for i, v := range order {
		blank := true
		for _, n := range v.names {
			blank = blank && n == "_"
		}
		if blank {
			continue
		}
		fn := fmt.Sprintf("simReset_%d", i)
		calls = append(calls, fn)
		t := &tails[v.file]
		switch {
		case v.expr == nil:
			fmt.Fprintf(t, "\nfunc %s() { var z %s; %s = z }\n", fn, text(v.file, v.typ), v.names[0])
		case v.typ != nil:
			fmt.Fprintf(t, "\nfunc %s() { var z %s = %s; %s = z }\n", fn, text(v.file, v.typ), text(v.file, v.expr), v.names[0])
		default:
			fmt.Fprintf(t, "\nfunc %s() { %s = %s }\n", fn, strings.Join(v.names, ", "), text(v.file, v.expr))
		}
	}
	for i, n := range names {
		es := edits[i]
		sort.SliceStable(es, func(a, b int) bool { return es[a].off < es[b].off })
		var b strings.Builder
		last := 0
		for _, e := range es {
			b.Write(srcs[i][last:e.off])
			b.WriteString(e.text)
			last = e.off + e.del
		}
		b.Write(srcs[i][last:])
		b.WriteString("\nvar _ = simrt__.Step\n")
		b.WriteString(tails[i].String())
		p := filepath.Join(out, n)
		if err := os.WriteFile(p, []byte(b.String()), 0o644); err != nil {
			return err
		}
		replace[filepath.Join(dir, n)] = p
	}
	var z strings.Builder
	fmt.Fprintf(&z, "package %s\n\nimport \"gitdiffsim/simrt\"\n\nfunc init() {\n", files[0].Name.Name)
	for _, in := range inits {
		fmt.Fprintf(&z, "\tsimInit_%d_%d()\n", in.file, in.n)
	}
	if foreign {
		fmt.Fprintf(&z, "\tsimrt.Foreign = true\n")
	}
	fmt.Fprintf(&z, "\tsimrt.Register(%d, func() {\n", sites)
	for _, c := range calls {
		fmt.Fprintf(&z, "\t\t%s()\n", c)
	}
	for _, in := range inits {
		fmt.Fprintf(&z, "\t\tsimInit_%d_%d()\n", in.file, in.n)
	}
	fmt.Fprintf(&z, "\t})\n}\n")
	p := filepath.Join(out, "zz_sim_register.go")
	if err := os.WriteFile(p, []byte(z.String()), 0o644); err != nil {
		return err
	}
	replace[filepath.Join(dir, "zz_sim_register.go")] = p
	return nil
}
