// mkshim writes the packages simstr/strings and simstr/bytes: the standard
// packages with the amount of data each call looks at charged as work, so
// that work hidden in library calls counts. Development tool; its output is
// committed.
//
//	mkshim SIMDIR
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

// how the work of a call is charged: in terms of a (first argument), b
// (second) and the results
var special = map[string]string{
	"HasPrefix": "len(b)", "HasSuffix": "len(b)", "CutPrefix": "len(b)", "CutSuffix": "len(b)", "TrimPrefix": "len(b)", "TrimSuffix": "len(b)",
	"Cut": "len(r0)+len(b)", "Trim": "len(a)-len(r0)", "TrimSpace": "len(a)-len(r0)", "TrimLeft": "len(a)-len(r0)", "TrimRight": "len(a)-len(r0)",
	"TrimFunc": "len(a)-len(r0)", "TrimLeftFunc": "len(a)-len(r0)", "TrimRightFunc": "len(a)-len(r0)",
	"Index": "found(r0,len(a))", "IndexByte": "found(r0,len(a))", "IndexAny": "found(r0,len(a))", "IndexRune": "found(r0,len(a))", "IndexFunc": "found(r0,len(a))",
	"LastIndex": "len(a)-max(r0,0)", "LastIndexByte": "len(a)-max(r0,0)", "LastIndexAny": "len(a)-max(r0,0)", "LastIndexFunc": "len(a)-max(r0,0)",
	"Contains": "found(PKG.Index(a,b),len(a))", "ContainsAny": "found(PKG.IndexAny(a,b),len(a))", "ContainsRune": "found(PKG.IndexRune(a,b),len(a))", "ContainsFunc": "",
	"SplitN": "len(a)-rest(r0,p2)", "SplitAfterN": "len(a)-rest(r0,p2)", "Compare": "min(len(a),len(b))", "Equal": "eq(a,b)", "EqualFold": "min(len(a),len(b))",
	"NewReader": "", "NewReplacer": "", "NewBuffer": "", "NewBufferString": "", "Lines": "", "SplitSeq": "", "SplitAfterSeq": "", "FieldsSeq": "", "FieldsFuncSeq": "", "MinRead": "", "Runes": "len(a)",
}

func main() {
	for _, pkg := range []string{"strings", "bytes"} {
		p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(pkg)
		if err != nil {
			panic(err)
		}
		imports := map[string]bool{}
		q := func(o *types.Package) string {
			if o == p {
				return "std"
			}
			imports[o.Path()] = true
			return o.Name()
		}
		var body strings.Builder
		names := p.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			if !ast.IsExported(n) {
				continue
			}
			switch o := p.Scope().Lookup(n).(type) {
			case *types.TypeName:
				fmt.Fprintf(&body, "\ntype %s = std.%s\n", n, n)
			case *types.Const:
				fmt.Fprintf(&body, "\nconst %s = std.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&body, "\nvar %s = std.%s\n", n, n)
			case *types.Func:
				sig := o.Type().(*types.Signature)
				if sig.TypeParams().Len() > 0 {
					fmt.Fprintln(os.Stderr, "generic", n)
					continue
				}
				var ps, as []string
				cost := "0"
				for i := 0; i < sig.Params().Len(); i++ {
					v := sig.Params().At(i)
					name := fmt.Sprintf("p%d", i)
					if i < 2 {
						name = string(rune('a' + i))
					}
					t := types.TypeString(v.Type(), q)
					arg := name
					if sig.Variadic() && i == sig.Params().Len()-1 {
						t = "..." + strings.TrimPrefix(t, "[]")
						arg += "..."
					}
					ps, as = append(ps, name+" "+t), append(as, arg)
					if t == "string" || t == "[]byte" {
						cost += "+len(" + name + ")"
					} else if t == "[]string" || t == "[][]byte" {
						cost += "+total(" + name + ")"
					}
				}
				if c, ok := special[n]; ok {
					cost = strings.ReplaceAll(c, "PKG", "std")
				}
				var rs, rn []string
				for i := 0; i < sig.Results().Len(); i++ {
					rs = append(rs, fmt.Sprintf("r%d %s", i, types.TypeString(sig.Results().At(i).Type(), q)))
					rn = append(rn, fmt.Sprintf("r%d", i))
				}
				fmt.Fprintf(&body, "\nfunc %s(%s) (%s) {\n", n, strings.Join(ps, ", "), strings.Join(rs, ", "))
				call := fmt.Sprintf("std.%s(%s)", n, strings.Join(as, ", "))
				if cost == "" || cost == "0" {
					fmt.Fprintf(&body, "\treturn %s\n}\n", call)
					continue
				}
				fmt.Fprintf(&body, "\t%s = %s\n\tsimrt.Work(%s)\n\treturn\n}\n", strings.Join(rn, ", "), call, cost)
			}
		}
		elem := map[string]string{"strings": "string", "bytes": "[]byte"}[pkg]
		var out strings.Builder
		fmt.Fprintf(&out, "// Code generated by mkshim; DO NOT EDIT.\n\n// Package %s is the standard package with its work charged to the simulator.\npackage %s\n\nimport (\n\tstd %q\n\t\"gitdiffsim/simrt\"\n", pkg, pkg, pkg)
		var im []string
		for i := range imports {
			im = append(im, i)
		}
		sort.Strings(im)
		for _, i := range im {
			fmt.Fprintf(&out, "\t%q\n", i)
		}
		fmt.Fprintf(&out, ")\n\nfunc found(i, n int) int {\n\tif i < 0 {\n\t\treturn n\n\t}\n\treturn i\n}\n")
		fmt.Fprintf(&out, "\nfunc total(l []%s) (n int) {\n\tfor _, x := range l {\n\t\tn += len(x) + 1\n\t}\n\treturn\n}\n", elem)
		fmt.Fprintf(&out, "\n// rest is what a limited split did not look at.\nfunc rest(l []%s, n int) int {\n\tif n > 0 && len(l) == n {\n\t\treturn len(l[n-1])\n\t}\n\treturn 0\n}\n", elem)
		if pkg == "bytes" {
			fmt.Fprintf(&out, "\nfunc eq(a, b []byte) int {\n\tif len(a) != len(b) {\n\t\treturn 0\n\t}\n\treturn len(a)\n}\n")
		}
		out.WriteString(body.String())
		if err := os.WriteFile(os.Args[1]+"/simstr/"+pkg+"/"+pkg+".go", []byte(out.String()), 0o644); err != nil {
			panic(err)
		}
	}
}
