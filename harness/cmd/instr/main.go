// Command instr writes an overlay in which every statement of the library is
// preceded by a scheduling point and every package registers its variables.
//
//	instr REPO OUTDIR    writes OUTDIR/overlay.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `// Package zzsched is where the instrumented library stops.
package zzsched

// Hook runs before every statement of the library.
var Hook func(statement int)

// Globals are pointers to all package-level variables.
var Globals []any

// Point is a scheduling point.
func Point(statement int) {
	if h := Hook; h != nil {
		h(statement)
	}
}

// Register adds package-level variables.
func Register(p ...any) { Globals = append(Globals, p...) }
`

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	die(err)
	module := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "module" {
			module = f[1]
		}
	}
	if module == "" {
		die(fmt.Errorf("no module path"))
	}
	die(os.MkdirAll(out, 0o755))
	replace := map[string]string{}
	put := func(rel, text string) {
		p := filepath.Join(out, strings.ReplaceAll(rel, "/", "__")+".txt")
		die(os.WriteFile(p, []byte(text), 0o644))
		replace[filepath.Join(repo, rel)] = p
	}
	put("zzsched/zzsched.go", hook)
	imp := fmt.Sprintf("; import zzsched %q", module+"/zzsched")
	globals := map[string][]string{} // directory -> variables
	pkgName := map[string]string{}
	points := 0
	die(filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if n := info.Name(); path != repo && (strings.HasPrefix(n, ".") || n == "testutils" || n == "vendor" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		rel, _ := filepath.Rel(repo, path)
		dir := filepath.Dir(rel)
		plain := len(buildConstraints(f)) == 0
		var at []int
		note := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				for _, s := range x.Body.List {
					note(s.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, s := range x.Body.List {
					note(s.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, s := range x.Body.List {
					note(s.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				note(x.List)
			}
			return true
		})
		if plain {
			pkgName[dir] = f.Name.Name
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							globals[dir] = append(globals[dir], "&"+n.Name)
						}
					}
				}
			}
		}
		if len(at) == 0 {
			return nil
		}
		sort.Ints(at)
		var b strings.Builder
		last := 0
		name := fset.Position(f.Name.End()).Offset
		b.Write(src[:name])
		b.WriteString(imp)
		last = name
		for _, o := range at {
			b.Write(src[last:o])
			points++
			fmt.Fprintf(&b, "zzsched.Point(%d); ", points)
			last = o
		}
		b.Write(src[last:])
		put(rel, b.String())
		return nil
	}))
	for dir, vars := range globals {
		text := fmt.Sprintf("package %s%s\n\nfunc init() {\n", pkgName[dir], imp)
		for _, v := range vars {
			text += "\tzzsched.Register(" + v + ")\n"
		}
		put(filepath.Join(dir, "zz_globals_verif.go"), text+"}\n")
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Println("instrumented", points, "statements")
}

func buildConstraints(f *ast.File) []string {
	var out []string
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
				out = append(out, c.Text)
			}
		}
	}
	return out
}
