package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// copyGenerated copies a package of generated code. Its code runs as it is, except that tasks can be preempted between
// the statements of the functions that serve HTTP requests. It returns the number of sites it used.
func copyGenerated(p *pkgJSON, dst, zpath string, base int) int {
	var sites []string
	served := regexp.MustCompile(`\bResponseWriter\b`)
	pkg := ""
	for _, name := range p.GoFiles {
		src, err := os.ReadFile(filepath.Join(p.Dir, name))
		if err != nil {
			die("%v", err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		pkg = f.Name.Name
		at := map[int]string{}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt, *ast.LabeledStmt:
					continue
				}
				pos := fset.Position(s.Pos())
				at[pos.Offset] = fmt.Sprintf("zsimrt.YieldGen(%d); ", base+len(sites))
				sites = append(sites, fmt.Sprintf("%s/%s:%d", filepath.Base(p.Dir), name, pos.Line))
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			from, to := fset.Position(fd.Type.Pos()).Offset, fset.Position(fd.Type.End()).Offset
			if !served.Match(src[from:to]) {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
				case *ast.CommClause:
					stmts(n.Body)
				}
				return true
			})
		}
		if len(at) > 0 {
			at[fset.Position(f.Name.End()).Offset] = fmt.Sprintf("; import zsimrt %q", zpath+"/rt")
		}
		var offs []int
		for o := range at {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		var b strings.Builder
		last := 0
		for _, o := range offs {
			b.Write(src[last:o])
			b.WriteString(at[o])
			last = o
		}
		b.Write(src[last:])
		write(filepath.Join(dst, name), []byte(b.String()))
	}
	if len(sites) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport zsimrt %q\n\nfunc init() {\n\tzsimrt.RegisterSites(%d, []string{\n", pkg, zpath+"/rt", base)
		for _, s := range sites {
			fmt.Fprintf(&b, "\t\t%q,\n", s)
		}
		b.WriteString("\t})\n}\n")
		write(filepath.Join(dst, "zz_sim.go"), []byte(b.String()))
	}
	return len(sites)
}
