// simgen turns the working tree of comfo into a simulated build: a scratch module in which every source of
// nondeterminism (goroutines, channels, locks, clocks, I/O, process exit) goes through the runtime in zsim/rt.
//
//	simgen -repo /repo -tree /verif/sim/tree -out DIR
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type pkgJSON struct {
	Dir, ImportPath, Name, Export string
	Standard, DepOnly             bool
	GoFiles, CgoFiles, EmbedFiles []string
	Imports                       []string
	Module                        *struct{ Path string }
	Error                         *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	tree := flag.String("tree", "/verif/sim/tree", "simulation sources")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		die("-out is required")
	}
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	modpath := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindStringSubmatch(string(gomod))[1]
	zpath := modpath + "/zsim"

	// simulation sources; which std packages have an override
	copyTree(*tree, filepath.Join(*out, "zsim"))
	overrides := findOverrides(filepath.Join(*tree, "std"))

	// go.mod with a language version new enough for range-over-func
	gm := regexp.MustCompile(`(?m)^go\s+\S+.*$`).ReplaceAllString(string(gomod), "go 1.24")
	gm = regexp.MustCompile(`(?m)^toolchain\s.*$`).ReplaceAllString(gm, "")
	write(filepath.Join(*out, "go.mod"), []byte(gm))
	if b, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		write(filepath.Join(*out, "go.sum"), b)
	}

	pkgs := goList(*repo, append([]string{"./..."}, overrideList(overrides)...))
	byPath := map[string]*pkgJSON{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
	}

	genAliases(filepath.Join(*out, "zsim", "std"), filepath.Join(*tree, "std"), overrides, byPath)

	fset := token.NewFileSet()
	imp := &chainImporter{src: map[string]*types.Package{}, gc: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})}

	var resets []string
	mainPath := ""
	base := 1
	for _, p := range pkgs { // dependency order
		if p.Module == nil || p.Module.Path != modpath || p.Standard {
			continue
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		if len(p.CgoFiles) > 0 {
			die("%s uses cgo", p.ImportPath)
		}
		rel, _ := filepath.Rel(*repo, p.Dir)
		dst := filepath.Join(*out, rel)
		for _, e := range p.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, e))
			if err != nil {
				die("%v", err)
			}
			write(filepath.Join(dst, e), b)
		}
		if generated(p) {
			base += copyGenerated(p, dst, zpath, base) + 1
			continue
		}
		isMain := p.Name == "main"
		if isMain && mainPath != "" && p.ImportPath != modpath {
			continue // a second command; only the server is simulated
		}
		r := &rewriter{fset: fset, pkg: p, zpath: zpath, overrides: overrides, base: base, isMain: isMain, imp: imp}
		r.run(dst)
		base += len(r.sites) + 1
		if isMain {
			mainPath = p.ImportPath
		}
		resets = append(resets, p.ImportPath)
	}
	if mainPath == "" {
		die("no command found")
	}

	// the harness side: resets in dependency order and the entry point
	var b strings.Builder
	b.WriteString("package harness\n\nimport (\n")
	for i, p := range resets {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	b.WriteString(")\n\nfunc resetProgram() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tp%d.ZsimZero()\n", i)
	}
	for i := range resets {
		fmt.Fprintf(&b, "\tp%d.ZsimInit()\n", i)
	}
	b.WriteString("}\n\n")
	for i, p := range resets {
		if p == mainPath {
			fmt.Fprintf(&b, "func programMain() { p%d.ZsimMain() }\n", i)
		}
	}
	b.WriteString("\nfunc resetLibrary() {\n")
	for i, p := range resets {
		if p != mainPath {
			fmt.Fprintf(&b, "\tp%d.ZsimZero()\n", i)
		}
	}
	for i, p := range resets {
		if p != mainPath {
			fmt.Fprintf(&b, "\tp%d.ZsimInit()\n", i)
		}
	}
	b.WriteString("}\n")
	write(filepath.Join(*out, "zsim", "harness", "zz_gen.go"), []byte(b.String()))
}

func generated(p *pkgJSON) bool {
	if len(p.GoFiles) == 0 {
		return true
	}
	n := 0
	for _, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			die("%v", err)
		}
		if regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.$`).Match(b) {
			n++
		}
	}
	return n > 0 && n*2 >= len(p.GoFiles)
}

func goList(dir string, args []string) []*pkgJSON {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps",
		"-json=Dir,ImportPath,Name,Export,Standard,DepOnly,GoFiles,CgoFiles,EmbedFiles,Imports,Module,Error"}, args...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(o)))
	var out []*pkgJSON
	for {
		p := &pkgJSON{}
		if err := dec.Decode(p); err == io.EOF {
			return out
		} else if err != nil {
			die("go list output: %v", err)
		}
		out = append(out, p)
	}
}

func findOverrides(dir string) map[string]bool {
	out := map[string]bool{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(dir, filepath.Dir(p))
			out[filepath.ToSlash(rel)] = true
		}
		return nil
	})
	return out
}

func overrideList(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func copyTree(from, to string) {
	filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			die("%v", err)
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		write(filepath.Join(to, rel), b)
		return nil
	})
}

func write(p string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
		return
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
}

// genAliases completes each override package with aliases for everything it does not define itself.
func genAliases(dst, src string, overrides map[string]bool, byPath map[string]*pkgJSON) {
	fset := token.NewFileSet()
	for path := range overrides {
		p := byPath[path]
		if p == nil {
			die("override for unknown package %s", path)
		}
		own := map[string]bool{}
		dir := filepath.Join(src, filepath.FromSlash(path))
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			q := byPath[path]
			if q == nil {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(q.Export)
		})
		tp, err := gc.Import(path)
		if err != nil {
			die("import %s: %v", path, err)
		}
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport real %q\n\n", tp.Name(), path)
		n := 0
		for _, name := range tp.Scope().Names() {
			o := tp.Scope().Lookup(name)
			if !o.Exported() || own[name] {
				continue
			}
			switch o := o.(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
			}
			n++
		}
		if n == 0 {
			continue
		}
		write(filepath.Join(dst, filepath.FromSlash(path), "zz_alias.go"), []byte(b.String()))
	}
}

type chainImporter struct {
	src map[string]*types.Package
	gc  types.Importer
}

func (c *chainImporter) Import(path string) (*types.Package, error) {
	if p := c.src[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return c.gc.Import(path)
}
