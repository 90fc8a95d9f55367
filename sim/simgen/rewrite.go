package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type rewriter struct {
	fset      *token.FileSet
	pkg       *pkgJSON
	zpath     string
	overrides map[string]bool
	base      int
	isMain    bool
	imp       *chainImporter

	info  *types.Info
	tpkg  *types.Package
	sites []string
	inits []string // renamed init functions, in order
	used  bool     // current file uses rt
	nfun  int
	ntmp  int

	// positions of the calls and receptions in the current statement. The compiler loads variables after
	// the calls of the statement, so reads in front of one of them must not become preemption points: that would load them early.
	calls  []token.Pos
	inList bool // the current statement stands in a list of statements

	escapes map[types.Object]bool // local variables that other tasks may see: captured by a function literal, or their address is taken
}

func (r *rewriter) run(dst string) {
	var files []*ast.File
	for _, name := range r.pkg.GoFiles {
		f, err := parser.ParseFile(r.fset, filepath.Join(r.pkg.Dir, name), nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	r.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{},
		Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: r.imp, Error: func(err error) {}}
	tp, err := conf.Check(r.pkg.ImportPath, r.fset, files, r.info)
	if err != nil {
		die("type checking %s: %v", r.pkg.ImportPath, err)
	}
	r.tpkg = tp
	r.imp.src[r.pkg.ImportPath] = tp

	r.escapes = map[types.Object]bool{}
	for _, f := range files {
		r.findEscapes(f)
	}
	for i, f := range files {
		r.file(f)
		var buf bytes.Buffer
		for _, c := range buildTags(filepath.Join(r.pkg.Dir, r.pkg.GoFiles[i])) {
			buf.WriteString(c + "\n\n")
		}
		f.Comments = nil
		f.Doc = nil
		cfg := printer.Config{Mode: printer.TabIndent | printer.UseSpaces, Tabwidth: 8}
		if err := cfg.Fprint(&buf, token.NewFileSet(), f); err != nil {
			die("printing %s: %v", r.pkg.GoFiles[i], err)
		}
		write(filepath.Join(dst, r.pkg.GoFiles[i]), buf.Bytes())
	}
	r.genReset(dst, files)
}

// findEscapes fills r.escapes.
func (r *rewriter) findEscapes(f *ast.File) {
	local := func(id *ast.Ident) types.Object {
		if v, ok := r.obj(id).(*types.Var); ok && !v.IsField() && v.Parent() != r.tpkg.Scope() && v.Pkg() == r.tpkg {
			return v
		}
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			ast.Inspect(n.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if v := local(id); v != nil && (v.Pos() < n.Pos() || v.Pos() > n.End()) {
						r.escapes[v] = true
					}
				}
				return true
			})
		case *ast.UnaryExpr:
			if n.Op != token.AND {
				break
			}
			e := n.X
			for {
				switch x := e.(type) {
				case *ast.ParenExpr:
					e = x.X
					continue
				case *ast.SelectorExpr:
					e = x.X
					continue
				case *ast.IndexExpr:
					e = x.X
					continue
				case *ast.Ident:
					if v := local(x); v != nil {
						r.escapes[v] = true
					}
				}
				break
			}
		}
		return true
	})
}

func buildTags(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "//go:build ") {
			out = append(out, t)
		}
		if strings.HasPrefix(t, "package ") {
			break
		}
	}
	return out
}

func (r *rewriter) site(p token.Pos) ast.Expr {
	pos := r.fset.Position(p)
	rel, err := filepath.Rel(r.pkg.Dir, pos.Filename)
	if err != nil {
		rel = filepath.Base(pos.Filename)
	}
	short := r.pkg.ImportPath[strings.LastIndex(r.pkg.ImportPath, "/")+1:]
	name := fmt.Sprintf("%s/%s:%d", short, rel, pos.Line)
	if n := len(r.sites); n == 0 || r.sites[n-1] != name {
		r.sites = append(r.sites, name)
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(r.base + len(r.sites) - 1)}
}

func ident(s string) *ast.Ident { return &ast.Ident{Name: s} }

func (r *rewriter) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ident("zsimrt"), Sel: ident(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: x, Sel: ident(name)}, args...)
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.ntmp++
	return ident(fmt.Sprintf("zsim%s%d", p, r.ntmp))
}

func (r *rewriter) file(f *ast.File) {
	r.used = false
	if r.isMain {
		f.Name = ident("comfomain")
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Recv == nil && d.Name.Name == "init" {
				d.Name = ident(fmt.Sprintf("zsimInit%d", len(r.inits)))
				r.inits = append(r.inits, d.Name.Name)
			}
			if r.isMain && d.Recv == nil && d.Name.Name == "main" {
				d.Name = ident("ZsimMain")
			}
			if d.Body != nil {
				r.nfun++
				r.block(d.Body)
				r.enter(d.Body)
				r.nfun--
			}
		case *ast.GenDecl:
			d.Doc = nil
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ImportSpec:
					s.Doc, s.Comment = nil, nil
					path, _ := strconv.Unquote(s.Path.Value)
					if r.overrides[path] {
						s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.zpath + "/std/" + path)}
					}
				case *ast.ValueSpec:
					s.Doc, s.Comment = nil, nil
					r.valueSpec(s)
				case *ast.TypeSpec:
					s.Doc, s.Comment = nil, nil
				}
			}
		}
	}
	// drop field comments and the like
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	if r.used {
		spec := &ast.ImportSpec{Name: ident("zsimrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.zpath + "/rt")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

// enter puts a preemption point at the start of a function or loop body.
func (r *rewriter) enter(b *ast.BlockStmt) {
	b.List = append([]ast.Stmt{r.yield(b.Lbrace)}, b.List...)
}

func (r *rewriter) yield(p token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: call(r.rt("Yield"), r.site(p))}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		switch s.(type) {
		case *ast.EmptyStmt:
		case *ast.DeclStmt, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		default:
			y := r.yield(s.Pos())
			if r.stores(s) {
				y = &ast.ExprStmt{X: call(r.rt("YieldW"), r.site(s.Pos()))}
			}
			out = append(out, y)
		}
		_, r.inList = s.(*ast.AssignStmt)
		out = append(out, r.stmt(s))
		r.inList = false
	}
	return out
}

// stores reports whether a statement writes to memory that other tasks may see.
func (r *rewriter) stores(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			return false
		}
		for _, l := range s.Lhs {
			if r.shared(l) {
				return true
			}
		}
	case *ast.IncDecStmt:
		return r.shared(s.X)
	}
	return false
}

// callsIn lists the calls and receptions a statement itself makes, without those of nested statements and functions.
func (r *rewriter) callsIn(n ast.Node) []token.Pos {
	var out []token.Pos
	if n == nil || reflect.ValueOf(n).IsNil() {
		return nil
	}
	if f, ok := n.(*ast.ForStmt); ok {
		if f.Cond == nil {
			return nil
		}
		n = f.Cond
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return m == n
		case *ast.CallExpr:
			if tv := r.info.Types[m.Fun]; tv.IsType() {
				break
			}
			if _, ok := r.builtinName(m); !ok && !r.harmless(m) {
				out = append(out, m.Pos())
			}
		case *ast.UnaryExpr:
			if m.Op == token.ARROW {
				out = append(out, m.Pos())
			}
		}
		return true
	})
	return out
}

// harmless reports whether a call is known to neither block nor change anything.
func (r *rewriter) harmless(c *ast.CallExpr) bool {
	sel, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	f, ok := r.info.Uses[sel.Sel].(*types.Func)
	if !ok || f.Pkg() == nil || f.Signature().Recv() != nil {
		return false
	}
	switch f.Pkg().Path() {
	case "strings", "bytes", "strconv", "math", "math/bits", "unicode", "unicode/utf8", "errors":
	default:
		return false
	}
	for _, a := range c.Args {
		if t := r.typeOf(a); t != nil {
			if _, ok := t.Underlying().(*types.Signature); ok {
				return false
			}
		}
	}
	return true
}

func (r *rewriter) callAfter(p token.Pos) bool {
	for _, c := range r.calls {
		if c >= p {
			return true
		}
	}
	return false
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	if s == nil || reflect.ValueOf(s).IsNil() {
		return s
	}
	if _, ok := s.(*ast.LabeledStmt); !ok {
		save := r.calls
		defer func() { r.calls = save }()
		r.calls = r.callsIn(s)
	}
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X, false)
	case *ast.SendStmt:
		ch, v := r.expr(s.Chan, true), r.expr(s.Value, true)
		return &ast.ExprStmt{X: method(call(r.rt("Snd"), ch), "Send", v)}
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if r.shared(s.X) && simple(s.X) {
			return r.rmw(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}, s.Pos())
		}
		s.X = r.lhs(s.X)
	case *ast.AssignStmt:
		return r.assign(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call, false).(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i, e := range s.Results {
			s.Results[i] = r.expr(e, len(s.Results) > 0 && !r.isTuple(e))
		}
	case *ast.BranchStmt, *ast.EmptyStmt:
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond, true)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.CaseClause:
		for i, e := range s.List {
			r.calls = r.callsIn(e)
			s.List[i] = r.expr(e, true)
		}
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag, true)
		}
		for i := range s.Body.List {
			s.Body.List[i] = r.stmt(s.Body.List[i])
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X, true)
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X, true)
		}
		for i := range s.Body.List {
			cc := s.Body.List[i].(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s, "")
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond, true)
		}
		s.Post = r.stmt(s.Post)
		p := s.Body
		r.block(p)
		r.enter(p)
	case *ast.RangeStmt:
		t := r.typeOf(s.X)
		if s.Key != nil {
			s.Key = r.lhs(s.Key)
		}
		if s.Value != nil {
			s.Value = r.lhs(s.Value)
		}
		s.X = r.expr(s.X, false)
		if t != nil {
			switch coreType(t).(type) {
			case *types.Chan:
				s.X = call(r.rt("ChanRange"), s.X)
			case *types.Map:
				s.X = call(r.rt("MapRange"), s.X)
			}
		}
		r.block(s.Body)
		r.enter(s.Body)
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, s.Label.Name)
		}
		s.Stmt = r.stmt(s.Stmt)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok && g.Tok == token.VAR {
					r.valueSpec(v)
				}
			}
		}
	default:
		die("%s: statement %T not supported", r.fset.Position(s.Pos()), s)
	}
	return s
}

func coreType(t types.Type) types.Type {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		iface := tp.Constraint().Underlying().(*types.Interface)
		if iface.NumEmbeddeds() == 1 {
			if u, ok := iface.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
			return iface.EmbeddedType(0).Underlying()
		}
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) valueSpec(s *ast.ValueSpec) {
	if len(s.Values) == 1 && len(s.Names) == 2 {
		s.Values[0] = r.expr2(s.Values[0])
		return
	}
	for i, v := range s.Values {
		s.Values[i] = r.expr(v, r.nfun > 0 && len(s.Values) == len(s.Names))
	}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type { return r.info.TypeOf(e) }

func (r *rewriter) isTuple(e ast.Expr) bool {
	_, ok := r.typeOf(e).(*types.Tuple)
	return ok
}

// rmw makes the read and the write of x op= v two steps.
func (r *rewriter) rmw(x ast.Expr, op token.Token, v ast.Expr, pos token.Pos) ast.Stmt {
	rd := call(r.rt("Y"), cloneExpr(x), r.site(pos))
	return &ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: rd, Op: op, Y: v}}}
}

func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.StarExpr:
		return simple(e.X)
	case *ast.ParenExpr:
		return simple(e.X)
	}
	return false
}

func cloneExpr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		c := *e
		return &c
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: cloneExpr(e.X), Sel: ident(e.Sel.Name)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: cloneExpr(e.X)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: cloneExpr(e.X)}
	}
	panic("cloneExpr")
}

// shared reports whether an expression denotes memory that other tasks may see.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		v, ok := r.obj(e).(*types.Var)
		return ok && (v.Parent() == r.tpkg.Scope() || r.escapes[v])
	case *ast.SelectorExpr:
		if sel := r.info.Selections[e]; sel != nil {
			if sel.Kind() != types.FieldVal {
				return false
			}
			if r.localValue(e.X) {
				return false
			}
			return true
		}
		v, ok := r.obj(e.Sel).(*types.Var)
		return ok && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), strings.SplitN(r.zpath, "/zsim", 2)[0])
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := r.typeOf(e.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return !r.localValue(e.X)
		case *types.Pointer:
			return true
		case *types.Map:
			_ = u
			return true
		}
	}
	return false
}

// localValue: a plain local variable holding a struct or array by value (field accesses stay in this function).
func (r *rewriter) localValue(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.localValue(e.X)
	case *ast.Ident:
		v, ok := r.obj(e).(*types.Var)
		if !ok || v.Parent() == r.tpkg.Scope() || r.escapes[v] {
			return false
		}
		_, ptr := v.Type().Underlying().(*types.Pointer)
		return !ptr
	case *ast.SelectorExpr:
		if sel := r.info.Selections[e]; sel != nil && sel.Kind() == types.FieldVal {
			if _, ptr := sel.Type().Underlying().(*types.Pointer); ptr {
				return false
			}
			return r.localValue(e.X)
		}
	}
	return false
}

func (r *rewriter) obj(id *ast.Ident) types.Object {
	if o := r.info.Uses[id]; o != nil {
		return o
	}
	return r.info.Defs[id]
}

func (r *rewriter) assign(s *ast.AssignStmt) ast.Stmt {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		// x op= v
		if len(s.Lhs) == 1 && r.shared(s.Lhs[0]) && simple(s.Lhs[0]) {
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
				token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
				token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
			v := r.expr(s.Rhs[0], true)
			if len(r.calls) == 0 {
				return r.rmw(s.Lhs[0], op, &ast.ParenExpr{X: v}, s.Pos())
			}
			if r.inList {
				t := r.tmp("v")
				return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}, r.rmw(s.Lhs[0], op, t, s.Pos())}}
			}
			s.Rhs[0] = v
			return s
		}
		s.Lhs[0] = r.lhs(s.Lhs[0])
		s.Rhs[0] = r.expr(s.Rhs[0], true)
		return s
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		s.Rhs[0] = r.expr2(s.Rhs[0])
		for i := range s.Lhs {
			s.Lhs[i] = r.lhs(s.Lhs[i])
		}
		return s
	}
	if s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.shared(s.Lhs[0]) && r.tearable(s.Lhs[0]) {
		l := r.lhs(s.Lhs[0])
		v := r.expr(s.Rhs[0], true)
		return &ast.ExprStmt{X: call(r.rt("Tear"), &ast.UnaryExpr{Op: token.AND, X: l}, v, r.site(s.Pos()))}
	}
	if s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.inList && len(r.calls) > 0 {
		if ix, ok := s.Lhs[0].(*ast.IndexExpr); ok && r.isMap(ix.X) && simple(ix.X) && len(r.callsIn(ix.Index)) == 0 && r.typeOf(s.Rhs[0]) != nil && !r.info.Types[s.Rhs[0]].IsNil() {
			// m[k] = f(): the map is written after the call
			t := r.tmp("v")
			if mt := r.typeOf(ix.X).Underlying().(*types.Map); types.Identical(mt.Elem(), r.typeOf(s.Rhs[0])) {
				def := &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.Rhs[0], true)}}
				r.calls = nil
				s.Lhs[0], s.Rhs[0] = r.lhs(s.Lhs[0]), t
				return &ast.BlockStmt{List: []ast.Stmt{def, s}}
			}
		}
	}
	for i, e := range s.Rhs {
		s.Rhs[i] = r.expr(e, len(s.Rhs) == len(s.Lhs))
	}
	for i := range s.Lhs {
		s.Lhs[i] = r.lhs(s.Lhs[i])
	}
	return s
}

func (r *rewriter) tearable(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() < 2 {
		return false
	}
	if ix, ok := e.(*ast.IndexExpr); ok {
		if _, ok := r.typeOf(ix.X).Underlying().(*types.Map); ok {
			return false
		}
	}
	return true
}

// lhs rewrites the inside of an assignment target without making it a value.
func (r *rewriter) lhs(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		return e
	case *ast.ParenExpr:
		e.X = r.lhs(e.X)
	case *ast.SelectorExpr:
		if _, ok := e.X.(*ast.Ident); !ok {
			e.X = r.lhs(e.X)
		}
	case *ast.StarExpr:
		e.X = r.expr(e.X, false)
	case *ast.IndexExpr:
		m := r.isMap(e.X)
		e.X = r.lhs(e.X)
		e.Index = r.expr(e.Index, true)
		if m && len(r.calls) == 0 {
			e.X = r.mapW(e.X, e.Pos())
		}
	default:
		return r.expr(e, false)
	}
	return e
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil || r.nfun == 0 {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// mapW makes a write to a map a period in which no other task may access it, as the real runtime has it.
func (r *rewriter) mapW(m ast.Expr, p token.Pos) ast.Expr { return call(r.rt("MapW"), m, r.site(p)) }

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	fun := ast.Unparen(c.Fun)
	bind := func(e ast.Expr) ast.Expr {
		id := r.tmp("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id
	}
	_, isLit := fun.(*ast.FuncLit)
	bindable := func(e ast.Expr) bool {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() || r.isTuple(e) {
			return false
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return false
		}
		return true
	}
	// method receivers are evaluated at the go statement
	if sel, ok := fun.(*ast.SelectorExpr); ok && !isLit {
		if x := r.info.Selections[sel]; x != nil && x.Kind() == types.MethodVal {
			c.Fun = bind(r.expr(sel, false))
		} else if x != nil {
			c.Fun = bind(r.expr(sel, false))
		}
	} else if id, ok := fun.(*ast.Ident); ok {
		if v, isVar := r.obj(id).(*types.Var); isVar && v != nil {
			c.Fun = bind(id)
		}
	} else if isLit {
		c.Fun = r.expr(c.Fun, false)
	}
	_, builtin := r.builtinName(c)
	for i, a := range c.Args {
		b := bindable(a)
		sig, _ := r.typeOf(fun).(*types.Signature)
		var pt types.Type
		if sig != nil && i < sig.Params().Len() && !(sig.Variadic() && i >= sig.Params().Len()-1) {
			pt = sig.Params().At(i).Type()
		}
		_ = pt
		na := r.expr(a, b)
		if b && !builtin {
			na = bind(na)
		} else if b {
			na = bind(na)
		}
		c.Args[i] = na
	}
	var inner ast.Stmt = &ast.ExprStmt{X: r.builtinCall(c)}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{inner}}}
	g := &ast.ExprStmt{X: call(r.rt("Go"), lit)}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

func (r *rewriter) builtinName(c *ast.CallExpr) (string, bool) {
	id, ok := ast.Unparen(c.Fun).(*ast.Ident)
	if !ok {
		return "", false
	}
	b, ok := r.obj(id).(*types.Builtin)
	if !ok {
		return "", false
	}
	return b.Name(), true
}

// builtinCall rewrites close and len of channels (arguments already rewritten).
func (r *rewriter) builtinCall(c *ast.CallExpr) ast.Expr {
	name, ok := r.builtinName(c)
	if !ok {
		return c
	}
	switch name {
	case "close":
		return call(r.rt("Close"), c.Args[0])
	}
	return c
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label string) ast.Stmt {
	if len(s.Body.List) == 0 {
		// keep it terminating
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(r.rt("Forever"))},
			&ast.ExprStmt{X: call(ident("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}}
	}
	var pre []ast.Stmt
	var clauses []ast.Stmt
	def := "false"
	var handles []ast.Expr
	hasDefault := false
	define := func(id *ast.Ident, e ast.Expr) {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
	}
	n := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			def = "true"
			clauses = append(clauses, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		h, c := r.tmp("h"), r.tmp("c")
		var body []ast.Stmt
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			define(h, call(r.rt("Snd"), r.expr(x.Chan, false)))
			define(c, method(ident(h.Name), "Case", r.expr(x.Value, true)))
		case *ast.ExprStmt:
			u := ast.Unparen(x.X).(*ast.UnaryExpr)
			define(h, call(r.rt("Rcv"), r.expr(u.X, false)))
			define(c, method(ident(h.Name), "Case"))
		case *ast.AssignStmt:
			u := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr)
			define(h, call(r.rt("Rcv"), r.expr(u.X, false)))
			define(c, method(ident(h.Name), "Case"))
			m := "Val"
			if len(x.Lhs) == 2 {
				m = "Val2"
			}
			var lhs []ast.Expr
			for _, l := range x.Lhs {
				lhs = append(lhs, r.lhs(l))
			}
			body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: x.Tok, Rhs: []ast.Expr{method(ident(h.Name), m, ident(c.Name))}})
		}
		handles = append(handles, ident(c.Name))
		body = append(body, r.stmts(cc.Body)...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: body})
		n++
	}
	if !hasDefault {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ident("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	var sw ast.Stmt = &ast.SwitchStmt{Tag: call(r.rt("Select"), append([]ast.Expr{ident(def)}, handles...)...), Body: &ast.BlockStmt{List: clauses}}
	if label != "" {
		sw = &ast.LabeledStmt{Label: ident(label), Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}

// expr2 rewrites an expression in a two-value context.
func (r *rewriter) expr2(e ast.Expr) ast.Expr {
	switch x := ast.Unparen(e).(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return method(call(r.rt("Rcv"), r.expr(x.X, false)), "Recv2")
		}
	case *ast.IndexExpr:
		m := r.isMap(x.X)
		x.X = r.expr(x.X, false)
		x.Index = r.expr(x.Index, true)
		if m {
			x.X = call(r.rt("MapR"), x.X)
		}
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X, true)
		return x
	}
	return r.expr(e, false)
}

// expr rewrites an expression; with value set, a read of shared memory becomes a preemption point.
func (r *rewriter) expr(e ast.Expr, value bool) ast.Expr {
	if e == nil || reflect.ValueOf(e).IsNil() {
		return nil
	}
	tv, known := r.info.Types[e]
	if known && (tv.IsType() || tv.Value != nil) {
		return e
	}
	wrap := value && r.nfun > 0 && known && !tv.IsNil() && !tv.IsBuiltin() && tv.IsValue() && r.shared(e) && !r.isTuple(e) && !r.callAfter(e.End())
	pos := e.Pos()
	out := r.expr1(e)
	if wrap {
		return call(r.rt("Y"), out, r.site(pos))
	}
	return out
}

func (r *rewriter) expr1(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.FuncLit:
		r.nfun++
		r.block(e.Body)
		r.enter(e.Body)
		r.nfun--
		return e
	case *ast.CompositeLit:
		t := r.typeOf(e)
		isStruct := false
		if t != nil {
			_, isStruct = derefT(t).Underlying().(*types.Struct)
		}
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key, false)
				}
				kv.Value = r.expr(kv.Value, true)
			} else {
				e.Elts[i] = r.expr(x, true)
			}
		}
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X, true)
		return e
	case *ast.SelectorExpr:
		if r.info.Selections[e] == nil {
			return e // qualified identifier
		}
		e.X = r.expr(e.X, false)
		return e
	case *ast.IndexExpr:
		if tv := r.info.Types[e.Index]; tv.IsType() {
			return e // instantiation
		}
		m := r.isMap(e.X)
		e.X = r.expr(e.X, false)
		e.Index = r.expr(e.Index, true)
		if m {
			e.X = call(r.rt("MapR"), e.X)
		}
		return e
	case *ast.IndexListExpr:
		return e
	case *ast.SliceExpr:
		e.X = r.expr(e.X, false)
		e.Low, e.High, e.Max = r.expr(e.Low, true), r.expr(e.High, true), r.expr(e.Max, true)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X, true)
		return e
	case *ast.CallExpr:
		if tv := r.info.Types[e.Fun]; tv.IsType() {
			e.Args[0] = r.expr(e.Args[0], true)
			return e
		}
		if name, ok := r.builtinName(e); ok {
			m := (name == "delete" || name == "clear") && r.isMap(e.Args[0]) && len(r.calls) == 0
			for i, a := range e.Args {
				e.Args[i] = r.expr(a, name != "len" && name != "cap" && name != "delete" && name != "clear" && name != "copy")
			}
			if m {
				e.Args[0] = r.mapW(e.Args[0], e.Pos())
			}
			switch name {
			case "close":
				return call(r.rt("Close"), e.Args[0])
			case "len":
				if t := r.typeOf(e.Args[0]); t != nil {
					if ch, ok := t.Underlying().(*types.Chan); ok {
						if ch.Dir() == types.SendOnly {
							return call(r.rt("LenS"), e.Args[0])
						}
						return call(r.rt("Len"), e.Args[0])
					}
				}
			}
			return e
		}
		e.Fun = r.expr(e.Fun, false)
		multi := len(e.Args) == 1 && r.isTuple(e.Args[0])
		for i, a := range e.Args {
			e.Args[i] = r.expr(a, !multi)
		}
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X, false)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return method(call(r.rt("Rcv"), r.expr(e.X, false)), "Recv")
		}
		if e.Op == token.AND {
			e.X = r.lhs(e.X)
			return e
		}
		e.X = r.expr(e.X, true)
		return e
	case *ast.BinaryExpr:
		if e.Op == token.LAND || e.Op == token.LOR {
			// the right side is evaluated after the left one
			save := r.calls
			r.calls = r.callsIn(e.X)
			e.X = r.expr(e.X, true)
			r.calls = save
		} else {
			e.X = r.expr(e.X, true)
		}
		e.Y = r.expr(e.Y, true)
		return e
	case *ast.KeyValueExpr:
		e.Value = r.expr(e.Value, true)
		return e
	case *ast.ArrayType, *ast.StructType, *ast.FuncType, *ast.InterfaceType, *ast.MapType, *ast.ChanType, *ast.Ellipsis:
		return e
	}
	die("%s: expression %T not supported", r.fset.Position(e.Pos()), e)
	return nil
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// genReset writes ZsimZero and ZsimInit, which put the package's variables back to their initial state.
func (r *rewriter) genReset(dst string, files []*ast.File) {
	var zero, init bytes.Buffer
	imports := map[string]string{}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						fmt.Fprintf(&zero, "\tzsimrt.Zero(&%s)\n", n.Name)
					}
				}
			}
		}
		for _, s := range f.Decls {
			g, ok := s.(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				continue
			}
			for _, s := range g.Specs {
				is := s.(*ast.ImportSpec)
				name := ""
				if is.Name != nil {
					name = is.Name.Name
				}
				if name == "zsimrt" || name == "_" || name == "." {
					continue
				}
				imports[is.Path.Value+" "+name] = name
			}
		}
	}
	// initialisers in the order the compiler would run them; each lives in the file that has its imports
	order := map[ast.Expr]*types.Initializer{}
	_ = order
	type ini struct {
		file int
		name string
	}
	var calls []string
	perFile := map[int]*bytes.Buffer{}
	for k, in := range r.info.InitOrder {
		fi := -1
		for i, f := range files {
			if f.FileStart <= in.Rhs.Pos() && in.Rhs.Pos() < f.FileEnd {
				fi = i
			}
		}
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		rhs := r.findInit(files, in)
		if rhs == nil {
			continue
		}
		var b bytes.Buffer
		(&printer.Config{Mode: printer.TabIndent | printer.UseSpaces, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), rhs)
		fn := fmt.Sprintf("zsimVar%d", k)
		if perFile[fi] == nil {
			perFile[fi] = &bytes.Buffer{}
		}
		fmt.Fprintf(perFile[fi], "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), b.String())
		calls = append(calls, fn)
	}
	for fi, b := range perFile {
		p := filepath.Join(dst, r.pkg.GoFiles[fi])
		old, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		write(p, append(old, b.Bytes()...))
	}
	for _, c := range calls {
		fmt.Fprintf(&init, "\t%s()\n", c)
	}
	for _, c := range r.inits {
		fmt.Fprintf(&init, "\t%s()\n", c)
	}
	name := r.pkg.Name
	if r.isMain {
		name = "comfomain"
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport zsimrt %q\n\n", name, r.zpath+"/rt")
	fmt.Fprintf(&b, "func ZsimZero() {\n%s}\n\nfunc ZsimInit() {\n%s}\n\nfunc init() {\n\tzsimrt.RegisterSites(%d, []string{\n", zero.String(), init.String(), r.base)
	for _, s := range r.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t})\n}\n")
	write(filepath.Join(dst, "zz_sim.go"), b.Bytes())
}

// findInit finds the (already rewritten) initialiser expression of a package variable.
func (r *rewriter) findInit(files []*ast.File, in *types.Initializer) ast.Expr {
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if r.info.Defs[n] == in.Lhs[0] {
						if len(vs.Values) == 1 {
							return vs.Values[0]
						}
						if i < len(vs.Values) {
							return vs.Values[i]
						}
						return nil
					}
				}
			}
		}
	}
	return nil
}
