package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/token"
	"go/types"
	"log"
	"path/filepath"
	"strconv"
	"strings"
)

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	repo    string
	inits   []string // renamed init functions, in order
	varFn   map[*types.Var]string
	zeroFn  []string
	n       int
	fn      string
	initOf  map[ast.Expr]string // initialiser rhs -> function
	allInit []string
}

func (w *rewriter) pos(p token.Pos) string {
	x := w.fset.Position(p)
	rel, err := filepath.Rel(w.repo, x.Filename)
	if err != nil {
		rel = x.Filename
	}
	return fmt.Sprintf("%s:%d", rel, x.Line)
}

// newSite names the place by file and function and line.
func (w *rewriter) newSite(p token.Pos) ast.Expr {
	sites = append(sites, w.pos(p)+" ("+w.fn+")")
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(sites) - 1)}
}

func (w *rewriter) tmp(s string) *ast.Ident {
	w.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", s, w.n))
}

func rtSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("zzrt"), Sel: ast.NewIdent(name)}
}
func call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: fn, Args: args} }
func rtCall(name string, args ...ast.Expr) *ast.CallExpr {
	return call(rtSel(name), args...)
}
func define(l []ast.Expr, r ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
}
func assign(l, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{r}}
}
func (w *rewriter) y(p token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: rtCall("Y", w.newSite(p))}
}

func (w *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := w.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (w *rewriter) isMap(e ast.Expr) bool {
	t := w.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func (w *rewriter) isChan(e ast.Expr) bool {
	t := w.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func (w *rewriter) isConst(e ast.Expr) bool {
	tv, ok := w.info.Types[e]
	return ok && (tv.Value != nil && tv.Value.Kind() != constant.Unknown || tv.IsNil())
}
func (w *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = w.info.Uses[id].(*types.Builtin)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// nonLocal reports whether an assignable expression may be visible to another
// goroutine.
func (w *rewriter) nonLocal(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return false
		}
		o := w.info.ObjectOf(x)
		v, ok := o.(*types.Var)
		return ok && v.Parent() == w.pkg.Scope()
	case *ast.SelectorExpr:
		return true
	case *ast.IndexExpr:
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

// ---------------------------------------------------------------- files

func (w *rewriter) file(f *ast.File, idx int) []byte {
	if w.initOf == nil {
		w.initOf = map[ast.Expr]string{}
	}
	var keep []string
	for _, cg := range f.Comments {
		if cg.Pos() >= f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") {
				keep = append(keep, c.Text)
			}
		}
	}
	stripComments(f)

	usesRT := true
	// imports
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			sh, ok := shims[p]
			if !ok {
				continue
			}
			if is.Name == nil {
				// keep the name the code uses
				is.Name = ast.NewIdent(pkgNameOf(w.pkg, p))
			}
			is.Path.Value = strconv.Quote(sh)
		}
	}
	var extra []ast.Decl
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			w.fn = x.Name.Name
			if x.Recv != nil && len(x.Recv.List) == 1 {
				w.fn = strings.TrimPrefix(types.ExprString(x.Recv.List[0].Type), "*") + "." + w.fn
			}
			if x.Body != nil {
				w.block(x.Body)
			}
			if x.Recv == nil && x.Name.Name == "init" {
				n := fmt.Sprintf("zsimInit%d_%d", idx, len(w.inits))
				x.Name = ast.NewIdent(n)
				w.inits = append(w.inits, n)
			}
		case *ast.GenDecl:
			if x.Tok != token.VAR {
				continue
			}
			w.fn = "init"
			for _, s := range x.Specs {
				vs := s.(*ast.ValueSpec)
				for i, v := range vs.Values {
					vs.Values[i] = w.expr(v)
				}
				lhs := []ast.Expr{}
				blank := true
				for _, n := range vs.Names {
					lhs = append(lhs, ast.NewIdent(n.Name))
					if n.Name != "_" {
						blank = false
					}
				}
				if len(vs.Values) == 0 {
					if blank {
						continue
					}
					fn := fmt.Sprintf("zsimZero%d_%d", idx, len(w.zeroFn))
					w.zeroFn = append(w.zeroFn, fn)
					var body []ast.Stmt
					for _, l := range lhs {
						if l.(*ast.Ident).Name == "_" {
							continue
						}
						body = append(body, assign(l, &ast.StarExpr{X: call(ast.NewIdent("new"), vs.Type)}))
					}
					extra = append(extra, funcDecl(fn, body))
					continue
				}
				if len(vs.Values) == len(vs.Names) {
					for i, v := range vs.Values {
						if vs.Names[i].Name == "_" {
							continue
						}
						fn := fmt.Sprintf("zsimVar%d_%d", idx, len(w.allInit))
						w.allInit = append(w.allInit, fn)
						if w.varFn == nil {
							w.varFn = map[*types.Var]string{}
						}
						if vo, ok := w.info.Defs[vs.Names[i]].(*types.Var); ok {
							w.varFn[vo] = fn
						}
						extra = append(extra, funcDecl(fn, []ast.Stmt{assign(lhs[i], v)}))
					}
				} else if !blank {
					fn := fmt.Sprintf("zsimVar%d_%d", idx, len(w.allInit))
					w.allInit = append(w.allInit, fn)
					for _, n := range vs.Names {
						if vo, ok := w.info.Defs[n].(*types.Var); ok {
							if w.varFn == nil {
								w.varFn = map[*types.Var]string{}
							}
							w.varFn[vo] = fn
						}
					}
					extra = append(extra, funcDecl(fn, []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vs.Values}}))
				}
			}
		}
	}
	if usesRT {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("zzrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath + "/rt")}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
		extra = append(extra, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{rtSel("Y")}}}})
	}
	f.Decls = append(f.Decls, extra...)
	var b bytes.Buffer
	for _, k := range keep {
		b.WriteString(k + "\n")
	}
	b.WriteString("\n")
	if err := format.Node(&b, w.fset, f); err != nil {
		log.Fatalf("instr: printing %s: %v", w.fset.Position(f.Package).Filename, err)
	}
	return b.Bytes()
}

func funcDecl(name string, body []ast.Stmt) ast.Decl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func pkgNameOf(p *types.Package, path string) string {
	for _, i := range p.Imports() {
		if i.Path() == path {
			return i.Name()
		}
	}
	return filepath.Base(path)
}

func stripComments(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func (w *rewriter) resetFile(name string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n", name)
	fmt.Fprintf(&b, "// ZsimReset puts the package into its initial state.\nfunc ZsimReset() {\n")
	for _, z := range w.zeroFn {
		fmt.Fprintf(&b, "\t%s()\n", z)
	}
	done := map[string]bool{}
	for _, in := range w.info.InitOrder {
		for _, v := range in.Lhs {
			fn := w.varFn[v]
			if fn != "" && !done[fn] {
				done[fn] = true
				fmt.Fprintf(&b, "\t%s()\n", fn)
			}
		}
	}
	for _, fn := range w.allInit {
		if !done[fn] {
			fmt.Fprintf(&b, "\t%s()\n", fn)
		}
	}
	for _, i := range w.inits {
		fmt.Fprintf(&b, "\t%s()\n", i)
	}
	fmt.Fprintf(&b, "}\n")
	if len(w.inits) > 0 {
		fmt.Fprintf(&b, "\nfunc init() {\n")
		for _, i := range w.inits {
			fmt.Fprintf(&b, "\t%s()\n", i)
		}
		fmt.Fprintf(&b, "}\n")
	}
	return b.Bytes()
}

// ---------------------------------------------------------------- statements

func (w *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = w.stmts(b.List)
	// positions of rewritten lists would confuse the printer's line breaks
}

func (w *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.DeclStmt:
			out = append(out, w.stmt(s))
			continue
		case *ast.BranchStmt:
			if s.(*ast.BranchStmt).Tok == token.FALLTHROUGH {
				out = append(out, s)
				continue
			}
		}
		out = append(out, w.y(s.Pos()), w.stmt(s))
	}
	return out
}

func (w *rewriter) loopBody(b *ast.BlockStmt, p token.Pos) {
	if len(b.List) == 0 {
		b.List = []ast.Stmt{w.y(p)}
		return
	}
	w.block(b)
}

func (w *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		w.block(x)
	case *ast.ExprStmt:
		x.X = w.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(rtCall("SendTo", w.expr(x.Chan)), w.expr(x.Value))}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		one := &ast.BasicLit{Kind: token.INT, Value: "1"}
		if r := w.rmw(x.X, op, one, x.Pos()); r != nil {
			return r
		}
		x.X = w.lhs(x.X)
	case *ast.AssignStmt:
		return w.assign(x)
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.DeferStmt:
		x.Call = w.callee(x.Call)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = w.expr(x.Results[i])
		}
		if len(x.Results) == 1 {
			// keep "return <-ch" forms as single values
			return x
		}
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = w.simple(x.Init)
		}
		x.Cond = w.expr(x.Cond)
		w.block(x.Body)
		if x.Else != nil {
			x.Else = w.stmt(x.Else)
		}
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = w.expr(x.List[i])
		}
		x.Body = w.stmts(x.Body)
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = w.simple(x.Init)
		}
		if x.Tag != nil {
			x.Tag = w.expr(x.Tag)
		}
		for _, c := range x.Body.List {
			w.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			x.Init = w.simple(x.Init)
		}
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = w.expr(ta.X)
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = w.expr(ta.X)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = w.stmts(cc.Body)
		}
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = w.simple(x.Init)
		}
		if x.Cond != nil {
			x.Cond = w.expr(x.Cond)
		}
		if x.Post != nil {
			x.Post = w.simple(x.Post)
		}
		w.loopBody(x.Body, x.Pos())
	case *ast.RangeStmt:
		return w.rangeStmt(x)
	case *ast.SelectStmt:
		return w.selectStmt(x)
	case *ast.LabeledStmt:
		x.Stmt = w.stmt(x.Stmt)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					vs.Values[0] = w.commaOK(vs.Values[0])
					continue
				}
				for i := range vs.Values {
					vs.Values[i] = w.expr(vs.Values[i])
				}
			}
		}
	}
	return s
}

// simple rewrites the statement in an init or post position, where only
// simple statements are allowed.
func (w *rewriter) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.ExprStmt:
		x.X = w.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(rtCall("SendTo", w.expr(x.Chan)), w.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = w.lhs(x.X)
	case *ast.AssignStmt:
		w.plainAssign(x)
	}
	return s
}

func (w *rewriter) plainAssign(x *ast.AssignStmt) {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		x.Rhs[0] = w.commaOK(x.Rhs[0])
	} else {
		for i := range x.Rhs {
			x.Rhs[i] = w.expr(x.Rhs[i])
		}
	}
	for i := range x.Lhs {
		x.Lhs[i] = w.lhs(x.Lhs[i])
	}
}

func (w *rewriter) commaOK(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return rtCall("Recv2", w.expr(u.X))
	}
	return w.expr(e)
}

func (w *rewriter) assign(x *ast.AssignStmt) ast.Stmt {
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		// op=
		op, ok := opOf[x.Tok]
		if ok {
			if r := w.rmw(x.Lhs[0], op, x.Rhs[0], x.Pos()); r != nil {
				return r
			}
		}
		w.plainAssign(x)
		return x
	}
	if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 && w.nonLocal(x.Lhs[0]) && !hasCall(x.Lhs[0]) && !w.isConst(x.Rhs[0]) {
		rt := w.typeOf(x.Rhs[0])
		if b, ok := rt.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
			if _, isSig := x.Rhs[0].(*ast.FuncLit); !isSig {
				t := w.tmp("v")
				p := x.Pos()
				r := w.expr(x.Rhs[0])
				l := w.lhs(x.Lhs[0])
				return &ast.BlockStmt{List: []ast.Stmt{define([]ast.Expr{t}, r), w.y(p), assign(l, ast.NewIdent(t.Name))}}
			}
		}
	}
	w.plainAssign(x)
	return x
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// rmw splits a read-modify-write of shared state.
func (w *rewriter) rmw(l ast.Expr, op token.Token, r ast.Expr, p token.Pos) ast.Stmt {
	if !w.nonLocal(l) {
		return nil
	}
	l = unparen(l)
	konst := w.isConst(r)
	if bl, ok := r.(*ast.BasicLit); ok && bl.Kind == token.INT {
		konst = true
	}
	if t := w.typeOf(r); !konst && t != nil {
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return nil
		}
	}
	var list []ast.Stmt
	old := w.tmp("o")
	use := func(id *ast.Ident) ast.Expr { return ast.NewIdent(id.Name) }
	rv := r
	if ix, ok := l.(*ast.IndexExpr); ok && w.isMap(ix.X) {
		m, k := w.tmp("m"), w.tmp("k")
		var kx ast.Expr = k
		mapx, keyx := w.expr(ix.X), w.expr(ix.Index)
		if w.isConst(ix.Index) {
			list = append(list, define([]ast.Expr{m}, mapx))
			kx = keyx
		} else {
			list = append(list, define([]ast.Expr{m, k}, mapx, keyx))
			kx = use(k)
		}
		if !konst {
			t := w.tmp("t")
			list = append(list, define([]ast.Expr{t}, w.expr(r)))
			rv = use(t)
		}
		list = append(list,
			define([]ast.Expr{old}, &ast.IndexExpr{X: rtCall("MR", w.newSite(p), use(m)), Index: kx}),
			w.y(p),
			assign(&ast.IndexExpr{X: rtCall("MW", w.newSite(p), use(m)), Index: kx}, &ast.BinaryExpr{X: use(old), Op: op, Y: &ast.ParenExpr{X: rv}}))
		return &ast.BlockStmt{List: list}
	}
	ptr := w.tmp("p")
	list = append(list, define([]ast.Expr{ptr}, &ast.UnaryExpr{Op: token.AND, X: w.lhs(l)}))
	if !konst {
		t := w.tmp("t")
		list = append(list, define([]ast.Expr{t}, w.expr(r)))
		rv = use(t)
	}
	list = append(list,
		define([]ast.Expr{old}, &ast.StarExpr{X: use(ptr)}),
		w.y(p),
		assign(&ast.StarExpr{X: use(ptr)}, &ast.BinaryExpr{X: use(old), Op: op, Y: &ast.ParenExpr{X: rv}}))
	return &ast.BlockStmt{List: list}
}

// lhs rewrites an assignment target.
func (w *rewriter) lhs(e ast.Expr) ast.Expr {
	if ix, ok := unparen(e).(*ast.IndexExpr); ok && w.isMap(ix.X) {
		s := w.newSite(ix.Pos())
		ix.X = rtCall("MW", s, w.expr(ix.X))
		ix.Index = w.expr(ix.Index)
		return ix
	}
	if _, ok := e.(*ast.Ident); ok {
		return e
	}
	return w.expr(e)
}

func (w *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	p := x.Pos()
	c := x.Call
	s := w.newSite(p)
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: rtCall("Go", s, w.expr(fl))}
	}
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, b := w.info.Uses[id].(*types.Builtin); b {
			cc := w.callee(c)
			return &ast.ExprStmt{X: rtCall("Go", s, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: cc}}}})}
		}
	}
	var l, r []ast.Expr
	f := w.tmp("f")
	l = append(l, f)
	r = append(r, w.expr(c.Fun))
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		t := w.typeOf(a)
		_, tuple := t.(*types.Tuple)
		b, basic := t.(*types.Basic)
		if w.isConst(a) || tuple || basic && b.Info()&types.IsUntyped != 0 {
			args[i] = w.expr(a)
			continue
		}
		v := w.tmp("a")
		l = append(l, v)
		r = append(r, w.expr(a))
		args[i] = ast.NewIdent(v.Name)
	}
	inner := &ast.CallExpr{Fun: ast.NewIdent(f.Name), Args: args}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = c.Ellipsis
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	return &ast.BlockStmt{List: []ast.Stmt{define(l, r...), &ast.ExprStmt{X: rtCall("Go", s, fl)}}}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func addrOrNil(e ast.Expr) ast.Expr {
	if isBlank(e) {
		return ast.NewIdent("nil")
	}
	if id, ok := e.(*ast.Ident); ok {
		return &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(id.Name)}
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (w *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	if w.isMap(x.X) {
		it := w.tmp("it")
		s := w.newSite(x.Pos())
		m := w.expr(x.X)
		f := &ast.ForStmt{Body: x.Body}
		useIt := func() ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent("Next")} }
		if x.Tok == token.DEFINE {
			switch {
			case !isBlank(x.Key) && !isBlank(x.Value):
				f.Init = define([]ast.Expr{it, x.Key, x.Value}, rtCall("Iter2", s, m))
			case !isBlank(x.Key):
				f.Init = define([]ast.Expr{it, x.Key}, rtCall("Iter1", s, m))
			case !isBlank(x.Value):
				f.Init = define([]ast.Expr{it, x.Value}, rtCall("IterV", s, m))
			default:
				f.Init = define([]ast.Expr{it}, rtCall("Iter0", s, m))
			}
		} else {
			f.Init = define([]ast.Expr{it}, rtCall("Iter0", s, m))
		}
		f.Cond = call(useIt(), addrOrNil(x.Key), addrOrNil(x.Value))
		w.loopBody(f.Body, x.Pos())
		return f
	}
	if w.isChan(x.X) {
		ok := w.tmp("ok")
		c := w.tmp("c")
		var first ast.Stmt
		if isBlank(x.Key) {
			first = define([]ast.Expr{ast.NewIdent("_"), ok}, rtCall("Recv2", ast.NewIdent(c.Name)))
		} else if x.Tok == token.DEFINE {
			first = define([]ast.Expr{x.Key, ok}, rtCall("Recv2", ast.NewIdent(c.Name)))
		} else {
			v := w.tmp("v")
			first = define([]ast.Expr{v, ok}, rtCall("Recv2", ast.NewIdent(c.Name)))
			x.Body.List = append([]ast.Stmt{assign(x.Key, ast.NewIdent(v.Name))}, x.Body.List...)
		}
		cx := w.expr(x.X)
		w.loopBody(x.Body, x.Pos())
		body := []ast.Stmt{w.y(x.Pos()), first,
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
		if !isBlank(x.Key) && x.Tok == token.DEFINE {
			body = append(body, assign(ast.NewIdent("_"), ast.NewIdent(x.Key.(*ast.Ident).Name)))
		}
		body = append(body, x.Body.List...)
		return &ast.ForStmt{Init: define([]ast.Expr{c}, cx), Body: &ast.BlockStmt{List: body}}
	}
	x.X = w.expr(x.X)
	w.loopBody(x.Body, x.Pos())
	return x
}

func (w *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	hasDefault := "false"
	var cases, names []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	for _, cl := range x.Body.List {
		c := cl.(*ast.CommClause)
		cc := &ast.CaseClause{}
		if c.Comm == nil {
			hasDefault = "true"
			cc.List = nil
			cc.Body = w.stmts(c.Body)
			sw.Body.List = append(sw.Body.List, cc)
			continue
		}
		nm := w.tmp("c")
		names = append(names, nm)
		cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
		n++
		var pre []ast.Stmt
		meth := func(m string) ast.Expr {
			return call(&ast.SelectorExpr{X: ast.NewIdent(nm.Name), Sel: ast.NewIdent(m)})
		}
		switch cm := c.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, call(rtCall("SelSendTo", w.expr(cm.Chan)), w.expr(cm.Value)))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			cases = append(cases, rtCall("SelRecv", w.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			cases = append(cases, rtCall("SelRecv", w.expr(u.X)))
			m := "V"
			if len(cm.Lhs) == 2 {
				m = "V2"
			}
			for i := range cm.Lhs {
				cm.Lhs[i] = w.lhs(cm.Lhs[i])
			}
			pre = append(pre, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{meth(m)}})
		}
		cc.Body = append(pre, w.stmts(c.Body)...)
		sw.Body.List = append(sw.Body.List, cc)
	}
	if hasDefault == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), rtCall("Unwind"))}}})
	}
	if len(names) > 0 {
		sw.Init = define(names, cases...)
	}
	args := []ast.Expr{ast.NewIdent(hasDefault)}
	for _, nm := range names {
		args = append(args, ast.NewIdent(nm.(*ast.Ident).Name))
	}
	sw.Tag = rtCall("Select", args...)
	return sw
}

// ---------------------------------------------------------------- expressions

func (w *rewriter) callee(c *ast.CallExpr) *ast.CallExpr {
	e := w.expr(c)
	if cc, ok := e.(*ast.CallExpr); ok {
		return cc
	}
	return &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}}
}

func (w *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = w.expr(l[i])
	}
}

func (w *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		x.X = w.expr(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, pk := w.info.Uses[id].(*types.PkgName); pk {
				return x
			}
		}
		x.X = w.expr(x.X)
	case *ast.IndexExpr:
		if w.isMap(x.X) {
			s := w.newSite(x.Pos())
			x.X = rtCall("MR", s, w.expr(x.X))
			x.Index = w.expr(x.Index)
			return x
		}
		if tv, ok := w.info.Types[x.Index]; ok && tv.IsType() {
			return x // instantiation
		}
		x.X = w.expr(x.X)
		x.Index = w.expr(x.Index)
	case *ast.SliceExpr:
		x.X = w.expr(x.X)
		x.Low, x.High, x.Max = w.expr(x.Low), w.expr(x.High), w.expr(x.Max)
	case *ast.StarExpr:
		x.X = w.expr(x.X)
	case *ast.TypeAssertExpr:
		x.X = w.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return rtCall("Recv", w.expr(x.X))
		}
		x.X = w.expr(x.X)
	case *ast.BinaryExpr:
		x.X = w.expr(x.X)
		x.Y = w.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Value = w.expr(x.Value)
	case *ast.CompositeLit:
		isStruct := false
		if t := w.typeOf(x); t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, isStruct = u.(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = w.expr(kv.Key)
				}
				kv.Value = w.expr(kv.Value)
			} else {
				x.Elts[i] = w.expr(el)
			}
		}
	case *ast.FuncLit:
		save := w.fn
		w.fn += ".func"
		w.block(x.Body)
		w.fn = save
	case *ast.CallExpr:
		if tv, ok := w.info.Types[x.Fun]; ok && tv.IsType() {
			w.exprs(x.Args)
			return x
		}
		if w.isBuiltin(x.Fun, "close") {
			return rtCall("Close", w.expr(x.Args[0]))
		}
		if w.isBuiltin(x.Fun, "delete") || w.isBuiltin(x.Fun, "clear") && w.isMap(x.Args[0]) {
			s := w.newSite(x.Pos())
			w.exprs(x.Args)
			x.Args[0] = rtCall("MW", s, x.Args[0])
			return x
		}
		if w.isBuiltin(x.Fun, "len") || w.isBuiltin(x.Fun, "cap") {
			a := x.Args[0]
			if w.isMap(a) {
				s := w.newSite(x.Pos())
				x.Args[0] = rtCall("MR", s, w.expr(a))
				return x
			}
			if w.isChan(a) && w.isBuiltin(x.Fun, "len") {
				return rtCall("ChLen", w.expr(a))
			}
		}
		if w.isBuiltin(x.Fun, "new") || w.isBuiltin(x.Fun, "make") {
			for i := 1; i < len(x.Args); i++ {
				x.Args[i] = w.expr(x.Args[i])
			}
			return x
		}
		x.Fun = w.expr(x.Fun)
		w.exprs(x.Args)
	}
	return e
}
