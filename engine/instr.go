package main

// Instruments copies of the loaded sources so that a native replay follows the
// schedule of a counterexample (see harness/zzsched).

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

const zzPath = hBase + "zzsched"

type instr struct {
	ld   *Loaded
	info *types.Info
	pkg  *types.Package
	used bool
	skip map[ast.Node]bool
	loop int
}

// instrument writes instrumented sources to dir and returns path -> new file.
func instrument(ld *Loaded, dir string) (map[string]string, error) {
	out := map[string]string{}
	n := 0
	for _, p := range ld.modPkgs {
		if p.PkgPath == hBase+"sym" || p.PkgPath == zzPath {
			continue
		}
		for _, f := range p.Syntax {
			name := ld.fset.Position(f.Package).Filename
			b, err := instrFile(ld, p, f)
			if err != nil {
				return nil, err
			}
			n++
			dst := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(name)))
			if err := os.WriteFile(dst, b, 0644); err != nil {
				return nil, err
			}
			out[name] = dst
		}
	}
	return out, nil
}

func instrFile(ld *Loaded, p *packages.Package, f *ast.File) ([]byte, error) {
	in := &instr{ld: ld, info: p.TypesInfo, pkg: p.Types, skip: map[ast.Node]bool{}}
	astutil.Apply(f, in.pre, in.post)
	if in.used {
		astutil.AddNamedImport(ld.fset, f, "zzsched", zzPath)
	}
	// comments would be misplaced; only the directives of functions are kept
	dirs := map[*ast.FuncDecl]string{}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:") {
					dirs[fd] += c.Text + "\n"
				}
			}
		}
	}
	stripComments(f)
	var buf bytes.Buffer
	buf.WriteString("//go:build go1.21\n\npackage " + f.Name.Name + "\n")
	cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
	for _, d := range f.Decls {
		buf.WriteString("\n")
		if fd, ok := d.(*ast.FuncDecl); ok {
			buf.WriteString(dirs[fd])
		}
		if err := cfg.Fprint(&buf, token.NewFileSet(), d); err != nil {
			return nil, err
		}
		buf.WriteString("\n")
	}
	// keep imports used whose only use was rewritten
	for _, im := range f.Imports {
		switch im.Path.Value {
		case `"net"`:
			buf.WriteString("\nvar _ = " + impName(im, "net") + ".Dial\n")
		case `"os/signal"`:
			buf.WriteString("\nvar _ = " + impName(im, "signal") + ".Notify\n")
		}
	}
	return buf.Bytes(), nil
}

func stripComments(f *ast.File) {
	f.Comments, f.Doc = nil, nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func impName(im *ast.ImportSpec, def string) string {
	if im.Name != nil {
		return im.Name.Name
	}
	return def
}

func (in *instr) site(p token.Pos) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", in.ld.pos(p))}
}

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", s)} }

func (in *instr) zz(name string, args ...ast.Expr) *ast.CallExpr {
	in.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzsched"), Sel: ast.NewIdent(name)}, Args: args}
}

func (in *instr) isChan(e ast.Expr) bool {
	t := in.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// pre marks the statements whose operations are handled as a whole.
func (in *instr) pre(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.CommClause:
		switch s := n.Comm.(type) {
		case *ast.SendStmt:
			in.skip[s] = true
		case *ast.ExprStmt:
			in.skip[ast.Unparen(s.X)] = true
		case *ast.AssignStmt:
			in.skip[ast.Unparen(s.Rhs[0])] = true
		}
	case *ast.DeferStmt:
		in.skip[n.Call] = true
	}
	return true
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return true
	})
	return found
}

// syncOp classifies a call on sync or atomic objects.
func (in *instr) syncOp(c *ast.CallExpr) (kind string, recv ast.Expr, ok bool) {
	se, isSel := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !isSel {
		return
	}
	fn, isFn := in.info.Uses[se.Sel].(*types.Func)
	if !isFn || fn.Pkg() == nil {
		return
	}
	sig := fn.Type().(*types.Signature)
	switch fn.Pkg().Path() {
	case "sync":
		if sig.Recv() == nil {
			return
		}
		kinds := map[string]string{"Lock": "lock", "Unlock": "unlock", "RLock": "rlock", "RUnlock": "runlock", "TryLock": "trylock", "Done": "wgadd", "Add": "wgadd", "Wait": "wgwait"}
		k := kinds[fn.Name()]
		if k == "" {
			k = "sync." + fn.Name()
		}
		return k, se.X, true
	case "sync/atomic":
		if sig.Recv() != nil {
			return "atomic", se.X, true
		}
		return "atomic", nil, true
	}
	return
}

func (in *instr) post(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !in.skip[n] {
			n.X = in.zz("C", n.X, str("recv"), in.site(n.OpPos))
		}
	case *ast.SendStmt:
		if in.skip[n] {
			return true
		}
		tv := in.info.Types[n.Value]
		if hasCall(n.Value) && !tv.IsNil() && tv.Value == nil {
			n.Value = in.zz("C", n.Value, str("send"), in.site(n.Arrow))
		} else {
			n.Chan = in.zz("C", n.Chan, str("send"), in.site(n.Arrow))
		}
	case *ast.CallExpr:
		in.call(n)
	case *ast.GoStmt:
		if id, ok := ast.Unparen(n.Call.Fun).(*ast.Ident); ok {
			if _, isB := in.info.Uses[id].(*types.Builtin); isB {
				return true
			}
		}
		calls := false
		for _, a := range n.Call.Args {
			ast.Inspect(a, func(x ast.Node) bool {
				if _, ok := x.(*ast.CallExpr); ok {
					calls = true
				}
				return true
			})
		}
		if !calls {
			n.Call.Fun = in.zz("W", n.Call.Fun)
			return true
		}
		// The goroutine gets its number after its arguments are evaluated.
		n.Call.Fun = in.zz("V", n.Call.Fun)
		after := &ast.ExprStmt{X: in.zz("Spawned")}
		if c.Index() >= 0 {
			c.InsertAfter(after)
		} else {
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{n, after}})
		}
	case *ast.DeferStmt:
		in.deferred(n)
	case *ast.RangeStmt:
		if n.X != nil && in.isChan(n.X) {
			in.rangeChan(c, n)
		}
	case *ast.SelectStmt:
		in.selectStmt(n)
	}
	return true
}

func (in *instr) call(n *ast.CallExpr) {
	if in.skip[n] {
		return
	}
	switch f := ast.Unparen(n.Fun).(type) {
	case *ast.Ident:
		if b, ok := in.info.Uses[f].(*types.Builtin); ok && len(n.Args) == 1 && in.isChan(n.Args[0]) {
			switch b.Name() {
			case "close":
				n.Args[0] = in.zz("C", n.Args[0], str("close"), in.site(n.Lparen))
			case "len", "cap":
				n.Args[0] = in.zz("C", n.Args[0], str("chanlen"), in.site(n.Lparen))
			}
		}
	case *ast.SelectorExpr:
		if fn, ok := in.info.Uses[f.Sel].(*types.Func); ok && fn.Pkg() != nil {
			switch fn.FullName() {
			case "net.Dial", "net.Listen":
				n.Fun = in.zz(fn.Name()).Fun
				return
			case "os/signal.Notify":
				n.Fun = in.zz("Notify").Fun
				return
			}
		}
		kind, recv, ok := in.syncOp(n)
		if !ok {
			return
		}
		pos := in.site(n.Lparen)
		if kind == "sync.Do" {
			in.own(n, recv, "sync.Once", "Do", pos)
			return
		}
		if t := in.info.TypeOf(recv); t != nil && (t.String() == "sync.Cond" || t.String() == "*sync.Cond") {
			in.own(n, recv, "sync.Cond", f.Sel.Name, pos)
			return
		}
		if recv == nil {
			if len(n.Args) > 0 {
				n.Args[0] = in.zz("C", n.Args[0], str(kind), pos)
			}
			return
		}
		t := in.info.TypeOf(recv)
		if t == nil {
			return
		}
		if _, ptr := t.Underlying().(*types.Pointer); ptr {
			f.X = in.zz("C", recv, str(kind), pos)
		} else if _, ifc := t.Underlying().(*types.Interface); ifc {
			f.X = in.zz("C", recv, str(kind), pos)
		} else if in.info.Types[recv].Addressable() {
			f.X = &ast.ParenExpr{X: &ast.StarExpr{X: in.zz("C", &ast.UnaryExpr{Op: token.AND, X: recv}, str(kind), pos)}}
		}
	}
}

// own replaces a method of package sync by the one of zzsched.
func (in *instr) own(n *ast.CallExpr, recv ast.Expr, typ, name string, pos ast.Expr) {
	t := in.info.TypeOf(recv)
	if t == nil {
		return
	}
	switch t.String() {
	case typ:
		recv = &ast.UnaryExpr{Op: token.AND, X: recv}
	case "*" + typ:
	default:
		return
	}
	n.Fun, n.Args = in.zz(name).Fun, append(append([]ast.Expr{recv}, n.Args...), pos)
}

func (in *instr) deferred(n *ast.DeferStmt) {
	pos := in.site(n.Call.Lparen)
	if id, ok := ast.Unparen(n.Call.Fun).(*ast.Ident); ok {
		if b, ok := in.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
			body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: n.Call}}}}
			n.Call = in.zz("D", str("close"), pos, body)
		}
		return
	}
	if kind, recv, ok := in.syncOp(n.Call); ok && recv != nil && len(n.Call.Args) == 0 {
		if t := in.info.TypeOf(recv); t != nil && (t.String() == "sync.Cond" || t.String() == "*sync.Cond") {
			in.own(n.Call, recv, "sync.Cond", n.Call.Fun.(*ast.SelectorExpr).Sel.Name, pos)
			return
		}
		n.Call = in.zz("D", str(kind), pos, n.Call.Fun)
	}
}

func (in *instr) rangeChan(c *astutil.Cursor, n *ast.RangeStmt) {
	in.loop++
	ch, ok := fmt.Sprintf("zzch%d", in.loop), fmt.Sprintf("zzok%d", in.loop)
	recv := &ast.UnaryExpr{Op: token.ARROW, X: in.zz("C", ast.NewIdent(ch), str("recv"), in.site(n.For))}
	brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	var list []ast.Stmt
	if n.Key == nil || isBlank(n.Key) {
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk)
	} else if n.Tok == token.DEFINE {
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{n.Key, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk,
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(n.Key.(*ast.Ident).Name)}})
	} else {
		tmp := fmt.Sprintf("zzv%d", in.loop)
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(tmp), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk,
			&ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(tmp)}})
	}
	list = append(list, &ast.BlockStmt{List: n.Body.List})
	c.Replace(&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}}, Body: &ast.BlockStmt{List: list}})
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *instr) selectStmt(n *ast.SelectStmt) {
	var comms []*ast.CommClause
	def := false
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
		} else {
			comms = append(comms, cc)
		}
	}
	_ = def
	pos := n.Select
	for k, cc := range comms {
		num := &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(k)}
		p := in.site(pos)
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			s.Chan = in.zz("M", s.Chan, num, p)
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			u.X = in.zz("M", u.X, num, p)
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			u.X = in.zz("M", u.X, num, p)
		}
	}
}

var _ = strings.HasPrefix
