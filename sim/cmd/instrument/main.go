// Command instrument rewrites the packages of the repository's root module, as they are now, into an
// output directory and writes an overlay file for the go command. Nothing in the repository changes.
//
// What is rewritten (levels 2 and 1; level 0 only swaps net and sync):
//   - before every statement: simrt.Y(site), a scheduling point
//   - net.Dialer, net.TCPConn, net.UnixConn, net.Dial...: the simulated network
//   - package sync: cooperative stand-ins
//   - the global functions of math/rand: a source of the run
//   - go, channel operations, select, range over channels and maps, sleeping: simulator decisions
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path, Dir string }
}

var (
	repo  = flag.String("repo", "/repo", "repository")
	mod   = flag.String("module", "github.com/renthraysk/xtorm", "module to rewrite")
	out   = flag.String("out", "", "output directory")
	level = flag.Int("level", 2, "2: everything; 1: no statement-level points; 0: only net and sync")
)

var siteTab []string

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module", *mod+"/...")
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == *mod {
			q := p
			pkgs = append(pkgs, &q)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	overlay := map[string]string{}
	for _, p := range pkgs {
		var files []*ast.File
		var names []string
		for _, g := range p.GoFiles {
			name := filepath.Join(p.Dir, g)
			f, err := parser.ParseFile(fset, name, nil, 0)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			names = append(names, name)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		for i, f := range files {
			r := &rewriter{fset: fset, info: info, rel: strings.TrimPrefix(names[i], *repo+"/")}
			r.file(f)
			var buf bytes.Buffer
			fmt.Fprintf(&buf, "//go:build go1.18\n\n")
			if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
				die("print %s: %v", names[i], err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(r.rel, "/", "__"))
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			overlay[names[i]] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	b, _ = json.Marshal(siteTab)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented %d files, %d sites, level %d\n", len(overlay), len(siteTab), *level)
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	rel  string
	uid  int
	used map[string]bool
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func rt(name string) ast.Expr { return &ast.SelectorExpr{X: id("simrt__"), Sel: id(name)} }

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func define(l string, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(l)}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}

func (r *rewriter) name(p string) string {
	r.uid++
	return p + "__" + strconv.Itoa(r.uid)
}

func (r *rewriter) rtf(name string) ast.Expr { r.used["simrt"] = true; return rt(name) }

func (r *rewriter) file(f *ast.File) {
	r.used = map[string]bool{}
	// package selectors
	netSel := map[string]bool{"Dialer": true, "TCPConn": true, "UnixConn": true, "Dial": true, "DialTimeout": true, "DialTCP": true, "DialUnix": true}
	netName := ""
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.info.Uses[x].(*types.PkgName)
		if !ok {
			return true
		}
		key := pn.Imported().Path() + "." + s.Sel.Name
		switch {
		case pn.Imported().Path() == "net" && netSel[s.Sel.Name]:
			netName = x.Name
			s.X = id("simnet__")
			r.used["simnet"] = true
		case pn.Imported().Path() == "math/rand" && method(randMethods, s.Sel.Name):
			r.keep(f, x.Name, "NewSource")
			s.X = call(rt("Rand"))
			r.used["simrt"] = true
		case pn.Imported().Path() == "math/rand/v2" && method(rand2Methods, s.Sel.Name):
			r.keep(f, x.Name, "NewPCG")
			s.X = call(rt("RandV2"))
			r.used["simrt"] = true
		case *level > 0 && key == "time.Sleep":
			r.keep(f, x.Name, "Now")
			s.X, s.Sel = id("simrt__"), id("Sleep")
			r.used["simrt"] = true
		case *level > 0 && key == "time.AfterFunc":
			r.keep(f, x.Name, "Now")
			s.X, s.Sel = id("simrt__"), id("TimeAfterFunc")
			r.used["simrt"] = true
		case *level > 0 && key == "context.AfterFunc":
			r.keep(f, x.Name, "Background")
			s.X, s.Sel = id("simrt__"), id("ContextAfterFunc")
			r.used["simrt"] = true
		case *level > 0 && key == "runtime.Gosched":
			r.keep(f, x.Name, "NumCPU")
			s.X, s.Sel = id("simrt__"), id("Gosched")
			r.used["simrt"] = true
		}
		return true
	})
	if netName != "" {
		r.keep(f, netName, "ParseIP")
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			im.Path.Value = `"xtormsim/simsync"`
			if im.Name == nil {
				im.Name = id("sync")
			}
		}
	}
	if *level > 0 {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					r.block(d.Body)
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					if vs, ok := sp.(*ast.ValueSpec); ok {
						for i := range vs.Values {
							vs.Values[i] = r.expr(vs.Values[i])
						}
					}
				}
			}
		}
	}
	var specs []ast.Spec
	if r.used["simrt"] {
		specs = append(specs, &ast.ImportSpec{Name: id("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"xtormsim/simrt"`}})
	}
	if r.used["simnet"] {
		specs = append(specs, &ast.ImportSpec{Name: id("simnet__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"xtormsim/simnet"`}})
	}
	for _, s := range specs {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}}}, f.Decls...)
	}
}

var randMethods, rand2Methods = reflect.TypeOf((*rand.Rand)(nil)), reflect.TypeOf((*randv2.Rand)(nil))

func method(t reflect.Type, name string) bool {
	_, ok := t.MethodByName(name)
	return ok
}

// keep makes sure an import stays used.
func (r *rewriter) keep(f *ast.File, pkg, sel string) {
	if r.used["keep:"+pkg] {
		return
	}
	r.used["keep:"+pkg] = true
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
		Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(pkg), Sel: id(sel)}}}}})
}

func (r *rewriter) yield(pos token.Pos) ast.Stmt {
	n := len(siteTab) + 1
	siteTab = append(siteTab, fmt.Sprintf("%s:%d", r.rel, r.fset.Position(pos).Line))
	return &ast.ExprStmt{X: call(r.rtf("Y"), &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)})}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		if *level > 1 {
			switch s.(type) {
			case *ast.EmptyStmt:
			default:
				out = append(out, r.yield(s.Pos()))
			}
		}
		out = append(out, r.stmt(s, nil))
	}
	return out
}

func isArrow(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

// stmt rewrites one statement; label, if any, is placed on its loop or switch.
func (r *rewriter) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	wrap := func(x ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: label, Stmt: x}
		}
		return x
	}
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		if s.Stmt == nil {
			return s
		}
		return r.stmt(s.Stmt, s.Label)
	case *ast.BlockStmt:
		r.block(s)
		return wrap(s)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else, nil)
		}
		return wrap(s)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post, nil)
		r.block(s.Body)
		if len(s.Body.List) == 0 {
			s.Body.List = append(s.Body.List, r.yield(s.Pos()))
		}
		return wrap(s)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Tag = r.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		return wrap(s)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Assign = r.stmt(s.Assign, nil)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
		return wrap(s)
	case *ast.RangeStmt:
		return r.rng(s, wrap)
	case *ast.SelectStmt:
		return r.sel(s, wrap)
	case *ast.GoStmt:
		return wrap(r.goStmt(s))
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
		return wrap(s)
	case *ast.SendStmt:
		e := call(&ast.SelectorExpr{X: call(r.rtf("NewSend"), r.expr(s.Chan)), Sel: id("Val")}, r.expr(s.Value))
		return wrap(&ast.ExprStmt{X: call(&ast.SelectorExpr{X: e, Sel: id("Send")})})
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := isArrow(s.Rhs[0]); ok {
				s.Rhs[0] = call(r.rtf("Recv2"), r.expr(u.X))
				r.exprs(s.Lhs)
				return wrap(s)
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
		return wrap(s)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					if len(vs.Names) == 2 && len(vs.Values) == 1 {
						if u, ok := isArrow(vs.Values[0]); ok {
							vs.Values[0] = call(r.rtf("Recv2"), r.expr(u.X))
							continue
						}
					}
					r.exprs(vs.Values)
				}
			}
		}
		return wrap(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return wrap(s)
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		return wrap(s)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
		return wrap(s)
	default:
		return wrap(s)
	}
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// expr rewrites receive operations and function bodies inside an expression.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		e.X = r.expr(e.X)
		if e.Op == token.ARROW {
			return call(r.rtf("Recv"), e.X)
		}
		return e
	case *ast.FuncLit:
		r.block(e.Body)
		return e
	case *ast.CallExpr:
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
		return e
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
		return e
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = r.expr(e.X), r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.CompositeLit:
		r.exprs(e.Elts)
		return e
	case *ast.KeyValueExpr:
		e.Value = r.expr(e.Value)
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		return e
	}
	return e
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rewriter) rng(s *ast.RangeStmt, wrap func(ast.Stmt) ast.Stmt) ast.Stmt {
	var under types.Type
	if tv, ok := r.info.Types[s.X]; ok && tv.Type != nil {
		under = tv.Type.Underlying()
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	switch under.(type) {
	case *types.Chan:
		ch, ok := r.name("ch"), r.name("ok")
		v := ast.Expr(id("_"))
		tok := token.DEFINE
		var pre []ast.Stmt
		if !blank(s.Key) {
			if s.Tok == token.DEFINE {
				v = s.Key
			} else {
				tmp := r.name("v")
				v = id(tmp)
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tmp)}})
			}
		}
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, id(ok)}, Tok: tok, Rhs: []ast.Expr{call(r.rtf("Recv2"), id(ch))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		body = append(body, pre...)
		body = append(body, s.Body.List...)
		return &ast.BlockStmt{List: []ast.Stmt{define(ch, s.X), wrap(&ast.ForStmt{Body: &ast.BlockStmt{List: body}})}}
	case *types.Map:
		m, k, ok := r.name("m"), r.name("k"), r.name("ok")
		var pre []ast.Stmt
		pre = append(pre, &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: id(k)}}},
			Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !blank(s.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{id(k)}})
		}
		if !blank(s.Value) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: id(k)}}})
		}
		body := &ast.BlockStmt{List: append(pre, s.Body.List...)}
		loop := &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: call(r.rtf("MapKeys"), id(m)), Body: body}
		return &ast.BlockStmt{List: []ast.Stmt{define(m, s.X), wrap(loop)}}
	}
	return wrap(s)
}

func (r *rewriter) sel(s *ast.SelectStmt, wrap func(ast.Stmt) ast.Stmt) ast.Stmt {
	type cs struct {
		v    string
		send bool
		pre  []ast.Stmt
		body []ast.Stmt
	}
	var cases []cs
	var def *ast.CommClause
	var out []ast.Stmt
	tok := r.name("tok")
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = cc
			continue
		}
		k := cs{v: r.name("c")}
		recv := func(u *ast.UnaryExpr) {
			out = append(out, define(k.v, call(r.rtf("NewRecv"), r.expr(u.X))))
		}
		v, okv := &ast.SelectorExpr{X: id(k.v), Sel: id("V")}, &ast.SelectorExpr{X: id(k.v), Sel: id("OK")}
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			k.send = true
			out = append(out, define(k.v, call(&ast.SelectorExpr{X: call(r.rtf("NewSend"), r.expr(m.Chan)), Sel: id("Val")}, r.expr(m.Value))))
		case *ast.ExprStmt:
			u, ok := isArrow(m.X)
			if !ok {
				die("%s: unexpected select case", r.rel)
			}
			recv(u)
		case *ast.AssignStmt:
			u, ok := isArrow(m.Rhs[0])
			if !ok {
				die("%s: unexpected select case", r.rel)
			}
			recv(u)
			r.exprs(m.Lhs)
			rhs := []ast.Expr{v}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, okv)
			}
			allBlank := true
			for _, l := range m.Lhs {
				if !blank(l) {
					allBlank = false
				}
			}
			t := m.Tok
			if allBlank {
				t = token.ASSIGN
			}
			k.pre = append(k.pre, &ast.AssignStmt{Lhs: m.Lhs, Tok: t, Rhs: rhs})
		}
		k.body = r.stmts(cc.Body)
		cases = append(cases, k)
	}
	if len(cases) == 0 && def == nil {
		// ends in a terminating statement, as select{} is one
		return wrap(&ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(r.rtf("Forever"))}, &ast.ExprStmt{X: call(id("panic"), id("0"))}}})
	}
	sel := r.name("sel")
	var args []ast.Expr
	for _, k := range cases {
		args = append(args, id(k.v))
	}
	out = append(out, define(sel, call(r.rtf("Select"), args...)))
	if def == nil {
		var cl []ast.Stmt
		for i, k := range cases {
			var comm ast.Stmt
			c := &ast.SelectorExpr{X: id(k.v), Sel: id("C")}
			v, okv := &ast.SelectorExpr{X: id(k.v), Sel: id("V")}, &ast.SelectorExpr{X: id(k.v), Sel: id("OK")}
			if k.send {
				comm = &ast.SendStmt{Chan: c, Value: v}
			} else {
				comm = &ast.AssignStmt{Lhs: []ast.Expr{v, okv}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.ARROW, X: c}}}
			}
			cl = append(cl, &ast.CommClause{Comm: comm, Body: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(sel)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}}}})
		}
		cl = append(cl, &ast.CommClause{
			Comm: &ast.ExprStmt{X: &ast.UnaryExpr{Op: token.ARROW, X: call(&ast.SelectorExpr{X: id(tok), Sel: id("Abort")})}},
			Body: []ast.Stmt{&ast.ExprStmt{X: call(&ast.SelectorExpr{X: id(tok), Sel: id("Die")})}}})
		out = append(out, &ast.IfStmt{
			Cond: &ast.BinaryExpr{X: id(sel), Op: token.LSS, Y: &ast.BasicLit{Kind: token.INT, Value: "0"}},
			Body: &ast.BlockStmt{List: []ast.Stmt{
				define(tok, call(r.rtf("Before"))),
				&ast.SelectStmt{Body: &ast.BlockStmt{List: cl}},
				&ast.ExprStmt{X: call(&ast.SelectorExpr{X: id(tok), Sel: id("After")})},
			}}})
	}
	sw := &ast.SwitchStmt{Tag: id(sel), Body: &ast.BlockStmt{}}
	for i, k := range cases {
		cl := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}}
		if def == nil && i == len(cases)-1 {
			cl.List = nil
		}
		cl.Body = append(append([]ast.Stmt{}, k.pre...), k.body...)
		sw.Body.List = append(sw.Body.List, cl)
	}
	if def != nil {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(def.Body)})
	}
	out = append(out, wrap(sw))
	return &ast.BlockStmt{List: out}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var out []ast.Stmt
	builtin := false
	if i, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		_, builtin = r.info.Uses[i].(*types.Builtin)
	}
	var newArgs []ast.Expr
	var typed []types.TypeAndValue
	for _, a := range c.Args {
		typed = append(typed, r.info.Types[a])
	}
	if !builtin {
		f := r.name("f")
		out = append(out, define(f, r.expr(c.Fun)))
		c.Fun = id(f)
	}
	for i, a := range c.Args {
		tv := typed[i]
		a = r.expr(a)
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			newArgs = append(newArgs, a)
			continue
		}
		v := r.name("a")
		out = append(out, define(v, a))
		newArgs = append(newArgs, id(v))
	}
	c.Args = newArgs
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	out = append(out, &ast.ExprStmt{X: call(r.rtf("Go"), fl)})
	return &ast.BlockStmt{List: out}
}
