package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Instrumentation of the implementation for schedule exploration: a copy of the current source in which every
// statement that may touch something shared is preceded by a scheduling point, read-modify-write statements are
// split, go statements start threads of the controlled scheduler, selects with several cases get a preferred
// case, and packages sync and os/signal are replaced by stand-ins under the scheduler's control. Nothing else
// changes. The copies reach the build through the overlay only.

const zz = "github.com/onsi/ginkgo/v2/internal/zzverif/"

// what is instrumented, per group: directories or files; a prologue per function
type target struct {
	Path     string            // file or directory in /repo
	Skip     string            // file names starting so are left as they are
	Prologue map[string]string // function -> statement
	Imports  map[string]string // further packages that are replaced
	Mute     map[string]bool   // functions that touch nothing shared
	Swap     map[string]string // nothing but these is replaced: a package, or path.Name of a package
}

func instrument(tmp string, rep map[string]string, targets []target) error {
	for _, t := range targets {
		p := filepath.Join(repo, t.Path)
		st, err := os.Stat(p)
		if err != nil {
			return err
		}
		files := []string{p}
		if st.IsDir() {
			files = nil
			es, err := os.ReadDir(p)
			if err != nil {
				return err
			}
			for _, e := range es {
				if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") && (t.Skip == "" || !strings.HasPrefix(e.Name(), t.Skip)) {
					files = append(files, filepath.Join(p, e.Name()))
				}
			}
		}
		for _, f := range files {
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			var out []byte
			if t.Swap != nil {
				if out, err = swap(f, src, t.Swap); out == nil && err == nil {
					continue
				}
			} else {
				out, err = instrumentFile(f, src, t)
			}
			if err != nil {
				return fmt.Errorf("%s: %v", f, err)
			}
			rel, _ := filepath.Rel(repo, f)
			dst := filepath.Join(tmp, "instr", strings.ReplaceAll(rel, "/", "__"))
			os.MkdirAll(filepath.Dir(dst), 0o755)
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return err
			}
			rep[f] = dst
		}
	}
	return nil
}

// swap has packages, or single functions of packages, replaced by stand-ins; lines stay where they are.
func swap(path string, src []byte, with map[string]string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		return nil, err
	}
	type edit struct {
		at, n int
		s     string
	}
	var edits []edit
	imports, tail := map[string]bool{}, ""
	for _, i := range f.Imports {
		ip, _ := strconv.Unquote(i.Path.Value)
		name := filepath.Base(ip)
		if i.Name != nil {
			name = i.Name.Name
		}
		if to, ok := with[ip]; ok {
			e := edit{fset.Position(i.Path.Pos()).Offset, len(i.Path.Value), strconv.Quote(zz + to)}
			if i.Name == nil {
				e.s = name + " " + e.s
			}
			edits = append(edits, e)
			continue
		}
		kept := false
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == name && x.Obj == nil {
					if to, ok := with[ip+"."+s.Sel.Name]; ok {
						imports[to] = true
						edits = append(edits, edit{fset.Position(x.Pos()).Offset, len(name), "zz" + to})
						if !kept {
							tail += "\nvar _ = " + name + "." + s.Sel.Name + "\n"
						}
						kept = true
					}
				}
			}
			return true
		})
	}
	if len(edits) == 0 {
		return nil, nil
	}
	imp := ""
	for to := range imports {
		imp += "; import zz" + to + " " + strconv.Quote(zz+to)
	}
	edits = append(edits, edit{fset.Position(f.Name.End()).Offset, 0, imp})
	sort.Slice(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
	out := string(src)
	for _, e := range edits {
		out = out[:e.at] + e.s + out[e.at+e.n:]
	}
	return []byte(out + tail), nil
}

type instr struct {
	fset     *token.FileSet
	name     string
	n        int // for fresh names
	used     bool
	prologue map[string]string
}

func instrumentFile(path string, src []byte, t target) ([]byte, error) {
	in := &instr{fset: token.NewFileSet(), name: filepath.Base(path), prologue: t.Prologue}
	f, err := parser.ParseFile(in.fset, path, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	repl := map[string]string{"sync": "vsync", "os/signal": "vsignal"}
	for from, to := range t.Imports {
		repl[from] = to
	}
	for _, i := range f.Imports {
		for from, to := range repl {
			if i.Path.Value == strconv.Quote(from) {
				i.Path.Value = strconv.Quote(zz + to)
				if i.Name == nil {
					i.Name = ast.NewIdent(filepath.Base(from))
				}
			}
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil || t.Mute[d.Name.Name] {
				continue
			}
			in.expr(d.Type)
			d.Body.List = in.list(d.Body.List)
			if p, ok := t.Prologue[d.Name.Name]; ok {
				e, err := parser.ParseExpr("func() {" + p + "}")
				if err != nil {
					return nil, err
				}
				d.Body.List = append(e.(*ast.FuncLit).Body.List, d.Body.List...)
			}
		case *ast.GenDecl:
			in.expr(d)
		}
	}
	if in.used {
		// first declaration: the import
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzvsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zz + "vsched")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	var buf bytes.Buffer
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
			buf.WriteString(l + "\n\n")
		}
	}
	f.Comments = nil

	if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func (in *instr) site(n ast.Node) ast.Expr {
	p := in.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", in.name, p.Line))}
}

func (in *instr) call(fn string, args ...ast.Expr) *ast.CallExpr {
	in.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvsched"), Sel: ast.NewIdent(fn)}, Args: args}
}

func (in *instr) point(n ast.Node) ast.Stmt {
	return &ast.ExprStmt{X: in.call("P", in.site(n))}
}

func (in *instr) fresh() *ast.Ident {
	in.n++
	return ast.NewIdent(fmt.Sprintf("zzv%d", in.n))
}

// shared says whether a piece of code may touch anything but local variables.
func shared(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.CallExpr, *ast.StarExpr, *ast.SendStmt, *ast.CommClause:
			found = true
		case *ast.UnaryExpr:
			found = found || x.Op == token.ARROW
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt: // (the statements in it have their own points)
			return false
		}
		return !found
	})
	return found
}

// funcs instruments the function literals within an expression or declaration.
func (in *instr) expr(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			fl.Body.List = in.list(fl.Body.List)
			return false
		}
		return true
	})
}

func (in *instr) list(ss []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range ss {
		out = append(out, in.stmt(s)...)
	}
	return out
}

func (in *instr) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.list(b.List)
	}
}

// stmt returns what stands for s.
func (in *instr) stmt(s ast.Stmt) []ast.Stmt {
	var pre []ast.Stmt
	switch s.(type) {
	case *ast.BlockStmt, *ast.LabeledStmt, *ast.EmptyStmt, *ast.BranchStmt:
	default:
		if shared(s) {
			pre = []ast.Stmt{in.point(s)}
		}
	}
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.block(s)
	case *ast.IfStmt:
		in.simple(s.Init)
		in.expr(s.Cond)
		in.block(s.Body)
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			in.block(e)
		case *ast.IfStmt:
			r := in.stmt(e)
			if len(r) == 1 {
				s.Else = r[0]
			} else {
				s.Else = &ast.BlockStmt{List: r}
			}
		}
	case *ast.ForStmt:
		in.simple(s.Init)
		in.simple(s.Post)
		var again ast.Stmt
		if s.Cond != nil {
			in.expr(s.Cond)
			if shared(s.Cond) {
				again = in.point(s)
			}
		}
		in.block(s.Body)
		if again != nil {
			s.Body.List = append(s.Body.List, again)
		}
	case *ast.RangeStmt:
		in.expr(s.X)
		in.block(s.Body)
	case *ast.SwitchStmt:
		in.simple(s.Init)
		if s.Tag != nil {
			in.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				in.expr(e)
			}
			cc.Body = in.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		in.simple(s.Init)
		in.simple(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.list(cc.Body)
		}
	case *ast.SelectStmt:
		return append(pre, in.sel(s))
	case *ast.LabeledStmt:
		r := in.stmt(s.Stmt)
		s.Stmt = r[len(r)-1]
		return append(r[:len(r)-1], s)
	case *ast.GoStmt:
		return append(pre, in.goStmt(s))
	case *ast.DeferStmt:
		in.simple(s)
	case *ast.IncDecStmt:
		if shared(s.X) && !hasCall(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return append(pre, in.split(s, s.X, &ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}))
		}
		in.simple(s)
	case *ast.AssignStmt:
		in.simple(s)
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && shared(s.Lhs[0]) && !hasCall(s.Lhs[0]) {
			if op, ok := assignOps[s.Tok]; ok {
				return append(pre, in.split(s, s.Lhs[0], &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}))
			}
			if s.Tok == token.ASSIGN && strings.Contains(in.text(s.Rhs[0]), in.text(s.Lhs[0])) {
				return append(pre, in.split(s, s.Lhs[0], s.Rhs[0]))
			}
		}
	default:
		in.simple(s)
	}
	return append(pre, s)
}

// simple instruments the function literals in a statement that is not taken apart.
func (in *instr) simple(s ast.Stmt) {
	if s != nil {
		in.expr(s)
	}
}

var assignOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.MUL_ASSIGN: token.MUL, token.XOR_ASSIGN: token.XOR}

func (in *instr) text(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, in.fset, n)
	return b.String()
}

func hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(*ast.CallExpr); ok {
			found = true
		}
		return !found
	})
	return found
}

// split is { v := rhs; P; lhs = v }.
func (in *instr) split(at ast.Node, lhs, rhs ast.Expr) ast.Stmt {
	v := in.fresh()
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}},
		in.point(at),
		&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
	}}
}

// goStmt evaluates function and arguments, and starts a thread.
func (in *instr) goStmt(s *ast.GoStmt) ast.Stmt {
	in.expr(s.Call)
	var list []ast.Stmt
	c := *s.Call
	if _, ok := c.Fun.(*ast.FuncLit); !ok {
		// (a method value or function is evaluated now)
		v := in.fresh()
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Fun}})
		c.Fun = v
	}
	c.Args = append([]ast.Expr{}, c.Args...)
	for i, a := range c.Args {
		switch x := a.(type) {
		case *ast.BasicLit:
			continue
		case *ast.Ident:
			if x.Name == "nil" {
				continue
			}
		}
		v := in.fresh()
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		c.Args[i] = v
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &c}}}}
	list = append(list, &ast.ExprStmt{X: in.call("Go", in.site(s), body)})
	return &ast.BlockStmt{List: list}
}

// sel makes the choice of a select with several cases a choice of the explorer's: Pref says where to start trying them.
// switch Pref(n) { case 0: select { case A: a; default: select { case B: b; default: ... select {all} } } ... default: select {all} }
func (in *instr) sel(s *ast.SelectStmt) ast.Stmt {
	var comm []*ast.CommClause
	hasDefault, labels := false, false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
		} else {
			comm = append(comm, cc)
			in.simple(cc.Comm)
		}
		cc.Body = in.list(cc.Body)
		for _, b := range cc.Body {
			ast.Inspect(b, func(x ast.Node) bool {
				if _, ok := x.(*ast.LabeledStmt); ok {
					labels = true
				}
				return true
			})
		}
	}
	if len(comm) < 2 || labels {
		return s
	}
	_ = hasDefault
	sw := &ast.SwitchStmt{Tag: in.call("Pref", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(comm))}), Body: &ast.BlockStmt{}}
	for i := range comm {
		var inner ast.Stmt = s
		for j := len(comm) - 1; j >= 0; j-- {
			inner = &ast.SelectStmt{Body: &ast.BlockStmt{List: []ast.Stmt{comm[(i+j)%len(comm)], &ast.CommClause{Body: []ast.Stmt{inner}}}}}
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}, Body: []ast.Stmt{inner}})
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{s}})
	return sw
}
