package core

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// unrotate rewrites, in memory, loops that read ahead: those whose last step is what was done before their first one.
//
//	x := f(); for c { s; x = f() }		for x := f(); c; x = f() { s }
//
// become loops that read at the start of each iteration,
//
//	for { x = f(); if !c { break }; s }
//
// which do the same and are what the analyses know. It returns the new contents of the files with such loops.
func unrotate(pkgs []*packages.Package, overlay map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	keys := map[string]keyList{}
	for _, q := range pkgs {
		if !IsSpec(q.PkgPath) && q.TypesInfo != nil {
			keyLists(q, keys)
		}
	}
	for _, q := range pkgs {
		if IsSpec(q.PkgPath) || q.TypesInfo == nil {
			continue
		}
		for _, f := range q.Syntax {
			name := q.Fset.Position(f.Pos()).Filename
			src := overlay[name]
			if src == nil {
				var err error
				if src, err = os.ReadFile(name); err != nil {
					continue
				}
			}
			r := &rotated{q: q, f: f, src: src, keys: keys}
			ast.Inspect(f, r.visit)
			if len(r.edits) > 0 {
				out[name] = r.apply()
			}
		}
	}
	return out
}

type edit struct {
	from, to int
	text     string
}

type rotated struct {
	q     *packages.Package
	f     *ast.File
	src   []byte
	edits []edit
	keys  map[string]keyList // functions that list the keys of a map
}

func (r *rotated) off(p token.Pos) int { return r.q.Fset.Position(p).Offset }

func (r *rotated) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rotated) apply() []byte {
	r.imports()
	sort.Slice(r.edits, func(i, j int) bool { return r.edits[i].from < r.edits[j].from })
	var b bytes.Buffer
	at := 0
	for _, e := range r.edits {
		if e.from < at { // overlapping edits: leave all as it is
			return r.src
		}
		b.Write(r.src[at:e.from])
		b.WriteString(e.text)
		// keep the line numbers
		b.WriteString(strings.Repeat("\n", strings.Count(string(r.src[e.from:e.to]), "\n")-strings.Count(e.text, "\n")))
		at = e.to
	}
	b.Write(r.src[at:])
	return b.Bytes()
}

func (r *rotated) visit(n ast.Node) bool {
	if n, ok := n.(*ast.ForStmt); ok {
		r.clauses(n)
	}
	var list []ast.Stmt
	switch n := n.(type) {
	case *ast.BlockStmt:
		list = n.List
	case *ast.CaseClause:
		list = n.Body
	}
	r.unsort(list)
	for i := 1; i < len(list); i++ {
		if l, ok := list[i].(*ast.ForStmt); ok {
			r.before(list[i-1], l)
		}
	}
	return true
}

// reads tells whether two statements assign the results of the same call to the same variables.
func (r *rotated) reads(a, b ast.Stmt) (x, y *ast.AssignStmt, ok bool) {
	x, ok1 := a.(*ast.AssignStmt)
	y, ok2 := b.(*ast.AssignStmt)
	if !ok1 || !ok2 || len(x.Rhs) != 1 || len(y.Rhs) != 1 || len(x.Lhs) != len(y.Lhs) || y.Tok != token.ASSIGN || x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		return
	}
	if _, call := x.Rhs[0].(*ast.CallExpr); !call || r.text(x.Rhs[0]) != r.text(y.Rhs[0]) {
		return
	}
	mine := map[string]bool{}
	for i := range x.Lhs {
		p, ok1 := x.Lhs[i].(*ast.Ident)
		q, ok2 := y.Lhs[i].(*ast.Ident)
		if !ok1 || !ok2 || p.Name != q.Name || p.Name != "_" && r.object(p) != r.object(q) {
			return
		}
		mine[p.Name] = true
	}
	// what is called must not depend on what is assigned, and be the same in both places
	var xs, ys []types.Object
	for k, s := range []ast.Expr{x.Rhs[0], y.Rhs[0]} {
		good := true
		ast.Inspect(s, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				if o := r.object(n); o != nil {
					if v, ok := o.(*types.Var); ok && mine[n.Name] && !v.IsField() {
						good = false
					}
					if k == 0 {
						xs = append(xs, o)
					} else {
						ys = append(ys, o)
					}
				}
			case *ast.FuncLit:
				good = false
			}
			return true
		})
		if !good {
			return
		}
	}
	if len(xs) != len(ys) {
		return
	}
	for i := range xs {
		if xs[i] != ys[i] {
			return
		}
	}
	return x, y, true
}

func (r *rotated) object(i *ast.Ident) types.Object {
	if o := r.q.TypesInfo.Defs[i]; o != nil {
		return o
	}
	return r.q.TypesInfo.Uses[i]
}

// clauses is for loops with the call in their clauses.
func (r *rotated) clauses(l *ast.ForStmt) {
	if l.Init == nil || l.Post == nil || l.Cond == nil {
		return
	}
	if _, _, ok := r.reads(l.Init, l.Post); !ok {
		return
	}
	r.edits = append(r.edits, edit{r.off(l.For), r.off(l.Body.Lbrace) + 1,
		fmt.Sprintf("for { %s; if !(%s) { break }; ", r.text(l.Init), r.text(l.Cond))})
}

// before is for loops with the call before them and at their end.
func (r *rotated) before(first ast.Stmt, l *ast.ForStmt) {
	if l.Init != nil || l.Post != nil || l.Cond == nil || len(l.Body.List) == 0 || continues(l.Body) {
		return
	}
	x, y, ok := r.reads(first, l.Body.List[len(l.Body.List)-1])
	if !ok {
		return
	}
	decl := ""
	if x.Tok == token.DEFINE {
		for _, v := range x.Lhs {
			o := r.q.TypesInfo.Defs[v.(*ast.Ident)]
			if o == nil {
				continue // there already, or blank
			}
			bad := false
			t := types.TypeString(o.Type(), func(p *types.Package) string {
				if p == r.q.Types {
					return ""
				}
				for _, i := range r.f.Imports {
					if pn := r.q.TypesInfo.PkgNameOf(i); pn != nil && pn.Imported().Path() == p.Path() && pn.Name() != "." && pn.Name() != "_" {
						return pn.Name()
					}
				}
				bad = true
				return p.Name()
			})
			if bad {
				return
			}
			decl += "var " + o.Name() + " " + t + "; "
		}
	}
	var ls []string
	for _, v := range x.Lhs {
		ls = append(ls, v.(*ast.Ident).Name)
	}
	r.edits = append(r.edits,
		edit{r.off(x.Pos()), r.off(x.End()), decl},
		edit{r.off(l.For), r.off(l.Body.Lbrace) + 1, fmt.Sprintf("for { %s = %s; if !(%s) { break }; ", strings.Join(ls, ", "), r.text(x.Rhs[0]), r.text(l.Cond))},
		edit{r.off(y.Pos()), r.off(y.End()), ""})
}

// continues tells whether a loop body has continue statements that may be for its loop.
func continues(b *ast.BlockStmt) (yes bool) {
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE || n.Tok == token.GOTO {
				yes = true
			}
		case *ast.ForStmt, *ast.RangeStmt:
			ast.Inspect(n, func(m ast.Node) bool {
				if s, ok := m.(*ast.BranchStmt); ok && s.Label != nil {
					yes = true
				}
				return true
			})
			return false
		case *ast.FuncLit:
			return false
		}
		return true
	}
	ast.Inspect(b, visit)
	return
}
