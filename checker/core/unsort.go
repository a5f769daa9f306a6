package core

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/types/typeutil"
)

// Loops over the sorted keys of a map,
//
//	for k := range m { ks = append(ks, k) }; sort.Strings(ks); for _, k := range ks { s }
//
// also where a function makes the list, become loops over the map, which go through the keys in some order: what
// holds for every order holds for the sorted one. The order itself is not what any of the loops is there for, as
// everything that is written out in order is sorted on its own.

// A keyList is a function that gives the sorted keys of a map: its only argument, or a field of its receiver.
type keyList struct {
	method bool
	fields string
}

// keyLists adds those of a package, by their full names.
func keyLists(q *packages.Package, fs map[string]keyList) {
	r := &rotated{q: q}
	for _, f := range q.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn, _ := q.TypesInfo.Defs[fd.Name].(*types.Func)
			args := fd.Type.Params
			if fd.Recv != nil {
				if args.NumFields() != 0 {
					continue
				}
				args = fd.Recv
			}
			if fn == nil || args.NumFields() != 1 || len(args.List[0].Names) != 1 {
				continue
			}
			of := q.TypesInfo.Defs[args.List[0].Names[0]]
			from := func(m ast.Expr) bool {
				p, x := fields(m)
				if x == nil || of == nil || r.object2(x) != of || (p == "") != (fd.Recv == nil) {
					return false
				}
				fs[fn.FullName()] = keyList{fd.Recv != nil, p}
				return true
			}
			list := fd.Body.List
			if len(list) == 0 {
				continue
			}
			ret, ok := list[len(list)-1].(*ast.ReturnStmt)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			if m := r.library(ret.Results[0]); m != nil && len(list) == 1 {
				from(m)
				continue
			}
			x := r.object2(ret.Results[0])
			if x == nil || len(list) < 3 {
				continue
			}
			stage := 0
			var m ast.Expr
			for _, s := range list[:len(list)-1] {
				switch {
				case stage == 0 && r.makes(s, x):
					stage = 1
				case stage == 1 && r.collected(s, x) != nil:
					stage, m = 2, r.collected(s, x)
				case stage == 2 && r.sorts(s, x):
					stage = 3
				default:
					stage = -1
				}
			}
			if stage == 3 {
				from(m)
			}
		}
	}
}

// fields splits x.a.b into ".a.b" and x.
func fields(e ast.Expr) (string, ast.Expr) {
	p := ""
	for {
		s, ok := ast.Unparen(e).(*ast.SelectorExpr)
		if !ok {
			return p, e
		}
		e, p = s.X, "."+s.Sel.Name+p
	}
}

// library gives m for slices.Sorted(maps.Keys(m)).
func (r *rotated) library(e ast.Expr) ast.Expr {
	for _, n := range []string{"slices.Sorted", "maps.Keys"} {
		c, ok := ast.Unparen(e).(*ast.CallExpr)
		if !ok || len(c.Args) != 1 || c.Ellipsis.IsValid() {
			return nil
		}
		if o := typeutil.StaticCallee(r.q.TypesInfo, c); o == nil || o.FullName() != n {
			return nil
		}
		e = c.Args[0]
	}
	return e
}

// listed is the text of the map whose sorted keys an expression gives.
func (r *rotated) listed(e ast.Expr) string {
	if m := r.library(e); m != nil {
		if steady(m) {
			return r.text(m)
		}
		return ""
	}
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok {
		return ""
	}
	o := typeutil.StaticCallee(r.q.TypesInfo, c)
	if o == nil {
		return ""
	}
	k, ok := r.keys[o.Origin().FullName()]
	if !ok {
		return ""
	}
	if k.method {
		if s, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok && steady(s.X) && o.Pkg() == r.q.Types {
			return r.text(s.X) + k.fields
		}
		return ""
	}
	if len(c.Args) == 1 && steady(c.Args[0]) {
		return r.text(c.Args[0])
	}
	return ""
}

func (r *rotated) object2(e ast.Expr) types.Object {
	if i, ok := ast.Unparen(e).(*ast.Ident); ok {
		return r.object(i)
	}
	return nil
}

// makes tells whether a statement declares an empty list.
func (r *rotated) makes(s ast.Stmt, x types.Object) bool {
	switch s := s.(type) {
	case *ast.DeclStmt:
		g, ok := s.Decl.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR || len(g.Specs) != 1 {
			return false
		}
		v := g.Specs[0].(*ast.ValueSpec)
		return len(v.Names) == 1 && len(v.Values) == 0 && r.q.TypesInfo.Defs[v.Names[0]] == x
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 || r.object2(s.Lhs[0]) != x {
			return false
		}
		switch v := s.Rhs[0].(type) {
		case *ast.CompositeLit:
			return len(v.Elts) == 0
		case *ast.CallExpr:
			if f, ok := v.Fun.(*ast.Ident); !ok || f.Name != "make" || len(v.Args) < 2 {
				return false
			}
			tv := r.q.TypesInfo.Types[v.Args[1]]
			return tv.Value != nil && tv.Value.String() == "0"
		}
	}
	return false
}

// collected gives the map every key of which a statement adds to a list.
func (r *rotated) collected(s ast.Stmt, x types.Object) ast.Expr {
	l, ok := s.(*ast.RangeStmt)
	if !ok || l.Tok != token.DEFINE || l.Value != nil && !blank(l.Value) || l.Key == nil || len(l.Body.List) != 1 {
		return nil
	}
	if t := r.q.TypesInfo.TypeOf(l.X); t == nil {
		return nil
	} else if _, ok := t.Underlying().(*types.Map); !ok {
		return nil
	}
	a, ok := l.Body.List[0].(*ast.AssignStmt)
	if !ok || a.Tok != token.ASSIGN || len(a.Lhs) != 1 || len(a.Rhs) != 1 || r.object2(a.Lhs[0]) != x {
		return nil
	}
	c, ok := a.Rhs[0].(*ast.CallExpr)
	if !ok || len(c.Args) != 2 || c.Ellipsis.IsValid() || r.object2(c.Args[0]) != x || r.object2(c.Args[1]) != r.object2(l.Key) || r.object2(l.Key) == nil {
		return nil
	}
	if f, ok := c.Fun.(*ast.Ident); !ok || f.Name != "append" {
		return nil
	}
	return l.X
}

// sorts tells whether a statement sorts a list.
func (r *rotated) sorts(s ast.Stmt, x types.Object) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok || len(c.Args) == 0 || r.object2(c.Args[0]) != x {
		return false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	o := r.q.TypesInfo.Uses[f.Sel]
	if o == nil || o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() + "." + o.Name() {
	case "sort.Strings", "slices.Sort", "sort.Slice", "slices.SortFunc", "sort.SliceStable", "slices.SortStableFunc":
		return true
	}
	return false
}

func blank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

// steady tells whether an expression is a variable or a field of one.
func steady(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return steady(e.X)
	}
	return false
}

// changes tells whether a statement changes a map or which one it is.
func (r *rotated) changes(s ast.Stmt, m string) (yes bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if i, ok := l.(*ast.IndexExpr); ok {
					l = i.X
				}
				if t := r.text(l); t == m || strings.HasPrefix(m, t+".") {
					yes = true
				}
			}
		case *ast.CallExpr:
			if f, ok := n.Fun.(*ast.Ident); ok && (f.Name == "delete" || f.Name == "clear") && len(n.Args) > 0 && r.text(n.Args[0]) == m {
				yes = true
			}
		}
		return true
	})
	return
}

// unsort rewrites the loops over sorted keys in a list of statements.
func (r *rotated) unsort(list []ast.Stmt) {
	for k, s := range list {
		l, ok := s.(*ast.RangeStmt)
		if !ok || l.Tok != token.DEFINE || l.Value == nil || l.Key == nil || !blank(l.Key) {
			continue
		}
		// the list is made by a function
		if m := r.listed(l.X); m != "" {
			if !r.changes(l, m) {
				r.edits = append(r.edits, edit{r.off(l.Key.Pos()), r.off(l.X.End()), fmt.Sprintf("%s := range %s", r.text(l.Value), m)})
			}
			continue
		}
		x := r.object2(l.X)
		if x == nil {
			continue
		}
		mk, co, so := -1, -1, -1
		var mt string
		for i, t := range list[:k] {
			switch {
			case mk < 0 && r.makes(t, x):
				mk = i
			case mk >= 0 && co < 0 && r.collected(t, x) != nil:
				co = i
				if m := r.collected(t, x); steady(m) {
					mt = r.text(m)
				}
			case co >= 0 && so < 0 && r.sorts(t, x):
				so = i
			}
		}
		if so < 0 && mk >= 0 && co < 0 {
			continue
		}
		if mk < 0 || co < 0 {
			// names := sortedKeys(m)
			for i, t := range list[:k] {
				a, ok := t.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 || r.object2(a.Lhs[0]) != x {
					continue
				}
				if m := r.listed(a.Rhs[0]); m != "" {
					mk, mt = i, m
				}
			}
		}
		if mt == "" {
			continue
		}
		good := true
		for _, t := range list[mk : k+1] {
			if r.changes(t, mt) {
				good = false
			}
		}
		// no other uses but the length
		var lens []*ast.CallExpr
		for i, t := range list {
			if i == mk || i == co || i == so {
				continue
			}
			seen := map[*ast.Ident]bool{}
			if i == k {
				if id, ok := ast.Unparen(l.X).(*ast.Ident); ok {
					seen[id] = true
				}
			}
			ast.Inspect(t, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CallExpr:
					if f, ok := n.Fun.(*ast.Ident); ok && f.Name == "len" && len(n.Args) == 1 && r.object2(n.Args[0]) == x {
						lens = append(lens, n)
						return false
					}
				case *ast.Ident:
					if !seen[n] && r.object(n) == x {
						good = false
					}
				}
				return true
			})
		}
		if !good {
			continue
		}
		for _, i := range []int{mk, co, so} {
			if i >= 0 {
				r.edits = append(r.edits, edit{r.off(list[i].Pos()), r.off(list[i].End()), ""})
			}
		}
		for _, n := range lens {
			r.edits = append(r.edits, edit{r.off(n.Args[0].Pos()), r.off(n.Args[0].End()), mt})
		}
		r.edits = append(r.edits, edit{r.off(l.Key.Pos()), r.off(l.X.End()), fmt.Sprintf("%s := range %s", r.text(l.Value), mt)})
	}
}

// imports keeps the imports that only what is taken out used.
func (r *rotated) imports() {
	if len(r.edits) == 0 {
		return
	}
	used := map[types.Object]bool{}
	ast.Inspect(r.f, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if pn, ok := r.q.TypesInfo.Uses[i].(*types.PkgName); ok {
				at := r.off(i.Pos())
				for _, e := range r.edits {
					if e.from <= at && at < e.to {
						return true
					}
				}
				used[pn] = true
			}
		}
		return true
	})
	for _, i := range r.f.Imports {
		pn := r.q.TypesInfo.PkgNameOf(i)
		if pn == nil || pn.Name() == "_" || pn.Name() == "." || used[pn] {
			continue
		}
		r.edits = append(r.edits, edit{r.off(i.Pos()), r.off(i.End()), "_ " + i.Path.Value})
	}
}
