package rules

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"
	"text/template"
	"text/template/parse"
)

func init() {
	All["C15"] = Check{Spec: true, Run: runC15, Explain: "The loading of the templates is interpreted with the patterns and embedded file systems of the source, for both variants. Every template that can be reached from one that is executed is type-checked, on all branches, against the Go types of the data and the functions that are loaded; and all templates are expanded over the abstract memory of shapes of suite and configuration (core/spec/family.go.txt).",
		Assume: []string{familyShapes, "text/template and embed work as documented"}}
}

func runC15(c *Ctx) {
	r := c.R
	r.Rule("loads", "each template that is executed is in the set that was loaded, and all files of the set parse")
	r.Rule("expands", "the templates expand without an error")
	r.Rule("types", "on every branch, the templates, functions, fields and methods that are named exist and have types that fit")
	r.Rule("precedence", "a template that a variant and the base both define is the variant's, and no other variant's files are loaded")
	r.Rule("variants", "the templates of the variant are those that are used")
	ms, cover := c.family()
	checked := map[string]bool{}
	for _, m := range ms {
		if m.err != "" {
			r.Undecided("expands", m.Name, "", "what is generated cannot be told: %s", m.err)
			continue
		}
		for _, f := range m.files {
			if f.Err != "" {
				rule := "expands"
				if f.Set == nil {
					rule = "loads"
				}
				at, msg, ok := strings.Cut(f.Err, ": ")
				if !ok {
					at, msg = f.Pos, f.Err
				}
				r.Bad(rule, path.Base(f.Path)+" "+at, at, "%s (shape %s)", msg, m.Name)
				continue
			}
			if f.Set == nil {
				continue
			}
			r.OK("loads", m.Name+" "+f.Path)
			r.OK("expands", m.Name+" "+f.Path)
			k := m.Variant + " " + f.Name + " " + path.Base(f.Path)
			if checked[k] {
				continue
			}
			checked[k] = true
			c.precedence(m, f)
			t := &typer{c: c, set: f.Set, done: map[string]bool{}}
			t.template(f.Name, f.Data.typ)
			for _, e := range t.errs {
				at, msg, _ := strings.Cut(e, ": ")
				r.Bad("types", at, at, "%s (in %s of %s)", msg, path.Base(f.Path), m.Variant)
			}
			for i := 0; i < t.n; i++ {
				r.OK("types", f.Name)
			}
			r.Count("templates type-checked", len(t.done))
		}
	}
	r.Count("shapes of suite, configuration and variant", len(ms))
	var gaps []string
	for k, w := range cover {
		if !(w["true"] && w["false"] || w["some"] || w["one"]) {
			var ws []string
			for x := range w {
				ws = append(ws, x)
			}
			gaps = append(gaps, k+" only "+strings.Join(ws, ","))
		}
	}
	sort.Strings(gaps)
	r.Count("branches and loops expanded", len(cover))
	if len(gaps) > 0 {
		r.Notes = append(r.Notes, "not taken both ways by the shapes (type-checked only): "+strings.Join(gaps, "; "))
	}
}

// precedence checks which file each template of a set comes from.
func (c *Ctx) precedence(m *member, f *genFile) {
	r := c.R
	v := strings.ToLower(m.Variant)
	hasDir := func(p, d string) bool {
		for _, e := range strings.Split(path.Dir(p), "/") {
			if e == d {
				return true
			}
		}
		return false
	}
	defs := map[string][]string{} // template -> files that define it
	variantFiles := false
	for name, files := range f.Set.defs {
		for _, x := range files {
			for _, o := range familyVariants {
				if o = strings.ToLower(o); o != v && hasDir(x, o) {
					r.Bad("precedence", x, x, "templates of variant %s are loaded for %s", o, v)
				}
			}
			if hasDir(x, v) {
				variantFiles = true
			}
		}
		defs[name] = files
	}
	if !variantFiles {
		return
	}
	var names []string
	for n := range defs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		mine, base := "", ""
		for _, x := range defs[n] {
			if hasDir(x, v) {
				mine = x
			} else {
				base = x
			}
		}
		if mine == "" || base == "" {
			continue
		}
		r.Check(hasDir(f.Set.from[n], v), "precedence", v+" "+n, mine, "template %q of %s is not used; that of %s is", n, mine, f.Set.from[n])
	}
	r.Check(hasDir(f.Set.from[f.Name], v), "variants", v+" "+f.Name, "", "%s is made from %s, not from a template of the variant", path.Base(f.Path), f.Set.from[f.Name])
}

// typer type-checks templates. A nil type is not known.
type typer struct {
	c    *Ctx
	set  *tmplSet
	done map[string]bool
	errs []string
	tree *parse.Tree
	vars []typedVar
	n    int
}

type typedVar struct {
	name string
	typ  types.Type
}

type typeErr struct{}

func (t *typer) at(n parse.Node) string {
	loc, _ := t.tree.ErrorContext(n)
	p := strings.Split(loc, ":")
	f := p[0]
	if g := t.set.src[f]; g != "" {
		f = g
	}
	if len(p) > 1 {
		f += ":" + p[1]
	}
	return f
}

func (t *typer) bad(n parse.Node, format string, a ...any) {
	e := t.at(n) + ": " + fmt.Sprintf(format, a...)
	for _, x := range t.errs {
		if x == e {
			panic(typeErr{})
		}
	}
	t.errs = append(t.errs, e)
	panic(typeErr{})
}

// try goes on after an error.
func (t *typer) try(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(typeErr); !ok {
				panic(x)
			}
		}
	}()
	f()
}

func (t *typer) template(name string, dot types.Type) {
	key := name + " " + fmt.Sprint(dot)
	if t.done[key] {
		return
	}
	t.done[key] = true
	x := t.set.tmpl.Lookup(name)
	if x == nil || x.Tree == nil {
		if t.tree == nil {
			t.errs = append(t.errs, name+": template is not defined")
		}
		return
	}
	old, vars := t.tree, t.vars
	t.tree, t.vars = x.Tree, []typedVar{{"$", dot}}
	t.list(dot, x.Tree.Root)
	t.tree, t.vars = old, vars
}

func (t *typer) list(dot types.Type, l *parse.ListNode) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		t.try(func() { t.walk(dot, n) })
	}
}

func (t *typer) scope(f func()) {
	k := len(t.vars)
	defer func() { t.vars = t.vars[:k] }()
	f()
}

func (t *typer) walk(dot types.Type, n parse.Node) {
	switch n := n.(type) {
	case *parse.ActionNode:
		t.n++
		ty := t.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 && ty != nil {
			switch ty.Underlying().(type) {
			case *types.Signature, *types.Chan:
				t.bad(n, "can't print %s of type %s", n, typeStr(ty))
			}
		}
	case *parse.IfNode:
		t.n++
		t.scope(func() {
			t.try(func() { t.pipe(dot, n.Pipe) })
			t.scope(func() { t.list(dot, n.List) })
			t.scope(func() { t.list(dot, n.ElseList) })
		})
	case *parse.WithNode:
		t.n++
		t.scope(func() {
			var d types.Type
			t.try(func() { d = t.pipe(dot, n.Pipe) })
			t.scope(func() { t.list(unface(d), n.List) })
			t.scope(func() { t.list(dot, n.ElseList) })
		})
	case *parse.RangeNode:
		t.n++
		t.scope(func() {
			var k, e types.Type
			t.try(func() {
				d := deptr(t.pipe(dot, n.Pipe))
				if d == nil {
					return
				}
				switch u := d.Underlying().(type) {
				case *types.Slice:
					k, e = types.Typ[types.Int], u.Elem()
				case *types.Array:
					k, e = types.Typ[types.Int], u.Elem()
				case *types.Map:
					k, e = u.Key(), u.Elem()
				case *types.Basic:
					if u.Info()&types.IsInteger == 0 {
						t.bad(n, "range can't iterate over %s", typeStr(d))
					}
					k, e = d, d
				case *types.Signature, *types.Chan:
				default:
					t.bad(n, "range can't iterate over %s", typeStr(d))
				}
			})
			t.scope(func() { t.list(dot, n.ElseList) })
			switch d := n.Pipe.Decl; len(d) {
			case 1:
				t.set1(d[0].Ident[0], e, n.Pipe.IsAssign)
			case 2:
				t.set1(d[0].Ident[0], k, n.Pipe.IsAssign)
				t.set1(d[1].Ident[0], e, n.Pipe.IsAssign)
			}
			t.scope(func() { t.list(unface(e), n.List) })
		})
	case *parse.TemplateNode:
		t.n++
		x := t.set.tmpl.Lookup(n.Name)
		if x == nil || x.Tree == nil {
			t.bad(n, "template %q is not defined", n.Name)
		}
		if n.Pipe == nil {
			t.template(n.Name, untypedNil)
			return
		}
		t.template(n.Name, unface(t.pipe(dot, n.Pipe)))
	}
}

var untypedNil types.Type = types.Typ[types.UntypedNil]

// unface forgets interface types, whose dynamic type is not known.
func unface(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	return t
}

func deptr(t types.Type) types.Type {
	t = unface(t)
	for t != nil {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = unface(p.Elem())
	}
	return t
}

func (t *typer) set1(n string, ty types.Type, assign bool) {
	if assign {
		// what it holds after a loop is not followed
		for i := len(t.vars) - 1; i >= 0; i-- {
			if t.vars[i].name == n {
				if t.vars[i].typ == nil || ty == nil || !types.Identical(t.vars[i].typ, ty) {
					t.vars[i].typ = nil
				}
				return
			}
		}
		return
	}
	t.vars = append(t.vars, typedVar{n, ty})
}

func (t *typer) pipe(dot types.Type, p *parse.PipeNode) types.Type {
	var ty types.Type
	final := false
	for _, c := range p.Cmds {
		ty = t.command(dot, c, ty, final)
		final = true
	}
	for _, d := range p.Decl {
		t.set1(d.Ident[0], ty, p.IsAssign)
	}
	return ty
}

func (t *typer) variable(n parse.Node, name string) types.Type {
	for i := len(t.vars) - 1; i >= 0; i-- {
		if t.vars[i].name == name {
			return t.vars[i].typ
		}
	}
	t.bad(n, "undefined variable %s", name)
	return nil
}

func (t *typer) command(dot types.Type, c *parse.CommandNode, last types.Type, final bool) types.Type {
	switch n := c.Args[0].(type) {
	case *parse.FieldNode:
		return t.chain(dot, dot, n, n.Ident, c.Args[1:], last, final)
	case *parse.ChainNode:
		return t.chain(dot, t.arg(dot, n.Node), n, n.Field, c.Args[1:], last, final)
	case *parse.VariableNode:
		v := t.variable(n, n.Ident[0])
		if len(n.Ident) == 1 {
			break
		}
		return t.chain(dot, v, n, n.Ident[1:], c.Args[1:], last, final)
	case *parse.IdentifierNode:
		return t.function(dot, n, n.Ident, c.Args[1:], last, final)
	case *parse.PipeNode:
		return t.pipe(dot, n)
	}
	if len(c.Args) > 1 || final {
		t.bad(c, "can't give argument to non-function %s", c.Args[0])
	}
	return t.arg(dot, c.Args[0])
}

func (t *typer) arg(dot types.Type, n parse.Node) types.Type {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return untypedNil
	case *parse.FieldNode:
		return t.chain(dot, dot, n, n.Ident, nil, nil, false)
	case *parse.VariableNode:
		return t.chain(dot, t.variable(n, n.Ident[0]), n, n.Ident[1:], nil, nil, false)
	case *parse.PipeNode:
		return t.pipe(dot, n)
	case *parse.IdentifierNode:
		return t.function(dot, n, n.Ident, nil, nil, false)
	case *parse.ChainNode:
		return t.chain(dot, t.arg(dot, n.Node), n, n.Field, nil, nil, false)
	case *parse.BoolNode:
		return types.Typ[types.Bool]
	case *parse.StringNode:
		return types.Typ[types.UntypedString]
	case *parse.NumberNode:
		switch {
		case n.IsInt, n.IsUint:
			return types.Typ[types.UntypedInt]
		case n.IsFloat:
			return types.Typ[types.UntypedFloat]
		}
	}
	return nil
}

func (t *typer) chain(dot, v types.Type, at parse.Node, names []string, args []parse.Node, last types.Type, final bool) types.Type {
	if len(names) == 0 && (len(args) > 0 || final) {
		t.bad(at, "can't give arguments to a non-function")
	}
	for i, n := range names {
		if i == len(names)-1 {
			v = t.field(dot, v, at, n, args, last, final)
		} else {
			v = t.field(dot, v, at, n, nil, nil, false)
		}
	}
	return v
}

func (t *typer) field(dot, v types.Type, at parse.Node, name string, args []parse.Node, last types.Type, final bool) types.Type {
	v = unface(v)
	if v == nil {
		for _, a := range args {
			t.arg(dot, a)
		}
		return nil
	}
	if v == untypedNil {
		t.bad(at, "nil data; no entry for key %q", name)
	}
	recv := v
	if _, ok := v.Underlying().(*types.Pointer); !ok {
		// whether it is addressable is seen when it is expanded
		recv = types.NewPointer(v)
	}
	if sel := t.c.P.Prog.MethodSets.MethodSet(recv).Lookup(nil, name); sel != nil && exportedName(name) {
		return t.call(dot, at, name, sel.Obj().Type().(*types.Signature), args, last, final)
	}
	d := deptr(v)
	if d == nil {
		return nil
	}
	switch u := d.Underlying().(type) {
	case *types.Struct:
		obj, _, _ := types.LookupFieldOrMethod(d, true, nil, name)
		f, ok := obj.(*types.Var)
		if !ok || !f.Exported() {
			t.bad(at, "can't evaluate field %s in type %s", name, typeStr(d))
		}
		if len(args) > 0 || final {
			t.bad(at, "%s has arguments but cannot be invoked as function", name)
		}
		return f.Type()
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return u.Elem()
		}
	}
	t.bad(at, "can't evaluate field %s in type %s", name, typeStr(d))
	return nil
}

func (t *typer) function(dot types.Type, at parse.Node, name string, args []parse.Node, last types.Type, final bool) types.Type {
	if f, ok := t.set.funcs[name]; ok {
		return t.call(dot, at, name, f.val.Typ.Underlying().(*types.Signature), args, last, final)
	}
	var as []types.Type
	for _, a := range args {
		as = append(as, t.arg(dot, a))
	}
	if final {
		as = append(as, last)
	}
	want := func(lo, hi int) {
		if len(as) < lo || hi >= 0 && len(as) > hi {
			t.bad(at, "wrong number of args for %s: %d", name, len(as))
		}
	}
	switch name {
	case "and", "or":
		want(1, -1)
		for _, a := range as[1:] {
			if a == nil || as[0] == nil || !types.Identical(a, as[0]) {
				return nil
			}
		}
		return as[0]
	case "not":
		want(1, 1)
		return types.Typ[types.Bool]
	case "len":
		want(1, 1)
		if d := deptr(as[0]); d != nil {
			switch u := d.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Array, *types.Chan:
			case *types.Basic:
				if u.Info()&types.IsString == 0 {
					t.bad(at, "len of type %s", typeStr(d))
				}
			default:
				t.bad(at, "len of type %s", typeStr(d))
			}
		}
		return types.Typ[types.Int]
	case "index":
		want(1, -1)
		v := as[0]
		for _, k := range as[1:] {
			if v = deptr(v); v == nil {
				return nil
			}
			switch u := v.Underlying().(type) {
			case *types.Map:
				t.fits(at, "index", k, u.Key())
				v = u.Elem()
			case *types.Slice:
				t.integer(at, k)
				v = u.Elem()
			case *types.Array:
				t.integer(at, k)
				v = u.Elem()
			default:
				t.bad(at, "can't index item of type %s", typeStr(v))
			}
		}
		return v
	case "slice":
		want(1, 4)
		return as[0]
	case "eq":
		want(2, -1)
		for _, a := range as[1:] {
			t.comparable(at, name, as[0], a)
		}
		return types.Typ[types.Bool]
	case "ne", "lt", "le", "gt", "ge":
		want(2, 2)
		t.comparable(at, name, as[0], as[1])
		return types.Typ[types.Bool]
	case "print", "printf", "println", "html", "js", "urlquery":
		return types.Typ[types.String]
	case "call":
		return nil
	}
	t.bad(at, "function %q is not defined", name)
	return nil
}

// kind classes as in text/template's comparisons
func kindClass(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch i := b.Info(); {
		case i&types.IsBoolean != 0:
			return "bool"
		case i&types.IsInteger != 0:
			return "int"
		case i&types.IsFloat != 0:
			return "float"
		case i&types.IsString != 0:
			return "string"
		}
	}
	return ""
}

func (t *typer) comparable(at parse.Node, name string, a, b types.Type) {
	if a, b = unface(a), unface(b); a == nil || b == nil {
		return
	}
	if a == untypedNil || b == untypedNil {
		return
	}
	ka, kb := kindClass(a), kindClass(b)
	if name == "eq" || name == "ne" {
		if ka == kb && (ka != "" || types.Comparable(a) && types.Comparable(b)) {
			return
		}
	} else if ka == kb && ka != "" && ka != "bool" {
		return
	}
	t.bad(at, "%s cannot compare %s and %s", name, typeStr(a), typeStr(b))
}

func (t *typer) integer(at parse.Node, k types.Type) {
	if k = unface(k); k != nil && kindClass(k) != "int" {
		t.bad(at, "cannot index with type %s", typeStr(k))
	}
}

func (t *typer) fits(at parse.Node, name string, v, to types.Type) {
	if v == nil {
		return
	}
	if v == untypedNil {
		if !nilable(to) {
			t.bad(at, "nil given to %s", name)
		}
		return
	}
	if b, ok := v.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		if _, ok := to.Underlying().(*types.Interface); ok {
			return
		}
		kv, kt := kindClass(v), kindClass(to)
		if kv == kt || kv == "int" && kt == "float" {
			return
		}
	}
	if types.AssignableTo(v, to) {
		return
	}
	if _, ok := v.Underlying().(*types.Interface); ok {
		return // the dynamic type decides
	}
	if p, ok := v.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), to) {
		return
	}
	if types.AssignableTo(types.NewPointer(v), to) {
		return // if it is addressable
	}
	t.bad(at, "wrong type for value; %s expects %s, not %s", name, typeStr(to), typeStr(v))
}

func (t *typer) call(dot types.Type, at parse.Node, name string, sig *types.Signature, args []parse.Node, last types.Type, final bool) types.Type {
	var as []types.Type
	for _, a := range args {
		as = append(as, t.arg(dot, a))
	}
	if final {
		as = append(as, last)
	}
	np := sig.Params().Len()
	if sig.Variadic() && len(as) < np-1 || !sig.Variadic() && len(as) != np {
		t.bad(at, "wrong number of args for %s: want %d got %d", name, np, len(as))
	}
	for i, a := range as {
		if sig.Variadic() && i >= np-1 {
			t.fits(at, name, a, sig.Params().At(np-1).Type().(*types.Slice).Elem())
		} else {
			t.fits(at, name, a, sig.Params().At(i).Type())
		}
	}
	switch rs := sig.Results(); {
	case rs.Len() == 1, rs.Len() == 2 && types.Identical(rs.At(1).Type(), types.Universe.Lookup("error").Type()):
		return rs.At(0).Type()
	}
	t.bad(at, "can't call method/function %q with %d results", name, sig.Results().Len())
	return nil
}

// definitions lists the templates that a file defines, with a body or without.
func definitions(base, text string, funcs template.FuncMap) (names []string, err error) {
	x, err := template.New(base).Funcs(funcs).Parse(text)
	if err != nil {
		return nil, err
	}
	for _, y := range x.Templates() {
		if y.Name() == base && (y.Tree == nil || parse.IsEmptyTree(y.Tree.Root)) {
			continue
		}
		names = append(names, y.Name())
	}
	return names, nil
}
