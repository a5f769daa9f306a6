package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"verif/checker/absint"
)

// The expander gives the text that a template makes of abstract memory. Fields are read from the memory, methods and
// functions are interpreted, lists and maps have known shapes. Symbolic names appear in the text as their samples.

type tval struct {
	t    *T
	typ  types.Type
	addr *T // address, if the value is addressable
	num  constant.Value
}

type seg struct {
	text, file string
	line       int
}

type tmplErr struct{ at, msg string }

type expander struct {
	c     *Ctx
	in    *absint.Interp
	st    *absint.State
	set   *tmplSet
	r     *renderer
	segs  []seg
	tree  *parse.Tree
	node  parse.Node
	vars  []tvar
	depth int
	cover map[string]map[string]bool
}

type tvar struct {
	name string
	v    tval
}

type loopCtl string

// expand executes a template of a set.
func (c *Ctx) expand(in *absint.Interp, st *absint.State, set *tmplSet, name string, data tval, cover map[string]map[string]bool) (segs []seg, err error) {
	x := &expander{c: c, in: in, st: st.Clone(), set: set, r: &renderer{in}, cover: cover}
	defer func() {
		segs = x.segs
		switch r := recover().(type) {
		case nil:
		case tmplErr:
			err = fmt.Errorf("%s: %s", r.at, r.msg)
		case absint.Fail:
			err = fmt.Errorf("%s: %s", x.at(), r.Msg)
		default:
			if os.Getenv("CHECKER_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("%s: analysis crashed: %v", x.at(), r)
		}
	}()
	x.template(name, x.indirectIface(data))
	return x.segs, nil
}

func (x *expander) at() string {
	if x.tree == nil || x.node == nil {
		return ""
	}
	f, l := x.where(x.node)
	return fmt.Sprintf("%s:%d", f, l)
}

func (x *expander) where(n parse.Node) (file string, line int) {
	loc, _ := x.tree.ErrorContext(n)
	p := strings.Split(loc, ":")
	file = p[0]
	if f := x.set.src[file]; f != "" {
		file = f
	}
	if len(p) > 1 {
		line, _ = strconv.Atoi(p[1])
	}
	return
}

func (x *expander) fail(format string, a ...any) { panic(tmplErr{x.at(), fmt.Sprintf(format, a...)}) }

func (x *expander) mark(what string) {
	f, l := x.where(x.node)
	k := fmt.Sprintf("%s:%d.%d", f, l, int(x.node.Position()))
	if x.cover[k] == nil {
		x.cover[k] = map[string]bool{}
	}
	x.cover[k][what] = true
}

func (x *expander) emit(s string) {
	f, l := x.where(x.node)
	x.segs = append(x.segs, seg{s, f, l})
}

func (x *expander) template(name string, dot tval) {
	t := x.set.tmpl.Lookup(name)
	if t == nil || t.Tree == nil {
		x.fail("template %q is not defined", name)
	}
	if x.depth++; x.depth > 200 {
		x.fail("templates nest too deep")
	}
	old, oldVars := x.tree, x.vars
	x.tree = t.Tree
	x.vars = []tvar{{"$", dot}}
	x.walk(dot, t.Tree.Root)
	x.tree, x.vars = old, oldVars
	x.depth--
}

func (x *expander) walk(dot tval, n parse.Node) loopCtl {
	x.node = n
	switch n := n.(type) {
	case *parse.ListNode:
		if n == nil {
			return ""
		}
		for _, m := range n.Nodes {
			if c := x.walk(dot, m); c != "" {
				return c
			}
		}
	case *parse.TextNode:
		x.emit(string(n.Text))
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := x.pipe(dot, n.Pipe)
		x.node = n
		if len(n.Pipe.Decl) == 0 {
			x.emit(x.print(v))
		}
	case *parse.IfNode:
		return x.cond(dot, n.Pipe, n.List, n.ElseList, false)
	case *parse.WithNode:
		return x.cond(dot, n.Pipe, n.List, n.ElseList, true)
	case *parse.RangeNode:
		x.rangeNode(dot, n)
	case *parse.TemplateNode:
		var d tval
		if n.Pipe != nil {
			d = x.pipe(dot, n.Pipe)
			x.node = n
		}
		x.template(n.Name, x.indirectIface(d))
		x.node = n
	case *parse.BreakNode:
		return "break"
	case *parse.ContinueNode:
		return "continue"
	default:
		x.fail("unknown node %T", n)
	}
	return ""
}

func (x *expander) cond(dot tval, p *parse.PipeNode, yes, no *parse.ListNode, with bool) (ctl loopCtl) {
	me := x.node
	mark := len(x.vars)
	v := x.pipe(dot, p)
	x.node = me
	t := x.truth(v)
	x.mark(fmt.Sprint(t))
	if t {
		if with {
			dot = x.indirectIface(v)
		}
		ctl = x.walk(dot, yes)
	} else if no != nil {
		ctl = x.walk(dot, no)
	}
	x.vars = x.vars[:mark]
	return
}

func (x *expander) rangeNode(dot tval, n *parse.RangeNode) {
	mark := len(x.vars)
	v := x.deref(x.pipe(dot, n.Pipe))
	x.node = n
	type it struct{ k, v tval }
	var its []it
	if v.typ == nil {
		x.fail("range over nil")
	}
	switch t := v.typ.Underlying().(type) {
	case *types.Slice, *types.Array:
		es := x.elems(v)
		for i, e := range es {
			its = append(its, it{tval{t: x.in.U.Int(int64(i)), typ: types.Typ[types.Int]}, e})
		}
	case *types.Map:
		ks, vs, ok := x.in.Entries(x.st, v.t)
		if !ok {
			x.fail("the entries of the map are not known")
		}
		for i := range ks {
			its = append(its, it{tval{t: ks[i], typ: t.Key()}, tval{t: vs[i], typ: t.Elem()}})
		}
		// text/template goes through maps in the order of their keys
		key := func(i int) any { k, err := x.r.konst(its[i].k.t); x.must(err); return k }
		sort.SliceStable(its, func(i, j int) bool {
			switch a := key(i).(type) {
			case string:
				b, _ := key(j).(string)
				return a < b
			case int64:
				b, _ := key(j).(int64)
				return a < b
			}
			return false
		})
	default:
		x.fail("range over a value of type %s", typeStr(v.typ))
	}
	switch {
	case len(its) == 0:
		x.mark("none")
		if n.ElseList != nil {
			x.walk(dot, n.ElseList)
		}
	case len(its) == 1:
		x.mark("one")
	default:
		x.mark("some")
	}
	inner := len(x.vars)
	for _, e := range its {
		switch d := n.Pipe.Decl; len(d) {
		case 1:
			x.setVar(d[0].Ident[0], e.v, n.Pipe.IsAssign)
		case 2:
			x.setVar(d[0].Ident[0], e.k, n.Pipe.IsAssign)
			x.setVar(d[1].Ident[0], e.v, n.Pipe.IsAssign)
		}
		c := x.walk(x.indirectIface(e.v), n.List)
		x.node = n
		x.vars = x.vars[:inner]
		if c == "break" {
			break
		}
	}
	x.vars = x.vars[:mark]
}

func (x *expander) must(err error) {
	if err != nil {
		x.fail("%v", err)
	}
}

// elems lists the elements of a slice or array.
func (x *expander) elems(v tval) (es []tval) {
	switch t := v.typ.Underlying().(type) {
	case *types.Slice:
		ts, ok := x.in.Elems(x.st, v.t)
		if !ok {
			x.fail("the length of the list is not known")
		}
		for i, e := range ts {
			es = append(es, tval{t: e, typ: t.Elem(), addr: x.in.U.IndexAddr(v.t, x.in.U.Int(int64(i)), t.Elem())})
		}
	case *types.Array:
		x.fail("arrays are not followed")
	}
	return es
}

func (x *expander) setVar(n string, v tval, assign bool) {
	if assign {
		for i := len(x.vars) - 1; i >= 0; i-- {
			if x.vars[i].name == n {
				x.vars[i].v = v
				return
			}
		}
		x.fail("undefined variable %s", n)
	}
	x.vars = append(x.vars, tvar{n, v})
}

func (x *expander) pipe(dot tval, p *parse.PipeNode) (v tval) {
	if p == nil {
		return
	}
	x.node = p
	var final *tval
	for _, c := range p.Cmds {
		v = x.command(dot, c, final)
		v = x.indirectIface(v)
		w := v
		final = &w
	}
	for _, d := range p.Decl {
		x.setVar(d.Ident[0], v, p.IsAssign)
	}
	return v
}

func (x *expander) indirectIface(v tval) tval {
	if v.typ == nil {
		return v
	}
	if _, ok := v.typ.Underlying().(*types.Interface); !ok {
		return v
	}
	if v.t.IsNil() {
		return tval{t: v.t}
	}
	if v.t.Op == absint.OIface {
		return tval{t: v.t.Args[0], typ: v.t.Typ}
	}
	x.fail("the dynamic type of a value of type %s is not known", typeStr(v.typ))
	return v
}

// deref follows pointers and interfaces.
func (x *expander) deref(v tval) tval {
	v = x.indirectIface(v)
	for v.typ != nil {
		p, ok := v.typ.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		if x.in.Decide(x.st, x.in.U.Eq(v.t, x.in.U.Nil())) != absint.False && v.t.Op != absint.OAlloc && v.t.Op != absint.OFieldAddr && v.t.Op != absint.OIndexAddr {
			x.fail("nil pointer of type %s", typeStr(v.typ))
		}
		v = x.indirectIface(tval{t: x.in.Load(x.st, v.t, p.Elem()), typ: p.Elem(), addr: v.t})
	}
	return v
}

func (x *expander) command(dot tval, c *parse.CommandNode, final *tval) tval {
	x.node = c
	first := c.Args[0]
	switch n := first.(type) {
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, c.Args, final)
	case *parse.ChainNode:
		v := x.arg(dot, n.Node)
		return x.chain(dot, v, n.Field, c.Args, final)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, c.Args, final)
	case *parse.PipeNode:
		return x.pipe(dot, n)
	case *parse.VariableNode:
		v := x.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return x.chain(dot, v, n.Ident[1:], c.Args, final)
	}
	if len(c.Args) > 1 || final != nil {
		x.fail("can't give argument to non-function %s", first)
	}
	return x.arg(dot, first)
}

func (x *expander) variable(n string) tval {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].name == n {
			return x.vars[i].v
		}
	}
	x.fail("undefined variable %s", n)
	return tval{}
}

// arg evaluates an operand.
func (x *expander) arg(dot tval, n parse.Node) tval {
	u := x.in.U
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return tval{t: u.Nil()}
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, []parse.Node{n}, nil)
	case *parse.VariableNode:
		v := x.variable(n.Ident[0])
		return x.chain(dot, v, n.Ident[1:], []parse.Node{n}, nil)
	case *parse.PipeNode:
		return x.pipe(dot, n)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, []parse.Node{n}, nil)
	case *parse.ChainNode:
		return x.chain(dot, x.arg(dot, n.Node), n.Field, []parse.Node{n}, nil)
	case *parse.BoolNode:
		return tval{t: u.Bool(n.True), typ: types.Typ[types.Bool]}
	case *parse.StringNode:
		return tval{t: u.Str(n.Text), typ: types.Typ[types.String], num: constant.MakeString(n.Text)}
	case *parse.NumberNode:
		if n.IsInt {
			return tval{t: u.Int(n.Int64), typ: types.Typ[types.Int], num: constant.MakeInt64(n.Int64)}
		}
	}
	x.fail("cannot evaluate %s", n)
	return tval{}
}

// chain evaluates v.A.B with arguments for the last one.
func (x *expander) chain(dot, v tval, names []string, args []parse.Node, final *tval) tval {
	for i, n := range names {
		if i == len(names)-1 {
			return x.field(dot, v, n, args[1:], final)
		}
		v = x.field(dot, v, n, nil, nil)
	}
	if len(args) > 1 || final != nil {
		x.fail("can't give arguments to a non-function")
	}
	return v
}

func (x *expander) field(dot, v tval, name string, args []parse.Node, final *tval) tval {
	v = x.indirectIface(v)
	if v.typ == nil {
		x.fail("nil data; no entry for key %q", name)
	}
	// methods first
	recv := v
	_, isPtr := v.typ.Underlying().(*types.Pointer)
	if !isPtr && v.addr != nil {
		recv = tval{t: v.addr, typ: types.NewPointer(v.typ)}
	}
	if sel := x.in.C.Prog.MethodSets.MethodSet(recv.typ).Lookup(nil, name); sel != nil && exportedName(name) {
		fn := x.in.C.Prog.MethodValue(sel)
		if fn == nil {
			x.fail("method %s of %s has no body", name, typeStr(recv.typ))
		}
		sig := sel.Obj().Type().(*types.Signature)
		return x.call(dot, name, x.in.U.Func(fn), sig, []*T{recv.t}, args, final)
	}
	d := x.deref(v)
	if d.typ == nil {
		x.fail("nil data; no field %s", name)
	}
	switch t := d.typ.Underlying().(type) {
	case *types.Struct:
		if len(args) > 0 || final != nil {
			x.fail("%s has arguments but cannot be invoked as function", name)
		}
		obj, idx, _ := types.LookupFieldOrMethod(d.typ, true, nil, name)
		f, ok := obj.(*types.Var)
		if !ok || !f.Exported() {
			x.fail("can't evaluate field %s in type %s", name, typeStr(d.typ))
		}
		for _, i := range idx {
			d = x.deref(d)
			ft := d.typ.Underlying().(*types.Struct).Field(i).Type()
			if d.addr != nil {
				a := x.in.U.FieldAddr(d.addr, i, ft)
				d = tval{t: x.in.Load(x.st, a, ft), typ: ft, addr: a}
			} else {
				d = tval{t: x.in.U.Field(d.t, i, ft), typ: ft}
			}
		}
		return d
	case *types.Map:
		if b, ok := t.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			k, ok := x.in.Lookup(x.st, d.t, x.in.U.Str(name), t.Elem())
			if ok != nil {
				return tval{t: k, typ: t.Elem()}
			}
		}
	}
	x.fail("can't evaluate field %s in type %s", name, typeStr(d.typ))
	return tval{}
}

func exportedName(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

func (x *expander) function(dot tval, name string, args []parse.Node, final *tval) tval {
	if f, ok := x.set.funcs[name]; ok {
		return x.call(dot, name, f.val.Args[0], f.val.Typ.Underlying().(*types.Signature), nil, args[1:], final)
	}
	return x.builtin(dot, name, args[1:], final)
}

// call calls a function with operands converted to its parameters.
func (x *expander) call(dot tval, name string, f *T, sig *types.Signature, pre []*T, args []parse.Node, final *tval) tval {
	me := x.node
	n := len(args)
	if final != nil {
		n++
	}
	np := sig.Params().Len()
	if sig.Variadic() {
		if n < np-1 {
			x.fail("wrong number of args for %s: want at least %d got %d", name, np-1, n)
		}
	} else if n != np {
		x.fail("wrong number of args for %s: want %d got %d", name, np, n)
	}
	pt := func(i int) types.Type {
		if sig.Variadic() && i >= np-1 {
			return sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		}
		return sig.Params().At(i).Type()
	}
	var vs []*T
	for i := 0; i < n; i++ {
		var v tval
		if i < len(args) {
			v = x.arg(dot, args[i])
		} else {
			v = *final
		}
		vs = append(vs, x.convert(v, pt(i), name))
	}
	x.node = me
	if sig.Variadic() {
		st := sig.Params().At(np - 1).Type()
		rest := x.in.U.List(st, vs[np-1:]...)
		vs = append(vs[:np-1:np-1], rest)
	}
	known := len(x.st.F.List())
	outs, err := x.in.Apply(x.st, f, sig, append(pre, vs...)...)
	x.must(err)
	o := x.choose(outs, known, name)
	x.st = o.St
	if sig.Results().Len() == 2 {
		if !o.Res[1].IsNil() {
			x.fail("%s may return an error: %s", name, short(o.Res[1]))
		}
	} else if sig.Results().Len() != 1 {
		x.fail("%s returns %d values", name, sig.Results().Len())
	}
	return tval{t: o.Res[0], typ: sig.Results().At(0).Type()}
}

// choose picks the outcome that the samples lead to.
func (x *expander) choose(outs []absint.Outcome, known int, name string) absint.Outcome {
	var ok []absint.Outcome
	for _, o := range outs {
		if len(outs) > 1 && !x.bySample(o.St.F, known) {
			continue
		}
		ok = append(ok, o)
	}
	if len(ok) != 1 {
		x.fail("the result of %s is not known (%d of %d ways to go)", name, len(ok), len(outs))
	}
	if ok[0].Kind != "return" {
		x.fail("%s crashes", name)
	}
	return ok[0]
}

func (x *expander) bySample(f *absint.Facts, known int) bool {
	for i, t := range f.List() {
		if i < known {
			continue
		}
		v, err := x.r.konst(t)
		x.must(err)
		if b, ok := v.(bool); !ok || !b {
			return false
		}
	}
	return true
}

// convert makes a value fit a parameter.
func (x *expander) convert(v tval, to types.Type, name string) *T {
	if v.typ == nil {
		if nilable(to) {
			return x.in.U.Nil()
		}
		x.fail("nil given to %s", name)
	}
	if v.num != nil {
		b, ok := to.Underlying().(*types.Basic)
		if ok && b.Info()&types.IsString != 0 && v.num.Kind() == constant.String || ok && b.Info()&types.IsInteger != 0 && v.num.Kind() == constant.Int {
			return x.in.U.Const(v.num, to)
		}
	}
	if types.AssignableTo(v.typ, to) {
		_, ti := to.Underlying().(*types.Interface)
		_, vi := v.typ.Underlying().(*types.Interface)
		if ti && !vi {
			return x.in.U.Iface(v.typ, v.t)
		}
		return v.t
	}
	w := x.indirectIface(v)
	if w.typ != nil && w.typ != v.typ {
		return x.convert(w, to, name)
	}
	if p, ok := v.typ.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), to) {
		return x.convert(x.deref(v), to, name)
	}
	if v.addr != nil && types.AssignableTo(types.NewPointer(v.typ), to) {
		return x.convert(tval{t: v.addr, typ: types.NewPointer(v.typ)}, to, name)
	}
	x.fail("wrong type for value; %s expects %s, not %s", name, typeStr(to), typeStr(v.typ))
	return nil
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (x *expander) builtin(dot tval, name string, args []parse.Node, final *tval) tval {
	u := x.in.U
	boolean := func(b bool) tval { return tval{t: u.Bool(b), typ: types.Typ[types.Bool]} }
	me := x.node
	if name == "and" || name == "or" {
		var v tval
		n := len(args)
		for i := 0; i < n; i++ {
			v = x.arg(dot, args[i])
			x.node = me
			if x.truth(v) == (name == "or") {
				return v
			}
		}
		if final != nil {
			v = *final
		}
		return v
	}
	var vs []tval
	for _, a := range args {
		vs = append(vs, x.arg(dot, a))
	}
	x.node = me
	if final != nil {
		vs = append(vs, *final)
	}
	want := func(n int) {
		if len(vs) != n {
			x.fail("wrong number of args for %s: want %d got %d", name, n, len(vs))
		}
	}
	cmp := func(a, b tval) int {
		p, err := x.r.konst(x.deref(a).t)
		x.must(err)
		q, err := x.r.konst(x.deref(b).t)
		x.must(err)
		switch l := p.(type) {
		case int64:
			if r, ok := q.(int64); ok {
				if l < r {
					return -1
				} else if l > r {
					return 1
				}
				return 0
			}
		case string:
			if r, ok := q.(string); ok {
				return strings.Compare(l, r)
			}
		case bool:
			if r, ok := q.(bool); ok {
				if l == r {
					return 0
				}
				return 1
			}
		}
		x.fail("cannot compare %s and %s", typeStr(a.typ), typeStr(b.typ))
		return 0
	}
	switch name {
	case "index":
		if len(vs) == 0 {
			x.fail("index of nothing")
		}
		v := vs[0]
		for _, k := range vs[1:] {
			v = x.deref(v)
			if v.typ == nil {
				x.fail("index of untyped nil")
			}
			switch t := v.typ.Underlying().(type) {
			case *types.Map:
				kt := x.convert(k, t.Key(), "index")
				e, _ := x.in.Lookup(x.st, v.t, kt, t.Elem())
				v = tval{t: e, typ: t.Elem()}
			case *types.Slice:
				i, err := x.r.konst(x.deref(k).t)
				x.must(err)
				n, ok := i.(int64)
				es := x.elems(v)
				if !ok || n < 0 || n >= int64(len(es)) {
					x.fail("index out of range: %d of %d", n, len(es))
				}
				v = es[n]
			default:
				x.fail("can't index item of type %s", typeStr(v.typ))
			}
		}
		return v
	case "len":
		want(1)
		v := x.deref(vs[0])
		var n int
		switch v.typ.Underlying().(type) {
		case *types.Map:
			ks, _, ok := x.in.Entries(x.st, v.t)
			if !ok {
				x.fail("the size of the map is not known")
			}
			n = len(ks)
		case *types.Slice:
			n = len(x.elems(v))
		case *types.Basic:
			s, err := x.r.text(v.t)
			x.must(err)
			n = len(s)
		default:
			x.fail("len of type %s", typeStr(v.typ))
		}
		return tval{t: u.Int(int64(n)), typ: types.Typ[types.Int]}
	case "not":
		want(1)
		return boolean(!x.truth(vs[0]))
	case "eq":
		if len(vs) < 2 {
			x.fail("eq wants two operands")
		}
		for _, v := range vs[1:] {
			if cmp(vs[0], v) == 0 {
				return boolean(true)
			}
		}
		return boolean(false)
	case "ne", "lt", "le", "gt", "ge":
		want(2)
		k := cmp(vs[0], vs[1])
		return boolean(map[string]bool{"ne": k != 0, "lt": k < 0, "le": k <= 0, "gt": k > 0, "ge": k >= 0}[name])
	case "print", "printf", "println":
		var as []any
		for _, v := range vs {
			b := x.deref(v)
			k, err := x.r.konst(b.t)
			if err != nil || b.typ == nil {
				as = append(as, x.print(v))
				continue
			}
			if _, ok := b.typ.Underlying().(*types.Basic); !ok || isStringer(b.typ) {
				as = append(as, x.print(v))
				continue
			}
			as = append(as, k)
		}
		s := ""
		switch name {
		case "print":
			s = fmt.Sprint(as...)
		case "println":
			s = fmt.Sprintln(as...)
		case "printf":
			f, ok := as[0].(string)
			if !ok {
				x.fail("printf wants a format")
			}
			s = fmt.Sprintf(f, as[1:]...)
		}
		return tval{t: u.Str(s), typ: types.Typ[types.String]}
	case "slice", "html", "js", "urlquery", "call":
		x.fail("the function %s is not followed", name)
	}
	x.fail("%q is not a defined function", name)
	return tval{}
}

func (x *expander) truth(v tval) bool {
	v = x.indirectIface(v)
	if v.typ == nil {
		return false
	}
	dec := func(t *T) bool {
		switch x.in.Decide(x.st, t) {
		case absint.True:
			return true
		case absint.False:
			return false
		}
		k, err := x.r.konst(t)
		x.must(err)
		b, ok := k.(bool)
		if !ok {
			x.fail("not a condition: %s", short(t))
		}
		return b
	}
	u := x.in.U
	switch t := v.typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return dec(v.t)
		case t.Info()&types.IsString != 0:
			return !dec(u.Eq(v.t, u.Str("")))
		case t.Info()&types.IsInteger != 0:
			return !dec(u.Eq(v.t, u.Int(0)))
		}
	case *types.Slice:
		return len(x.elems(v)) > 0
	case *types.Map:
		ks, _, ok := x.in.Entries(x.st, v.t)
		if !ok {
			x.fail("the size of the map is not known")
		}
		return len(ks) > 0
	case *types.Struct:
		return true
	case *types.Pointer, *types.Signature:
		return !dec(u.Eq(v.t, u.Nil()))
	}
	x.fail("if/with can't use %s", typeStr(v.typ))
	return false
}

var stringerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String", types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))}, nil).Complete()

func isStringer(t types.Type) bool {
	return types.Implements(t, stringerIface) || types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

// print renders a value the way fmt.Print does.
func (x *expander) print(v tval) string {
	v = x.indirectIface(v)
	if v.typ == nil {
		return "<no value>"
	}
	if _, ok := v.typ.Underlying().(*types.Pointer); ok {
		v = x.deref(v)
	}
	if !isStringer(v.typ) && v.addr != nil && isStringer(types.NewPointer(v.typ)) {
		v = tval{t: v.addr, typ: types.NewPointer(v.typ)}
	}
	return x.sprint(v)
}

func (x *expander) sprint(v tval) string {
	v = x.indirectIface(v)
	if v.typ == nil {
		return "<nil>"
	}
	if isStringer(v.typ) {
		n := "String"
		if types.Implements(v.typ, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
			n = "Error"
		}
		sel := x.in.C.Prog.MethodSets.MethodSet(v.typ).Lookup(nil, n)
		if o := sel.Obj(); o.Pkg() != nil && x.in.C.InModule(o.Pkg().Path()) {
			v = x.call(tval{}, n, x.in.U.Func(x.in.C.Prog.MethodValue(sel)), o.Type().(*types.Signature), []*T{v.t}, nil, nil)
		}
		s, err := x.r.text(v.t)
		x.must(err)
		return s
	}
	switch t := v.typ.Underlying().(type) {
	case *types.Basic:
		k, err := x.r.konst(v.t)
		x.must(err)
		return fmt.Sprint(k)
	case *types.Slice:
		var ss []string
		for _, e := range x.elems(v) {
			e.addr = nil
			ss = append(ss, x.sprint(e))
		}
		return "[" + strings.Join(ss, " ") + "]"
	case *types.Struct:
		var ss []string
		for i := 0; i < t.NumFields(); i++ {
			ft := t.Field(i).Type()
			ss = append(ss, x.sprint(tval{t: x.in.U.Field(v.t, i, ft), typ: ft}))
		}
		return "{" + strings.Join(ss, " ") + "}"
	}
	x.fail("can't print %s", typeStr(v.typ))
	return ""
}

func typeStr(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
