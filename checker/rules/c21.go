package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

func init() {
	All["C21"] = Check{Spec: true, Run: runC21, Explain: "Every stage of the tools, every method that is called through an interface and every method that decoders call is interpreted on its own with arbitrary input: every dereference, index, map write, type assertion, division and explicit panic has to be impossible or excluded by a condition on the path, by what stages promise each other, or by what is never nil where it is kept (which is checked wherever something is put there).",
		Assume: []string{slicesValues, "library functions give a value or an error, need their receivers, and call comparison functions with indices in range", "fmt and text/template turn a panic in a method or function that they call into text or an error, as documented", "the program is started with its own name", "every template of a set is there (C15)"}}
}

// stages are the functions that are interpreted alone. Calls of them from other stages are not followed, but checked:
// a stage may rely on that its pointers are there, and has to give back pointers that are there when it gives no error.
var stages = []string{
	"~trace.Read", "~trace.Name", "~trace.ExpandAll", "~trace.Collapse", "~trace.CollapseAll", "(*~testlang.Suite).Write", "(*~stm.Suite).Write",
	"~testlang.ReadSuite", "~validate.FullSuite", "~validate.Full", "(*~stm.Builder).BuildSuite", "(*~stm.Builder).BuildMany", "(*~stm.Builder).Build", "~testlang/rstype.Unify",
	"~stm.ReadSuite", "~gen/config.Load", "~gen.New", "(*~gen.Generator).OnSuite", "(*~gen.OnSuite).Generate",
	"~gen/cpp.New", "~gen/catkin.New", "~gen/makefile.New", "~gen/templating.NewGenerator", "(*~gen/templating.Generator).Generate", "~gen/templating.CreateFile",
	"(*~gen/config/cpp.Config).Process", "~gen/cpp.NewContext", "~gen/gencommon.NewContext", "(*~stm.Stm).TransitionSets", "~stm/transition.AddToAggregateSets",
	"(*~gen/config/catkin.Package).Write", "(*~gen/config/catkin.Package).Autofill", "(*~gen/config/catkin.Package).Expand",
	"(*~testlang.Event).UnmarshalText", "(*~testlang/channel.Channel).Equals", "(*~testlang/value.Value).Equals",
}

// mayGet says which stages may be given nil (-1: anywhere), and mayGive which ones may give nil without an error.
var mayGet = map[string]int{"~validate.Full": 0, "~testlang/rstype.Unify": -1}
var mayGive = map[string]bool{"~testlang/rstype.Unify": true}

// keptTypes lists what is never nil where it is kept in memory.
var keptTypes = []string{
	"~gen/subgen.Subgenerator", "~gen/subgen.OnSuite", "*~gen.Generator", "*~gen/cpp.Generator", "*~gen/catkin.Generator", "*~gen/makefile.Generator",
	"*~gen/templating.Generator", "*text/template.Template", "*~stm.Suite", "*~stm.Stm", "*~stm.State", "*~validate.Test", "*~testlang.Node",
}

// keptFields lists fields, below a type, that are never nil.
var keptFields = map[string][]string{
	"~gen/catkin.Generator": {"config.Package"}, "~stm/transition.AggregateSet": {"States"},
}

// unread lists what a stage may find to be nil, although it is never nil elsewhere: the stage reads it from outside.
var unread = map[string][]string{"~stm.ReadSuite": {"*~stm.Stm", "*~stm.State"}}

// nils decides what may be nil.
type nils struct {
	c      *Ctx
	in     *absint.Interp
	stages map[string]bool
	loose  map[string]int
	gives  map[string]bool
	types  map[string]bool
	fields map[string][]string
	fails  constant.Value // the outcome of failing nodes
	seen   map[string]bool
	via    map[string]bool
	self   string // the stage that is interpreted
}

func (c *Ctx) newNils() *nils {
	n := &nils{c: c, seen: map[string]bool{}, stages: map[string]bool{}, loose: map[string]int{}, gives: map[string]bool{}, types: map[string]bool{}, fields: map[string][]string{}}
	for _, s := range stages {
		n.stages[expandName(s)] = true
	}
	for k, v := range mayGet {
		n.loose[expandName(k)] = v
	}
	for k, v := range mayGive {
		n.gives[expandName(k)] = v
	}
	for _, t := range keptTypes {
		n.types[expandName(t)] = true
	}
	for k, v := range keptFields {
		n.fields[expandName(k)] = v
	}
	return n
}

// nilable reports whether there are values of a type that crash what uses them.
func nilPossible(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Signature:
		return true
	case *types.Interface:
		return !isErr(t) && !types.IsInterface(t) || !isErr(t) && t.Underlying().(*types.Interface).NumMethods() > 0
	}
	return false
}

// keeps reports whether values of a type are never nil in memory.
func (n *nils) keeps(t types.Type) bool {
	name := types.TypeString(t, nil)
	for _, u := range unread[n.self] {
		if expandName(u) == name {
			return false
		}
	}
	return n.types[name]
}

// holds: what is not nil because of how data are kept, and because of what functions promise.
func (n *nils) holds(f *absint.Facts, t *T) bool {
	u := n.in.U
	switch t.Op {
	case absint.ORes:
		if !nilPossible(t.Typ) || n.gives[strings.SplitN(t.Aux, "#", 2)[0]] {
			return false
		}
		if e := n.errorWith(t); e != nil {
			return f.Decide(u, u.Eq(e, u.Nil())) == absint.True
		}
		return true
	case absint.OUnwrap:
		// what is behind an interface of the module
		return boxes(t.Args[0].Typ, t.Typ)
	case absint.OMGet:
		// while going through a map
		return n.keeps(t.Typ) && t.Args[1].Op == absint.OApp && t.Args[1].Aux == "mapkey"
	case absint.OField:
		// parts of what stages give
		x := t
		for x.Op == absint.OField {
			x = x.Args[0]
		}
		return x.Op == absint.ORes && n.stages[strings.SplitN(x.Aux, "#", 2)[0]] && n.keeps(t.Typ)
	case absint.OInit:
		a := t.Args[0]
		if a.Op == absint.OIndexAddr && a.Args[0].Op == absint.ORes && !n.c.P.InModule(strings.TrimLeft(a.Args[0].Aux, "(*")) {
			return true // elements of lists that libraries give
		}
		if a.Op == absint.OGlobal && !strings.HasPrefix(a.Aux, Mod) {
			return true
		}
		return n.keptAt(f, a, t.Typ)
	}
	return false
}

// boxes reports whether an interface type of the module holds pointers of a type; they are never nil.
func boxes(i, t types.Type) bool {
	if i == nil || t == nil || isErr(i) {
		return false
	}
	n, ok := types.Unalias(i).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !types.IsInterface(n) {
		return false
	}
	_, ptr := t.Underlying().(*types.Pointer)
	return ptr && strings.HasPrefix(n.Obj().Pkg().Path(), Mod)
}

// errorWith is the error that was given together with a result.
func (n *nils) errorWith(t *T) *T {
	for i := 1; i < 4; i++ {
		if e := n.in.U.Find(absint.Term{Op: absint.ORes, Aux: t.Aux, Idx: i}); e != nil && isErr(e.Typ) {
			return e
		}
	}
	return nil
}

func (n *nils) keptAt(f *absint.Facts, a *T, typ types.Type) bool {
	if n.keeps(typ) {
		return true
	}
	// the event of a successor that was accepted by the validator, and does not fail
	if types.TypeString(typ, nil) == expandName("*~testlang.Event") && a.Op == absint.OFieldAddr && a.Args[0].Op == absint.OIndexAddr && n.self != expandName("~trace.Collapse") && !strings.HasPrefix(n.self, expandName("~validate.")) {
		if node, ok := structAt(a.Args[0]); ok {
			if i, ft := field(node, "Outcome"); i >= 0 {
				u := n.in.U
				for _, out := range u.Inits(u.FieldAddr(a.Args[0], i, ft)) {
					if f.Decide(u, u.Eq(out, u.Const(n.fails, ft))) == absint.False {
						return true
					}
				}
			}
		}
	}
	// a field below some type
	var path []string
	for a.Op == absint.OFieldAddr {
		s, ok := structAt(a.Args[0])
		if !ok {
			return false
		}
		path = append([]string{s.Underlying().(*types.Struct).Field(a.Idx).Name()}, path...)
		for _, p := range n.fields[types.TypeString(s, nil)] {
			if p == strings.Join(path, ".") {
				return true
			}
		}
		a = a.Args[0]
	}
	return false
}

// structAt is the struct type that an address points to.
func structAt(a *T) (types.Type, bool) {
	if a.Typ == nil {
		return nil, false
	}
	p, ok := a.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return p.Elem(), ok
}

// kept finds what may be nil in a value that is put into memory.
func (n *nils) kept(st *absint.State, v *T, to types.Type) *T {
	if v.Typ == nil {
		return nil
	}
	if v.Op == absint.OIface && boxes(to, v.Typ) && !st.F.NonNil(n.in.U, v.Args[0]) {
		return v.Args[0]
	}
	if n.keeps(v.Typ) {
		// an error that comes with it is looked at before anything else is done (C11)
		if !st.F.NonNil(n.in.U, v) && !(v.Op == absint.ORes && n.errorWith(v) != nil && !n.gives[strings.SplitN(v.Aux, "#", 2)[0]]) {
			return v
		}
		return nil
	}
	if _, ok := v.Typ.Underlying().(*types.Struct); ok && v.Op == absint.OStruct {
		for _, p := range n.fields[types.TypeString(v.Typ, nil)] {
			x, t := v, v.Typ
			for _, name := range strings.Split(p, ".") {
				i, ft := field(t, name)
				if i < 0 {
					return nil
				}
				x, t = n.in.U.Field(x, i, ft), ft
			}
			if !st.F.NonNil(n.in.U, x) {
				return x
			}
		}
	}
	return nil
}

// needs finds an argument that may be nil.
func (n *nils) needs(st *absint.State, name string, args []*T) *T {
	if n.stages[name] {
		skip, ok := n.loose[name]
		for i, a := range args {
			if ok && (skip == i || skip < 0) || a.Typ == nil && !a.IsNil() {
				continue
			}
			if strings.Contains(n.self, "/templating.") && name == expandName("~gen/templating.CreateFile") {
				continue // templates that are looked up are there (C15)
			}
			if (a.IsNil() || nilPossible(a.Typ)) && !st.F.NonNil(n.in.U, a) {
				return a
			}
		}
		return nil
	}
	// methods of the libraries need their receivers
	if strings.HasPrefix(name, "(*") && len(args) > 0 && !n.c.P.InModule(strings.TrimPrefix(name, "(*")) {
		if args[0].Op != absint.OMGet && !st.F.NonNil(n.in.U, args[0]) {
			return args[0]
		}
	}
	return nil
}

func runC21(c *Ctx) {
	r := c.R
	r.Rule("crash", "no dereference of nil, index or slice out of range, write to a nil map, failing type assertion, division by zero or explicit panic on any path of a stage")
	r.Rule("promise", "what a stage gives without an error is there, and so is what it keeps")
	r.Rule("accepted", "nulls that have been read are rejected before anything relies on that there are none")
	r.Rule("covered", "every function of the tools that could crash was interpreted")
	n := c.newNils()
	if p := c.P.Pkg("internal/testlang"); p != nil && p.Const("OutcomeFail") != nil {
		n.fails = p.Const("OutcomeFail").Value.Value
	}
	if n.fails == nil {
		r.Undecided("crash", "testlang.OutcomeFail", "", "constant not found")
		return
	}
	n.via = c.interfaceMethods()
	only := os.Getenv("C21")
	for _, f := range c.P.Funcs() {
		name := absint.FuncName(f)
		if !n.stages[name] && !c.entry(f, n.via) || only != "" && !strings.Contains(name, only) {
			continue
		}
		n.check(f)
	}
	if only != "" {
		return
	}
	n.covered()
	e := absint.EquivOpts{ErrorsOnly: true}
	c.same("accepted", refs{Impl: c.spec("ImplFullRoot"), Spec: "FullRoot|FullRoot2", Opt: e})
	c.same("accepted", refs{Impl: c.fn("validate", "FullSuite"), Spec: "FullSuite", Opaque: []string{"~validate.Full"}, Opt: e})
	c.same("accepted", refs{Impl: c.fn("stm", "ReadSuite"), Spec: "WireReadStms", Opt: e, NoCrash: true})
	r.Rule("reported", "what cannot be read is reported as an error")
	c.same("reported", refs{Impl: c.fn("serial", "ReadJSON"), Spec: "WireReadJSON|WireReadJSON2", Opt: e})
	c.same("reported", refs{Impl: c.fn("testlang", "ReadSuite"), Spec: "WireReadTests", Opt: e, NoCrash: true})
	c.generators("reported", "LoadConfig")
}

// interfaceMethods lists the names of methods that are called through interfaces of the module, and by decoders and encoders.
func (c *Ctx) interfaceMethods() map[string]bool {
	via := map[string]bool{}
	for _, n := range []string{"UnmarshalText", "UnmarshalJSON", "MarshalText", "MarshalJSON", "UnmarshalXML", "UnmarshalXMLAttr", "MarshalXML", "MarshalXMLAttr"} {
		via[n] = true
	}
	for _, p := range c.P.Packages() {
		if core.IsSpec(p.Pkg.Path()) {
			continue
		}
		for _, name := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			if i, ok := tn.Type().Underlying().(*types.Interface); ok {
				for k := 0; k < i.NumMethods(); k++ {
					via[i.Method(k).Name()] = true
				}
			}
		}
	}
	return via
}

// entry reports whether a function is called from outside of the module, or through an interface.
func (c *Ctx) entry(f *ssa.Function, via map[string]bool) bool {
	p := core.PkgPath(f)
	if core.IsSpec(p) || f.Parent() != nil || f.Synthetic != "" && f.Origin() == nil || strings.HasSuffix(p, "/factorise") {
		return false
	}
	if ofGeneric(f) {
		return false
	}
	if f.Signature.Recv() == nil {
		return f.Name() == "main"
	}
	return via[f.Name()]
}

// check interprets a function on its own.
func (n *nils) check(f *ssa.Function) {
	c := n.c
	pos := c.fnPos(f)
	n.self = absint.FuncName(f)
	cfg := absint.Config{NilChecks: true, NoMerge: n.self == expandName("~trace.Collapse"), Holds: n.holds, Kept: n.kept, Needs: n.needs}
	cfg.Opaque = func(fn *ssa.Function) bool { x := absint.FuncName(fn); return n.stages[x] && x != n.self }
	in := c.interpC(cfg)
	n.in = in
	st := in.NewState()
	if os := c.P.Prog.ImportedPackage("os"); os != nil {
		if g := os.Var("Args"); g != nil {
			// a program is started with its own name
			a := in.Load(st, in.Global(g), g.Type().(*types.Pointer).Elem())
			st.F.Assume(in.U, in.U.Less(in.U.Int(0), in.U.Len(a), true), true)
		}
	}
	var args []*T
	for i, p := range f.Params {
		a := in.U.Param(p.Name(), p.Type())
		args = append(args, a)
		skip, ok := n.loose[n.self]
		if nilPossible(p.Type()) && !(ok && (skip == i || skip < 0)) {
			st.F.Assume(in.U, in.U.Eq(a, in.U.Nil()), false)
		}
	}
	outs, err := in.Run(st, f, args...)
	if err != nil {
		c.R.Undecided("crash", f.String(), pos, "%v", err)
		return
	}
	c.R.Count("functions interpreted", len(in.Stats.Funcs))
	c.R.Count("abstract paths", len(outs))
	c.R.Count("instructions interpreted", in.Stats.Instrs)
	for g := range in.Stats.Funcs {
		n.seen[g] = true
	}
	bad := map[string]bool{}
	for _, w := range in.Crashes(in.Certain, outs, nil) {
		bad[w] = true
	}
	for _, o := range outs {
		if o.Kind == "panic" {
			bad["there is a path to a panic"] = true
		}
	}
	for _, w := range sorted(bad) {
		c.R.Bad("crash", f.String(), pos, "%s", w)
	}
	if len(bad) == 0 {
		c.R.OK("crash", f.String())
	}
	bad = map[string]bool{}
	for _, o := range outs {
		if o.Kind == "return" && n.relied(f) {
			n.promised(f, o, bad)
		}
	}
	for _, w := range sorted(bad) {
		c.R.Bad("promise", f.String(), pos, "%s", w)
	}
	if len(bad) == 0 {
		c.R.OK("promise", f.String())
	}
}

// relied reports whether something relies on what a function gives.
func (n *nils) relied(f *ssa.Function) bool { return n.stages[n.self] || n.c.entry(f, n.via) }

func sorted(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// promised checks that a function gives back what its callers rely on.
func (n *nils) promised(f *ssa.Function, o absint.Outcome, bad map[string]bool) {
	res := f.Signature.Results()
	in := n.in
	if k := res.Len(); k > 0 && isErr(res.At(k-1).Type()) {
		if errState(in, o.St.F, o.Res[k-1]) == "err" {
			return
		}
	}
	for i, v := range o.Res {
		t := res.At(i).Type()
		if nilPossible(t) && !o.St.F.NonNil(in.U, v) && !n.gives[n.self] {
			bad["it may give nil: "+short(v)] = true
		}
		n.whole(o.St, v, t, "", nil, bad)
	}
}

// whole checks the parts of a value that is given back, as far as it was made here.
func (n *nils) whole(st *absint.State, v *T, t types.Type, path string, above []string, bad map[string]bool) {
	in := n.in
	if v.Op == absint.OIface {
		v, t = v.Args[0], v.Typ
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && v.Op == absint.OAlloc {
		s, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		_ = s
		n.whole(st, in.Load(st, v, p.Elem()), p.Elem(), path, nil, bad)
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	need := append(append([]string{}, above...), n.fields[types.TypeString(t, nil)]...)
	for i := 0; i < s.NumFields(); i++ {
		fld := s.Field(i)
		x := in.U.Field(v, i, fld.Type())
		var below []string
		must := n.keeps(fld.Type())
		for _, q := range need {
			if q == fld.Name() {
				must = true
			} else if strings.HasPrefix(q, fld.Name()+".") {
				below = append(below, strings.TrimPrefix(q, fld.Name()+"."))
			}
		}
		if must && !st.F.NonNil(in.U, x) {
			bad["it gives something whose "+path+fld.Name()+" may be nil"] = true
		}
		if _, ok := fld.Type().Underlying().(*types.Struct); ok {
			n.whole(st, x, fld.Type(), path+fld.Name()+".", below, bad)
		}
	}
}

// covered interprets every other function that may crash.
func (n *nils) covered() {
	// what can be reached from the programs, from methods that are called through interfaces and from decoders
	called := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	reach := func(f *ssa.Function) {
		if !called[f] {
			called[f] = true
			todo = append(todo, f)
		}
	}
	for _, f := range n.c.P.Funcs() {
		if n.c.entry(f, n.via) || n.stages[absint.FuncName(f)] || f.Name() == "init" && f.Parent() == nil && !core.IsSpec(core.PkgPath(f)) {
			reach(f)
		}
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						reach(g)
					}
				}
			}
		}
	}
	for _, f := range n.c.P.Funcs() {
		p := core.PkgPath(f)
		if !called[f] {
			continue // only templates may call it
		}
		if core.IsSpec(p) || strings.HasSuffix(p, "/factorise") || n.seen[f.String()] || n.seen[absint.FuncName(f)] || !mayCrash(f) {
			continue
		}
		if f.Parent() != nil || f.Synthetic != "" && f.Origin() == nil || ofGeneric(f) {
			continue
		}
		n.check(f)
	}
}

// ofGeneric reports whether a function is a generic one, or a method of a generic type, as declared:
// what is called is an instance of it.
func ofGeneric(f *ssa.Function) bool {
	if f.Origin() == nil {
		if f.Signature.TypeParams().Len() > 0 || f.Signature.RecvTypeParams().Len() > 0 || f.TypeParams().Len() > 0 {
			return true
		}
	}
	for _, a := range f.TypeArgs() {
		if open(a) {
			return true
		}
	}
	return f.Signature.Recv() != nil && open(f.Signature.Recv().Type())
}

// open reports whether a type mentions a type parameter as an argument.
func open(t types.Type) bool {
	switch x := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return open(x.Elem())
	case *types.Named:
		for i := 0; i < x.TypeArgs().Len(); i++ {
			if open(x.TypeArgs().At(i)) {
				return true
			}
		}
		return x.TypeParams().Len() > 0 && x.TypeArgs().Len() == 0
	}
	return false
}

// mayCrash reports whether a function has an instruction that can crash on its own.
func mayCrash(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Panic, *ssa.MapUpdate, *ssa.SliceToArrayPointer:
				return true
			case *ssa.UnOp:
				if x.Op == token.MUL {
					return true
				}
			case *ssa.TypeAssert:
				if !x.CommaOk {
					return true
				}
			case *ssa.BinOp:
				if x.Op == token.QUO || x.Op == token.REM {
					return true
				}
			case ssa.CallInstruction:
				return true
			}
		}
	}
	return false
}
