package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
)

const typesPure = "the type of a value and the combination of two types depend on nothing but them (decided by C08)"

func init() {
	All["C08"] = Check{Spec: true, Run: runC08,
		Explain: "rstype.Unify is run on every pair of types the constructors of rstype make (and absent ones); Type of each kind of value is run on symbolic content; Build, BuildMany and BuildSuite are compared " +
			"with their references (core/spec), with types as unknown functions; every write to a type in the module is found.",
		Assume: []string{slicesValues, "types are only made by the constructors of rstype and by UnmarshalText (decided: fields of RsType are written nowhere else)"}}
}

func runC08(c *Ctx) {
	r := c.R
	r.Rule("unify", "combining two types: an absent one does not matter, natural < integer < real, equal kinds stay, different kinds are an error; in either order")
	r.Rule("value", "a natural literal is a natural, a negative one an integer, an absent value has the empty type, anything else is an enumeration")
	r.Rule("machine", "every event of a test contributes to the type of its channel; an inconsistent channel is an error")
	r.Rule("suite", "every test is built, and the types of all tests are combined")
	r.Rule("writes", "a type is only changed while it is made or read")
	c.unifyTable("unify")
	c.valueTypes("value")
	c.build("machine")
	cfg := pureTypes()
	c.same("suite", refs{Impl: c.method("stm", "Builder", "BuildSuite"), Spec: "BuildSuite", Cfg: cfg, Opaque: []string{"(*~stm.Builder).BuildMany"}, Opt: anyBuilder})
	c.same("suite", refs{Impl: c.method("stm", "Builder", "BuildMany"), Spec: "BuildMany|BuildMany2", Cfg: cfg, Opaque: []string{"(*~stm.Builder).Build"}, Opt: anyBuilder})
	c.typeWrites("writes")
}

// rsTypes makes one type per name.
var rsNames = []string{"absent", "empty", "enum", "nat", "int", "real"}

func (c *Ctx) rsType(in *absint.Interp, st *absint.State, rule, name string) (*T, *absint.State) {
	if name == "absent" {
		return in.U.Nil(), st
	}
	var fn *ssa.Function
	var args []*T
	switch name {
	case "empty":
		fn = c.fn("testlang/rstype", "Empty")
	case "enum":
		fn = c.fn("testlang/rstype", "Enum")
	default:
		fn = c.fn("testlang/rstype", "Arithmos")
		cn := map[string]string{"nat": "ArithmosDomainNat", "int": "ArithmosDomainInt", "real": "ArithmosDomainReal"}[name]
		v := c.constant(in, "testlang/rstype", cn)
		if v == nil {
			return nil, st
		}
		args = []*T{v}
	}
	if fn == nil {
		return nil, st
	}
	if args == nil {
		args = []*T{}
	}
	os := c.runSt(in, st, rule, fn, args...)
	if len(os) != 1 || os[0].Kind != "return" {
		c.R.Undecided(rule, fn.String(), c.fnPos(fn), "making the type %s has %d outcomes", name, len(os))
		return nil, st
	}
	return os[0].Res[0], os[0].St
}

// constant is the value of a package-level constant.
func (c *Ctx) constant(in *absint.Interp, path, name string) *T {
	p := c.P.Pkg("internal/" + path)
	if p != nil {
		if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return in.U.Const(k.Val(), k.Type())
		}
	}
	c.R.Undecided("anchor", path+"."+name, "", "constant not found")
	return nil
}

// isType decides which of the named types a type is, by its own predicates.
func (c *Ctx) isType(in *absint.Interp, st *absint.State, rule string, t *T) string {
	if t.IsNil() {
		return "absent"
	}
	got := ""
	for _, n := range rsNames[1:] {
		m := c.method("testlang/rstype", "RsType", map[string]string{"empty": "IsEmpty", "enum": "IsEnum", "nat": "IsNat", "int": "IsInt", "real": "IsReal"}[n])
		if m == nil {
			return "?"
		}
		arg := t
		if _, ok := pointerTo(m.Params[0].Type()); !ok {
			arg = in.Load(st, t, m.Params[0].Type())
		}
		os := c.runSt(in, st.Clone(), rule, m, arg)
		if len(os) != 1 || os[0].Kind != "return" {
			return "?"
		}
		if b, ok := os[0].Res[0].BoolVal(); !ok {
			return "?"
		} else if b {
			if got != "" {
				got += "+"
			}
			got += n
		}
	}
	return got
}

func (c *Ctx) unifyTable(rule string) {
	fn := c.fn("testlang/rstype", "Unify")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	where, pos := fn.String(), c.fnPos(fn)
	rank := map[string]int{"nat": 1, "int": 2, "real": 3}
	for _, a := range rsNames {
		for _, b := range rsNames {
			in := c.interp()
			st := in.NewState()
			x, st := c.rsType(in, st, rule, a)
			y, st := c.rsType(in, st, rule, b)
			if x == nil || y == nil {
				return
			}
			want := a
			switch {
			case a == "absent":
				want = b
			case b == "absent" || a == b:
			case rank[a] > 0 && rank[b] > 0:
				if rank[b] > rank[a] {
					want = b
				}
			default:
				want = "error"
			}
			for _, o := range c.runSt(in, st, rule, fn, x, y) {
				got := o.Kind
				if o.Kind == "return" {
					got = "error"
					switch errState(in, o.St.F, o.Res[1]) {
					case "nil":
						got = c.isType(in, o.St, rule, o.Res[0])
					case "?":
						got = "?"
					}
				}
				c.R.Check(got == want, rule, where, pos, "combining %s and %s gives %s, not %s", a, b, got, want)
			}
		}
	}
}

func (c *Ctx) valueTypes(rule string) {
	fn := c.method("testlang/value", "Value", "Type")
	if fn == nil {
		return
	}
	where, pos := fn.String(), c.fnPos(fn)
	in0 := c.interp()
	n := len(c.variants(in0, in0.NewState(), ""))
	if n < 2 {
		c.R.Undecided(rule, where, pos, "no type can be the content of a value")
	}
	for i := 0; i < n; i++ {
		in := c.interp()
		u, st := in.U, in.NewState()
		v := c.variants(in, st, "")[i]
		arg := c.valueArg(in, st, fn.Params[0].Type(), v, "")
		for _, o := range c.runSt(in, st, rule, fn, arg) {
			got := o.Kind
			if o.Kind == "return" {
				got = c.isType(in, o.St, rule, o.Res[0])
			}
			isInt := false
			if v.Elem != nil {
				b, ok := v.Elem.Underlying().(*types.Basic)
				isInt = ok && b.Info()&types.IsInteger != 0
			}
			switch {
			case v.Typ == nil:
				c.R.Check(got == "empty", rule, where, pos, "the type of an absent value is %s, not empty", got)
			case isInt:
				x := v.pointee(in, o.St)
				nat := u.Less(u.Int(0), x, false)
				switch got {
				case "nat":
					c.R.Check(in.With(o.St.F, u.Not(nat)) == nil, rule, where, pos, "a negative literal can get type nat")
				case "int":
					c.R.Check(in.With(o.St.F, nat) == nil, rule, where, pos, "a natural literal can get type int")
				default:
					c.R.Bad(rule, where, pos, "the type of an integer is %s", got)
				}
			default:
				c.R.Check(got == "enum", rule, where, pos, "the type of a %s is %s, not enum", v.Name, got)
			}
		}
	}
}

// typeWrites finds all writes to types.
func (c *Ctx) typeWrites(rule string) {
	rt := c.P.Type("internal/testlang/rstype", "RsType")
	if rt == nil {
		c.R.Undecided(rule, "rstype.RsType", "", "type not found")
		return
	}
	n := 0
	for _, fn := range c.P.Funcs() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				root := s.Addr
				hit := false
				for {
					if p, ok := pointerTo(root.Type()); ok && types.Identical(p, rt) {
						hit = true
					}
					fa, ok := root.(*ssa.FieldAddr)
					if !ok {
						break
					}
					root = fa.X
				}
				if !hit {
					continue
				}
				n++
				ok = c.rootsOf(root, func(v ssa.Value) bool {
					if p, isParam := v.(*ssa.Parameter); isParam {
						f := p.Parent()
						return f.Name() == "UnmarshalText" && f.Signature.Recv() != nil && p == f.Params[0]
					}
					al, fresh := v.(*ssa.Alloc)
					return fresh && al.Parent() != nil
				})
				c.R.Check(ok, rule, fn.String(), c.P.Pos(s.Pos()), "changes a type that already exists")
			}
		}
	}
	c.R.Check(n > 0, rule, "rstype.RsType", "", "no function makes a type")
}
