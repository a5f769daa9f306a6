package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

func init() {
	All["C09"] = Check{Spec: true, Run: runC09, Explain: "For each enumeration (an integer type with String and UnmarshalText and two or more constants) the writer is evaluated on every constant, and the reader on every name written, in lower, upper and title case, and on a symbolic text; the readers and writers of channels, events, values and types are compared with their references (core/spec/parse.go.txt) on symbolic texts and items.",
		Assume: []string{"strings.ToLower, ToUpper and EqualFold agree on the letters of the enumeration names", "a channel name or text value that was read has no dot (names), and no space at its ends"}}
}

func runC09(c *Ctx) {
	r := c.R
	r.Rule("names", "each constant of an enumeration has a name of its own, which is read back as that constant in any case; other names are errors")
	r.Rule("types", "each type has a name of its own, which is read back as that type in any case; other names are errors")
	r.Rule("channel", "a channel is written as name, dot, kind, and read as what is before the first dot, trimmed, and the kind named up to the second; fewer fields and an empty name are errors")
	r.Rule("event", "an event is written as its channel and, if it has a value, a dot and the value, and its value is read from all that follows the second dot")
	r.Rule("value", "a value is written as its number or text, and read as a number in base ten if it is one and as a text otherwise")
	c.enums("names")
	c.typeNames("types")
	e := absint.EquivOpts{ErrorsOnly: true}
	c.same("channel", refs{Impl: c.method("testlang/channel", "Channel", "MarshalText"), Spec: "ChannelMarshal", Opt: e})
	c.same("channel", refs{Impl: c.method("testlang/channel", "Channel", "UnmarshalTextWithRemainder"), Spec: "ChannelRest", Opt: e})
	c.same("channel", refs{Impl: c.method("testlang/channel", "Channel", "UnmarshalText"), Spec: "ChannelUnmarshal", Opt: e})
	probe := c.interpC(absint.Config{})
	for k := range c.variants(probe, probe.NewState(), "") {
		for _, x := range []struct{ rule, path, typ, spec string }{{"value", "testlang/value", "Value", "Value"}, {"event", "testlang", "Event", "Event"}} {
			c.same(x.rule, refs{Impl: c.method(x.path, x.typ, "MarshalText"), Spec: x.spec + "Marshal", Opt: e, Setup: func(in *absint.Interp, st *absint.State, args []*T) {
				c.setContent(in, st, args[0], c.variants(in, st, "")[k])
			}})
		}
	}
	c.same("value", refs{Impl: c.method("testlang/value", "Value", "UnmarshalText"), Spec: "ValueUnmarshal", Opt: e})
	c.same("event", refs{Impl: c.method("testlang", "Event", "UnmarshalText"), Spec: "EventUnmarshal|EventUnmarshal2", Opt: e})
}

// setContent puts content into the value at an address, or into the value in the object there.
func (c *Ctx) setContent(in *absint.Interp, st *absint.State, p *T, v variant) {
	vt, idx, ft := c.contentField()
	t, ok := pointerTo(p.Typ)
	if !ok || idx < 0 {
		return
	}
	if types.Identical(t, vt) {
		in.Store(st, in.U.FieldAddr(p, idx, ft), v.Content, ft)
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), vt) {
				in.Store(st, in.U.FieldAddr(in.U.FieldAddr(p, i, vt), idx, ft), v.Content, ft)
			}
		}
	}
}

// enumTypes lists the integer types of the module that can be read from text and have constants.
func (c *Ctx) enumTypes() (ts []*types.Named, consts map[*types.Named][]*types.Const) {
	consts = map[*types.Named][]*types.Const{}
	for _, p := range c.P.Packages() {
		if core.IsSpec(p.Pkg.Path()) {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			k, ok := sc.Lookup(n).(*types.Const)
			if !ok {
				continue
			}
			t, ok := k.Type().(*types.Named)
			if !ok || t.Obj().Pkg() != p.Pkg || t.Obj().Pkg() == nil {
				continue
			}
			if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			if c.methodOf(t, "UnmarshalText") == nil {
				continue
			}
			if consts[t] == nil {
				ts = append(ts, t)
			}
			consts[t] = append(consts[t], k)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	return ts, consts
}

func (c *Ctx) enums(rule string) {
	ts, consts := c.enumTypes()
	c.enumsOf(rule, ts, consts)
}

// enumsOf checks that enumerations are read and written the same, and gives the names of their constants.
func (c *Ctx) enumsOf(rule string, ts []*types.Named, consts map[*types.Named][]*types.Const) (all map[*types.Named]map[string]*types.Const) {
	all = map[*types.Named]map[string]*types.Const{}
	r := c.R
	r.Count("enumerations", len(ts))
	if len(ts) == 0 {
		r.Undecided(rule, "module", "", "no enumeration was found")
	}
	for _, t := range ts {
		where := core.TypeName(t)
		lookup := func(n string) *ssa.Function {
			f := c.methodOf(t, n)
			if f == nil {
				r.Undecided(rule, where, "", "no method %s", n)
			}
			return f
		}
		str, mar, unm := lookup("String"), lookup("MarshalText"), lookup("UnmarshalText")
		if str == nil || mar == nil || unm == nil {
			continue
		}
		in := c.interpC(absint.Config{NoMerge: true})
		u := in.U
		// recv makes a receiver holding a value
		recv := func(st *absint.State, f *ssa.Function, v *T) *T {
			if _, ok := pointerTo(f.Params[0].Type()); !ok {
				return v
			}
			p := u.Param("x", types.NewPointer(t))
			st.F.Assume(u, u.Eq(p, u.Nil()), false)
			in.Store(st, p, v, t)
			return p
		}
		read := func(text *T) []absint.Outcome {
			st := in.NewState()
			p := u.Param("x", types.NewPointer(t))
			st.F.Assume(u, u.Eq(p, u.Nil()), false)
			return c.runSt(in, st, rule, unm, p, text)
		}
		cell := func(o absint.Outcome) *T { return in.Load(o.St, u.Param("x", types.NewPointer(t)), t) }
		names := map[string]*types.Const{}
		all[t] = names
		vals := map[string]*T{}
		var list []string
		for _, k := range consts[t] {
			v := u.Const(k.Val(), t)
			at := c.P.Pos(k.Pos())
			name := ""
			for _, f := range []*ssa.Function{str, mar} {
				st := in.NewState()
				outs := c.runSt(in, st, rule, f, recv(st, f, v))
				if len(outs) != 1 || outs[0].Kind != "return" || len(outs[0].Res) == 2 && !outs[0].Res[1].IsNil() {
					r.Bad(rule, where, at, "%s of %s does not give one text", f.Name(), k.Name())
					continue
				}
				s, ok := outs[0].Res[0].StrVal()
				switch {
				case !ok || s == "":
					r.Bad(rule, where, at, "%s of %s gives no fixed text: %s", f.Name(), k.Name(), short(outs[0].Res[0]))
				case f == mar && name != "" && !strings.EqualFold(s, name):
					r.Bad(rule, where, at, "%s is called %q but written %q", k.Name(), name, s)
				default:
					name = s
				}
			}
			if name == "" {
				continue
			}
			for n, o := range names {
				if strings.EqualFold(n, name) && !constant.Compare(o.Val(), token.EQL, k.Val()) {
					r.Bad(rule, where, at, "%s and %s are both written %q", o.Name(), k.Name(), name)
				}
			}
			names[name] = k
			vals[name] = v
			list = append(list, name)
			r.OK(rule, where+"."+k.Name()+" is written "+name)
			for _, s := range []string{name, strings.ToLower(name), strings.ToUpper(name), strings.ToUpper(name[:1]) + name[1:]} {
				outs := read(u.Str(s))
				if len(outs) != 1 || outs[0].Kind != "return" || !outs[0].Res[0].IsNil() || cell(outs[0]) != v {
					what := "is not read"
					if len(outs) == 1 && outs[0].Kind == "return" && outs[0].Res[0].IsNil() {
						what = "is read as " + short(cell(outs[0]))
					}
					r.Bad(rule, where, at, "%q %s as %s", s, what, k.Name())
					continue
				}
				r.OK(rule, fmt.Sprintf("%s reads %q", where, s))
			}
		}
		text := u.Param("text", types.NewSlice(types.Typ[types.Byte]))
		n := 0
		for _, o := range read(text) {
			if o.Kind != "return" {
				r.Bad(rule, where, c.fnPos(unm), "reading ends in a %s", o.Kind)
				continue
			}
			n++
			if o.St.F.Decide(u, u.Eq(o.Res[0], u.Nil())) == absint.False {
				r.OK(rule, where+" rejects other names")
				continue
			}
			got, ok := cell(o), false
			for _, s := range list {
				for _, x := range c.isText(in, text, s) {
					if o.St.F.Decide(u, x) == absint.True && got == vals[s] {
						ok = true
					}
				}
			}
			r.Check(ok, rule, where, c.fnPos(unm), "some text is read as %s when %s", short(got), absint.FactStr(o.St.F, 0))
		}
		r.Count("paths of readers", n)
	}
	return all
}

// typeNames decides how types are written and read.
func (c *Ctx) typeNames(rule string) {
	r := c.R
	mar, unm, str := c.method("testlang/rstype", "RsType", "MarshalText"), c.method("testlang/rstype", "RsType", "UnmarshalText"), c.method("testlang/rstype", "RsType", "String")
	if mar == nil || unm == nil || str == nil {
		return
	}
	rt := c.P.Type("internal/testlang/rstype", "RsType")
	in := c.interpC(absint.Config{NoMerge: true})
	u := in.U
	recv := func(st *absint.State, f *ssa.Function, p *T) *T {
		if _, ok := pointerTo(f.Params[0].Type()); ok {
			return p
		}
		return in.Load(st, p, rt)
	}
	names := map[string]string{}
	read := func(text *T) []absint.Outcome {
		st := in.NewState()
		p := u.Param("t", types.NewPointer(rt))
		st.F.Assume(u, u.Eq(p, u.Nil()), false)
		return c.runSt(in, st, rule, unm, p, text)
	}
	kind := func(o absint.Outcome) string { return c.isType(in, o.St, rule, u.Param("t", types.NewPointer(rt))) }
	var list []string
	for _, n := range rsNames[1:] {
		p, st := c.rsType(in, in.NewState(), rule, n)
		if p == nil {
			continue
		}
		name := ""
		for _, f := range []*ssa.Function{str, mar} {
			outs := c.runSt(in, st.Clone(), rule, f, recv(st, f, p))
			if len(outs) != 1 || outs[0].Kind != "return" || len(outs[0].Res) == 2 && !outs[0].Res[1].IsNil() {
				r.Bad(rule, n, c.fnPos(f), "%s of the type %s does not give one text", f.Name(), n)
				continue
			}
			s, ok := outs[0].Res[0].StrVal()
			if !ok || s == "" {
				r.Bad(rule, n, c.fnPos(f), "%s of the type %s gives no fixed text", f.Name(), n)
				continue
			}
			if f == mar {
				name = s
			}
		}
		if name == "" {
			continue
		}
		if o := names[strings.ToLower(name)]; o != "" {
			r.Bad(rule, n, c.fnPos(mar), "the types %s and %s are both written %q", o, n, name)
		}
		names[strings.ToLower(name)] = n
		list = append(list, name)
		for _, s := range []string{name, strings.ToUpper(name), strings.ToLower(name)} {
			outs := read(u.Str(s))
			if len(outs) != 1 || outs[0].Kind != "return" || !outs[0].Res[0].IsNil() {
				r.Bad(rule, n, c.fnPos(unm), "%q is not read", s)
				continue
			}
			k := kind(outs[0])
			r.Check(k == n, rule, n, c.fnPos(unm), "%q is read as the type %s", s, k)
		}
	}
	text := u.Param("text", types.NewSlice(types.Typ[types.Byte]))
	for _, o := range read(text) {
		if o.Kind != "return" {
			r.Bad(rule, "RsType", c.fnPos(unm), "reading ends in a %s", o.Kind)
			continue
		}
		if o.St.F.Decide(u, u.Eq(o.Res[0], u.Nil())) == absint.False {
			r.OK(rule, "RsType rejects other names")
			continue
		}
		got, ok := kind(o), false
		for _, s := range list {
			for _, x := range c.isText(in, text, s) {
				if o.St.F.Decide(u, x) == absint.True && names[strings.ToLower(s)] == got {
					ok = true
				}
			}
		}
		r.Check(ok, rule, "RsType", c.fnPos(unm), "some text is read as the type %s when %s", got, absint.FactStr(o.St.F, 0))
	}
}

// isText lists the ways to say that a text is a given one, whatever the case.
func (c *Ctx) isText(in *absint.Interp, text *T, s string) (xs []*T) {
	u := in.U
	str, b := types.Typ[types.String], types.Typ[types.Bool]
	xs = append(xs, u.Eq(text, u.Str(s)))
	for _, p := range []string{"strings.", "bytes."} {
		xs = append(xs, u.Eq(u.App(p+"ToLower", str, text), u.Str(strings.ToLower(s))), u.Eq(u.App(p+"ToUpper", str, text), u.Str(strings.ToUpper(s))),
			u.App(p+"EqualFold", b, text, u.Str(s)), u.App(p+"EqualFold", b, u.Str(s), text))
	}
	return xs
}

// methodOf finds a method of a type or of the pointers to it.
func (c *Ctx) methodOf(t *types.Named, name string) *ssa.Function {
	sel := c.P.Prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(t.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil
	}
	return c.P.Prog.FuncValue(f)
}
