package rules

import (
	"verif/checker/absint"
)

func init() {
	All["C28"] = Check{Spec: true, Run: runC28,
		Explain: "Channel.Equals, Event.Equals, Trace.Equals and Trace.IsPrefixOf are compared with their references (core/spec) on symbolic events and traces; Value.Equals is run on every pair of " +
			"value kinds (absent, and each type that can be a value's content).",
		Assume: []string{"reflect.DeepEqual on two pointers to the same basic type compares what they point to"}}
}

func runC28(c *Ctx) {
	r := c.R
	r.Rule("channel", "channels are equal exactly if name and kind are")
	r.Rule("value", "absent values equal only absent ones; present ones are equal exactly if their kinds and contents are")
	r.Rule("event", "events are equal exactly if channel and value are")
	r.Rule("trace", "prefix and equality are element by element, with the right lengths")
	c.same("channel", refs{Impl: c.method("testlang/channel", "Channel", "Equals"), Spec: "ChannelEquals"})
	c.same("event", refs{Impl: c.method("testlang", "Event", "Equals"), Spec: "EventEquals"})
	c.same("trace", refs{Impl: c.method("trace", "Trace", "IsPrefixOf"), Spec: "IsPrefixOf|IsPrefixOf2|IsPrefixOf3"})
	c.same("trace", refs{Impl: c.method("trace", "Trace", "Equals"), Spec: "TraceEquals|TraceEquals2|TraceEquals3|TraceEquals4"})
	c.valueEquals("value")
}

// valueEquals decides Value.Equals on every pair of kinds.
func (c *Ctx) valueEquals(rule string) {
	r := c.R
	fn := c.method("testlang/value", "Value", "Equals")
	vt, idx, _ := c.contentField()
	if fn == nil || vt == nil || idx < 0 || len(fn.Params) != 2 {
		r.Undecided(rule, "value.Value", "", "the content of a value could not be found")
		return
	}
	where, pos := fn.String(), c.fnPos(fn)
	in0 := c.interp()
	n := len(c.variants(in0, in0.NewState(), ""))
	if n < 2 {
		r.Undecided(rule, where, pos, "no type can be the content of a value")
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			in := c.interp()
			u, st := in.U, in.NewState()
			a, b := c.variants(in, st, "A")[i], c.variants(in, st, "B")[j]
			recv := c.valueArg(in, st, fn.Params[0].Type(), a, "A")
			arg := c.valueArg(in, st, fn.Params[1].Type(), b, "B")
			name := a.Name + " = " + b.Name
			for _, o := range c.runSt(in, st, rule, fn, recv, arg) {
				if o.Kind != "return" {
					r.Bad(rule, where, pos, "comparing %s ends in a %s", name, o.Kind)
					continue
				}
				want := u.Bool(i == j)
				if i == j && a.Typ != nil {
					want = u.Eq(a.pointee(in, o.St), b.pointee(in, o.St))
				}
				r.Check(sameBool(in, o.St.F, o.Res[0], want), rule, where, pos, "%s gives %s, not %s", name, short(o.Res[0]), short(want))
			}
		}
	}
}

// valueArg passes a value of a kind as a struct or a pointer to one.
func (c *Ctx) valueArg(in *absint.Interp, st *absint.State, t absintType, v variant, tag string) *T {
	u := in.U
	vt, idx, ft := c.contentField()
	if p, ok := pointerTo(t); ok && p != nil {
		x := u.Param("value"+tag, t)
		st.F.Assume(u, u.Eq(x, u.Nil()), false)
		in.Store(st, u.FieldAddr(x, idx, ft), v.Content, ft)
		return x
	}
	return u.Struct(vt, v.Content)
}

// sameBool decides whether two truth values agree under facts.
func sameBool(in *absint.Interp, f *absint.Facts, a, b *T) bool {
	if a == b {
		return true
	}
	for _, v := range []bool{true, false} {
		lit := func(t *T, v bool) *T {
			if v {
				return t
			}
			return in.U.Not(t)
		}
		g := in.With(f, lit(a, v))
		if g == nil {
			continue
		}
		if h := in.With(g, lit(b, !v)); h != nil {
			return false
		}
	}
	return true
}
