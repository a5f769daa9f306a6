package rules

import (
	"verif/checker/absint"
)

const (
	unifyName = "~testlang/rstype.Unify"
	typeName  = "(~testlang/value.Valuable).Type"
)

// pureTypes makes finding and combining types functions of their arguments (C08 decides what they do).
func pureTypes() absint.Config {
	n := expandName(unifyName)
	return absint.Config{Pure: map[string]bool{n: true, expandName(typeName): true, expandName("~testlang/rstype.Empty"): true}, Commutes: map[string]bool{n: true}, NilUnit: map[string]bool{n: true}}
}

// build compares the construction of a state machine with its reference.
func (c *Ctx) build(rule string) {
	c.same(rule, refs{Impl: c.method("stm", "Builder", "Build"), Spec: "Build|Build2|Build3|Build4|Build5|Build6", Cfg: pureTypes(),
		Opt: absint.EquivOpts{ErrorsOnly: true, IgnoreTypes: map[string]bool{"stm.Builder": true}}})
	c.same(rule, refs{Impl: c.method("stm", "Builder", "BuildMany"), Spec: "BuildMany|BuildMany2", Cfg: pureTypes(), Opaque: []string{"(*~stm.Builder).Build"}, Opt: anyBuilder})
	c.same(rule, refs{Impl: c.method("stm", "Builder", "BuildSuite"), Spec: "BuildSuite", Cfg: pureTypes(), Opaque: []string{"(*~stm.Builder).BuildMany"}, Opt: anyBuilder})
}

// anyBuilder is how functions that use a builder are compared: what a builder makes does not depend on its state
// (the reference of Build does not use it).
var anyBuilder = absint.EquivOpts{ErrorsOnly: true, IgnoreTypes: map[string]bool{"stm.Builder": true}, IgnoreArgs: map[string][]int{
	expandName("(*~stm.Builder).Build"): {0}, expandName("(*~stm.Builder).BuildMany"): {0}}}

func init() {
	All["C07"] = Check{Spec: true, Run: func(c *Ctx) {
		c.R.Rule("records", "each state records the outcomes of exactly the tests of its successors; the machine's tests are those of all nodes but the root")
		c.R.Rule("answers", "Is, IsInc, ..., SetOf, Inc, ..., Tests answer exactly from the records; Add records all its tests")
		c.R.Rule("set", "the members of a set are what was put in, sorted")
		c.build("records")
		for _, m := range []string{"Is", "IsInc", "IsPass", "IsFail"} {
			c.same("answers", refs{Impl: c.method("stm/verdict", "Verdict", m), Spec: "Verdict" + m + "|Verdict" + m + "2"})
		}
		for _, m := range []string{"SetOf", "Inc", "Pass", "Fail"} {
			c.same("answers", refs{Impl: c.method("stm/verdict", "Verdict", m), Spec: "Verdict" + m + "|Verdict" + m + "2"})
		}
		c.same("answers", refs{Impl: c.method("stm/verdict", "Verdict", "Add"), Spec: "VerdictAdd"})
		c.same("answers", refs{Impl: c.method("stm/verdict", "Verdict", "Tests"), Spec: "VerdictTests|VerdictTests2"})
		c.same("set", refs{Impl: c.spec("ImplSetValues"), Spec: "SetValues|SetValues2|SetValues3"})
	}, Explain: "Builder.Build and the methods of Verdict and Set are compared with their references (core/spec); the walk over the tree and its inner loops are related by a lockstep simulation."}
}
