package rules

import "verif/checker/absint"

const slicesValues = "append does not alias (slices are values)"

func init() {
	All["C04"] = Check{Spec: true, Run: func(c *Ctx) {
		c.R.Rule("collapse", "Collapse rejects what is no chain of valid nodes and otherwise gives back the events")
		c.R.Rule("suite", "CollapseAll fails if an entry fails and keeps every entry under its own name")
		c.same("collapse", refs{Impl: c.fn("trace", "Collapse"), Spec: "Collapse", Opt: absint.EquivOpts{ErrorsOnly: true}})
		c.same("suite", refs{Impl: c.fn("trace", "CollapseAll"), Spec: "CollapseAll", Opaque: []string{"~trace.Collapse"}, Opt: absint.EquivOpts{ErrorsOnly: true}})
	}, Explain: "Collapse and CollapseAll are compared with their references (core/spec) on symbolic trees; loops are related by a lockstep simulation.",
		Assume: []string{slicesValues}}
	All["C05"] = Check{Spec: true, Run: func(c *Ctx) {
		c.R.Rule("node", "Root, Node and OneNext accept exactly the well-formed nodes")
		c.R.Rule("tree", "Full accepts a tree exactly if its root and every node reached from it are well-formed, and hands out that root")
		c.R.Rule("suite", "FullSuite rejects a suite with a bad test and otherwise keeps every test")
		e := absint.EquivOpts{ErrorsOnly: true}
		c.same("node", refs{Impl: c.fn("validate", "Root"), Spec: "Root", Opt: e})
		c.same("node", refs{Impl: c.fn("validate", "Node"), Spec: "Node", Opt: e})
		c.same("node", refs{Impl: c.fn("validate", "OneNext"), Spec: "OneNext", Opt: e})
		c.same("tree", refs{Impl: c.spec("ImplFullRoot"), Spec: "FullRoot|FullRoot2", Opt: e})
		c.same("suite", refs{Impl: c.fn("validate", "FullSuite"), Spec: "FullSuite", Opaque: []string{"~validate.Full"}, Opt: e})
	}, Explain: "validate.Root, Node, OneNext, Full (with its walk) and FullSuite are compared with their references (core/spec) on symbolic trees: same acceptance on every pair of feasible paths, same tree handed out, every node visited.", Assume: []string{slicesValues}}
	All["C06"] = Check{Spec: true, Run: func(c *Ctx) {
		c.R.Rule("group", "a transition is filed under its channel, last; a channel without transitions gets a new entry at the end")
		c.R.Rule("build", "one state per non-failing node, root first and called initial; fresh identifiers; one transition per non-failing successor")
		c.same("group", refs{Impl: c.fn("stm/transition", "AddToSets"), Spec: "AddToSets"})
		c.build("build")
	}, Explain: "Builder.Build and transition.AddToSets are compared with their references (core/spec); the walk over the tree and its inner loops are related by a lockstep simulation.",
		Assume: []string{slicesValues, typesPure}}
}
