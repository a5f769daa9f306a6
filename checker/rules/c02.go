package rules

func init() {
	All["C02"] = Check{Spec: true, Run: func(c *Ctx) {
		c.R.Rule("naming", "trace.Name maps each trace, unchanged, to its own name if free or else to base name + counter, never to a name in use")
		c.same("naming", refs{Impl: c.fn("trace", "Name"), Spec: "TraceName|TraceName2"})
	}, Explain: "trace.Name and the reference TraceName (core/spec) are interpreted abstractly on the same symbolic list; their loops are related by a lockstep " +
		"simulation and the resulting maps compared term by term.",
		Assume: []string{"append does not alias (slices are values)"}}
	All["C03"] = Check{Spec: true, Run: func(c *Ctx) {
		c.R.Rule("chain", "Forbidden.Expand builds root, prefix nodes in order, passing node, failing node, each tagged with the name")
		c.R.Rule("suite", "ExpandAll keeps every entry under its own name and expands it with that name")
		c.same("chain", refs{Impl: c.method("trace", "Forbidden", "Expand"), Spec: "Expand|Expand2"})
		c.same("suite", refs{Impl: c.fn("trace", "ExpandAll"), Spec: "ExpandAll", Opaque: []string{"(~trace.Forbidden).Expand"}})
	}, Explain: "Forbidden.Expand and ExpandAll are compared with their references (core/spec) on symbolic traces; the loop over the prefix is related by a lockstep simulation.",
		Assume: []string{"append does not alias (slices are values)"}}
}
