package rules

import "verif/checker/absint"

func init() {
	All["C34"] = Check{Spec: true, Run: runC34, Explain: "Failures, Failure.Node and SpineNodes are compared with their references (core/spec/factor.go.txt) on a symbolic map of tests and a symbolic trace; equality of traces is the one that C28 decides.",
		Assume: []string{slicesValues, loopOrder}}
}

func runC34(c *Ctx) {
	r := c.R
	r.Rule("failures", "the failures are the forbidden events of the tests whose prefix equals the trace, each with the name of its test")
	r.Rule("test point", "a failure is a test point of its event, for its test")
	r.Rule("spines", "one spine for each input, and a last one for all outputs, each ending in the last event of the trace")
	r.Rule("equality", "traces are equal exactly when they have the same events in the same order")
	eq := []string{"(~trace.Trace).Equals", "(~trace.Trace).IsPrefixOf"}
	e := absint.EquivOpts{}
	c.same("failures", refs{Impl: c.fn("factorise", "Failures"), Spec: "FactorFailures|FactorFailures2|FactorFailures3|FactorFailures4", Opaque: eq, Opt: e})
	c.same("test point", refs{Impl: c.method("factorise", "Failure", "Node"), Spec: "FactorPoint", Opt: e})
	c.same("spines", refs{Impl: c.fn("factorise", "SpineNodes"), Spec: "FactorSpines|FactorSpines2|FactorSpines3|FactorSpines4|FactorSpines5", Opaque: append(eq, "~factorise.Failures"), Opt: e})
	c.same("equality", refs{Impl: c.method("trace", "Trace", "Equals"), Spec: "TraceEquals|TraceEquals2|TraceEquals3|TraceEquals4"})
	c.same("equality", refs{Impl: c.method("trace", "Trace", "IsPrefixOf"), Spec: "IsPrefixOf|IsPrefixOf2|IsPrefixOf3"})
}
