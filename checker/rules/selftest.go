package rules

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
)

// SelfTest compares the pairs of functions in core/selftest: "Eq" pairs have to be found equal, "Ne" pairs different.
func SelfTest(repo string) int {
	core.SelfTest = true
	p, err := core.Load(repo, true)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var names []string
	for path, sp := range p.SSA {
		if !core.IsSpec(path) {
			continue
		}
		for n, m := range sp.Members {
			if _, ok := m.(*ssa.Function); ok && strings.HasSuffix(n, "_A") {
				names = append(names, strings.TrimSuffix(n, "_A"))
			}
		}
	}
	sort.Strings(names)
	bad := 0
	for _, n := range names {
		c := &Ctx{P: p, R: core.NewReport("self")}
		eq := c.same("self", refs{Impl: c.spec(n + "_A"), Spec: n + "_B"})
		if eq != strings.HasPrefix(n, "Eq") {
			bad++
			fmt.Println("WRONG", n, "found equal:", eq)
			for _, f := range c.R.Findings {
				fmt.Println("    ", f.Detail)
			}
		}
	}
	fmt.Println(len(names), "pairs,", bad, "wrong")
	if bad > 0 {
		return 1
	}
	return 0
}
