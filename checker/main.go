// Command checker decides the properties of /verif/properties.jsonl from the source of the analysed repository.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"verif/checker/core"
	"verif/checker/rules"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where known_findings and evidence are")
	all := flag.Bool("all", false, "run every check")
	list := flag.Bool("list", false, "list the checks")
	self := flag.Bool("selftest", false, "compare the pairs of functions in core/selftest")
	fam := flag.String("family", "", "show what the generators do for a member of the family")
	flag.Parse()
	if *fam != "" {
		os.Exit(rules.FamilyDump(*repo, *fam))
	}
	if *self {
		os.Exit(rules.SelfTest(*repo))
	}
	if *list {
		for _, id := range rules.IDs() {
			fmt.Println(id)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := flag.Args()
	if *all {
		ids = rules.IDs()
	}
	code := 0
	for _, id := range ids {
		if c := run(id, *repo, *verif, tier, seed); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func run(id, repo, verif, tier string, seed int) (code int) {
	start := time.Now()
	r := core.NewReport(id)
	chk, ok := rules.All[id]
	if !ok {
		r.Undecided("setup", id, "", "no such check")
		return r.Finish(verif, tier, seed, start, "", nil)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("CHECKER_DEBUG") != "" {
					debug.PrintStack()
				}
				r.Undecided("analysis", id, "", "the analysis crashed: %v %s", x, where())
			}
		}()
		p, err := core.Load(repo, chk.Spec)
		if err != nil {
			r.Bad("load", "program", "", "%v", err)
			return
		}
		r.Count("packages", len(p.Pkgs))
		r.Count("files", p.Files)
		chk.Run(&rules.Ctx{P: p, R: r, Tier: tier})
	}()
	limit := 600 * time.Second
	select {
	case <-done:
	case <-time.After(limit):
		nr := core.NewReport(id)
		nr.Undecided("time", id, "", "the analysis did not finish within %s", limit)
		fmt.Println("timeout")
		return nr.Finish(verif, tier, seed, start, chk.Explain, chk.Assume)
	}
	return r.Finish(verif, tier, seed, start, chk.Explain, chk.Assume)
}

func where() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/checker/rules/") || strings.Contains(l, "/checker/absint/") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}
