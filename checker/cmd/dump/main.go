// Command dump prints what the abstract interpreter finds about one function.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

func main() {
	dir := flag.String("repo", "/repo", "")
	opaque := flag.String("opaque", "", "comma-separated substrings")
	nc := flag.Bool("nil", false, "")
	flag.BoolVar(&absint.DumpMem, "v", false, "")
	flag.Parse()
	p, err := core.Load(*dir, true)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	a := flag.Args()
	var fn *ssa.Function
	if len(a) == 3 {
		fn = p.Method(a[0], a[1], a[2])
	} else {
		fn = p.Func(a[0], a[1])
	}
	in := absint.New(absint.Config{Prog: p.Prog, InModule: p.InModule, RepoDir: *dir, NilChecks: *nc, Opaque: func(f *ssa.Function) bool {
		for _, s := range strings.Split(*opaque, ",") {
			if s != "" && strings.Contains(f.String(), s) {
				return true
			}
		}
		return false
	}})
	var args []*absint.Term
	for _, q := range fn.Params {
		args = append(args, in.U.Param(q.Name(), q.Type()))
	}
	outs, err := in.Run(in.NewState(), fn, args...)
	if err != nil {
		fmt.Println("ERROR", err)
	}
	for i, o := range outs {
		fmt.Printf("=== outcome %d: %s %v\n", i, o.Kind, o.Res)
		in.DumpState(os.Stdout, o.St, "  ")
	}
	fmt.Printf("%+v\n", in.Stats)
}
