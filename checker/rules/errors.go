package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

func init() {
	All["C11"] = Check{Spec: true, Run: runC11, Explain: "Each function that returns an error, and each one that starts from nowhere, is interpreted on its own, with the calls between them kept as calls; for every call that may return an error, the path on which it does has to end with an error or a failing exit.", Assume: []string{"strings.Builder and bytes.Buffer never fail; failures to write to standard error and to close a file only read from, filepath.Rel's answer that there is no relative path, io.EOF and a missing file looked up with os.Stat are not failures of the tool"}}
	All["C22"] = Check{Run: runC22, Explain: "Each function that opens a file is interpreted on its own; on every path every file is closed once and not used afterwards, or handed to the caller, and a failure to close a file written to is an error.", Assume: []string{"a file is closed by its Close method only"}}
}

var errorType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errorType) }

// errResults are the positions of the error results of a function.
func errResults(s *types.Signature) (is []int) {
	for i := 0; i < s.Results().Len(); i++ {
		if isErr(s.Results().At(i).Type()) {
			is = append(is, i)
		}
	}
	return is
}

// takesErr reports whether a function is given an error: what becomes of it is seen only by following the function.
func takesErr(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if isErr(t) {
			return true
		}
	}
	return false
}

// units lists the functions to judge one by one; calls between them are not followed, calls to any other function are.
func (c *Ctx) units(keep func(fn *ssa.Function) bool) (us []*ssa.Function) {
	for _, f := range c.P.Funcs() {
		if f.Parent() == nil && f.TypeParams().Len() == len(f.TypeArgs()) && keep(f) {
			us = append(us, f)
		}
	}
	return us
}

func runC11(c *Ctx) {
	r := c.R
	r.Rule("propagation", "on every path of every function, an error that a call may have returned is nil, or the function returns an error, or the program ends with a failure")
	r.Rule("report", "HandleError writes a non-nil error to standard error and ends the program with a status other than zero")
	c.same("report", refs{Impl: c.fn("cli", "HandleError"), Spec: "HandleError|HandleError2"})
	called := map[*ssa.Function]bool{} // functions followed from others
	unit := func(fn *ssa.Function) bool { return len(errResults(fn.Signature)) > 0 }
	byName := map[string]*ssa.Function{}
	for _, f := range c.P.Funcs() {
		byName[f.String()] = f
	}
	check := func(fn *ssa.Function) {
		follow := map[*ssa.Function]bool{}
		cfg := absint.Config{NoMerge: true, ErrEvents: true, Opaque: func(f *ssa.Function) bool {
			return f.Parent() == nil && c.P.InModule(core.PkgPath(f)) && unit(f) && !follow[f] && !takesErr(f.Signature)
		}}
		in := c.interpC(cfg)
		outs := c.run(in, "propagation", fn)
		for name := range in.Stats.Funcs {
			if f := byName[name]; f != nil && f != fn {
				called[f] = true
			}
		}
		lost := c.propagation(in, fn, outs, nil)
		// a callee whose error is dropped is followed: it may be unable to fail as it is used here
		for more := true; more; {
			more = false
			for _, v := range lost {
				if f := byName[v.callee]; v.bad != "" && f != nil && f != fn && !follow[f] && len(f.Blocks) > 0 {
					follow[f], more = true, true
				}
			}
			if more {
				in = c.interpC(cfg)
				var ok bool
				if outs, ok = c.tryRun(in, fn); !ok {
					break
				}
				lost = c.propagation(in, fn, outs, nil)
			}
		}
		c.lost("propagation", fn, lost)
	}
	for _, fn := range c.units(unit) {
		check(fn)
	}
	// functions that return no error and that no such function uses
	for _, fn := range c.units(func(fn *ssa.Function) bool { return !unit(fn) }) {
		if fn.Name() == "init" || called[fn] || !c.callsErr(fn, map[*ssa.Function]bool{}) || fn.Pkg.Pkg.Name() != "main" && !calledFromNowhere(c, fn) {
			continue
		}
		check(fn)
	}
}

// calledFromNowhere reports whether no function of the module calls fn directly.
func calledFromNowhere(c *Ctx, fn *ssa.Function) bool {
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					return false
				}
			}
		}
	}
	return true
}

// callsErr reports whether fn, or a function that it calls and that returns no error, calls one that returns an error.
func (c *Ctx) callsErr(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if len(errResults(ci.Common().Signature())) > 0 {
				return true
			}
			if f := ci.Common().StaticCallee(); f != nil && f.Blocks != nil && c.P.InModule(core.PkgPath(f)) && c.callsErr(f, seen) {
				return true
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		if c.callsErr(f, seen) {
			return true
		}
	}
	return false
}

// harmless explains why the failure of a call does not have to be reported.
func harmless(in *absint.Interp, f *absint.Facts, e *absint.Effect) string {
	u := in.U
	err := e.Res[0]
	switch {
	case strings.HasPrefix(e.Name, "(*strings.Builder)."), strings.HasPrefix(e.Name, "(*bytes.Buffer)."):
		return "never fails"
	case strings.HasPrefix(e.Name, "fmt.Fprint") && len(e.Args) > 0 && unbox(e.Args[0]).String() == "os.Stderr":
		return "writes to standard error"
	case strings.HasSuffix(e.Name, ").Close") && !writable(e):
		return "closes a file that was only read"
	case e.Name == "path/filepath.Rel":
		return "only says that a path has no relative form"
	case e.Name == "errors.Unwrap", e.Name == "(error).Unwrap":
		return "takes an error apart"
	}
	// sentinels that are no failures
	for _, x := range f.List() {
		if x.Op == absint.OApp && x.Aux == "errors.Is" && len(x.Args) == 2 && x.Args[0] == err && sentinel(e.Name, x.Args[1]) && f.Decide(u, x) == absint.True {
			return "the end of the input, or a file that is not there yet"
		}
		if x.Op == absint.OEq && len(x.Args) == 2 && f.Decide(u, x) == absint.True {
			for k := range x.Args {
				if x.Args[k] == err && sentinel(e.Name, x.Args[1-k]) {
					return "the end of the input"
				}
			}
		}
	}
	return ""
}

// reread reports whether a text that could not be read in one way is read in another way next.
func reread(e *absint.Effect, later []*absint.Effect) bool {
	if !strings.HasPrefix(e.Name, "strconv.") && !strings.HasSuffix(e.Name, ").UnmarshalText") {
		return false
	}
	text := e.Args[0]
	if strings.HasSuffix(e.Name, ").UnmarshalText") {
		text = e.Args[len(e.Args)-1]
	}
	for _, x := range later {
		if x.Kind == "err" && x.Name != e.Name {
			for _, a := range x.Args {
				if a == text || contains(a, text) || contains(text, a) {
					return true
				}
			}
		}
	}
	return false
}

func contains(t, part *T) bool {
	if t == part {
		return true
	}
	for _, a := range t.Args {
		if contains(a, part) {
			return true
		}
	}
	return false
}

func unbox(t *T) *T {
	for t.Op == absint.OIface {
		t = t.Args[0]
	}
	return t
}

// writable reports whether a file to be closed may have been written to.
func writable(e *absint.Effect) bool {
	x := unbox(e.Args[0])
	if x.Op == absint.ORes {
		for _, p := range []string{"os.Create#", "os.OpenFile#", "os.CreateTemp#"} {
			if strings.HasPrefix(x.Aux, p) {
				return true
			}
		}
		return false
	}
	return x.Typ == nil || !strings.Contains(x.Typ.String(), "ReadCloser") && !strings.Contains(x.Typ.String(), "fs.File")
}

// sentinel reports whether an error value is one that a call uses to say something other than that it failed.
func sentinel(call string, err *T) bool {
	switch err.String() {
	case "io.EOF":
		return strings.Contains(call, "Read") || strings.HasSuffix(call, ".Decode") || strings.HasSuffix(call, ".Token")
	case "io/fs.ErrNotExist", "os.ErrNotExist":
		return call == "os.Stat" || call == "os.Lstat"
	}
	return false
}

// errSite is the verdict on one call that may fail.
type errSite struct {
	callee, pos, bad string
}

// lost reports the verdicts on a function.
func (c *Ctx) lost(rule string, fn *ssa.Function, sites []*errSite) {
	for _, v := range sites {
		if v.bad != "" {
			c.R.Bad(rule, fn.String(), v.pos, "%s", v.bad)
			continue
		}
		c.R.OK(rule, fn.String()+" "+v.pos+" "+v.callee)
	}
	c.R.Count("calls that may fail", len(sites))
}

// propagation judges the outcomes of one function.
func (c *Ctx) propagation(in *absint.Interp, fn *ssa.Function, outs []absint.Outcome, only func(e *absint.Effect) bool) (order []*errSite) {
	u := in.U
	sites := map[string]*errSite{}
	judge := func(e *absint.Effect, later []*absint.Effect, f *absint.Facts, fails func(g *absint.Facts) bool) {
		if only != nil && !only(e) {
			return
		}
		k := e.Pos + " " + e.Name
		v := sites[k]
		if v == nil {
			v = &errSite{callee: e.Name, pos: e.Pos}
			sites[k] = v
			order = append(order, v)
		}
		g := in.With(f, u.Not(u.Eq(e.Res[0], u.Nil())))
		if g == nil || harmless(in, g, e) != "" || reread(e, later) || fails(g) {
			return
		}
		if v.bad == "" {
			v.bad = "the error of " + e.Name + " is lost when " + absint.FactStr(f, 0)
		}
	}
	carry := map[*absint.Loop]map[*absint.LoopVar]*absint.Effect{} // loop variables that keep an error for later, and the call it is from
	var walk func(effs []*absint.Effect, f *absint.Facts, fails func(g *absint.Facts) bool)
	walk = func(effs []*absint.Effect, f *absint.Facts, fails func(g *absint.Facts) bool) {
		for k, e := range effs {
			switch {
			case e.Kind == "err":
				judge(e, effs[k+1:], f, fails)
			case e.Loop != nil:
				if carry[e.Loop] == nil {
					carry[e.Loop] = map[*absint.LoopVar]*absint.Effect{}
					var cur *absint.Effect
					for i := range e.Loop.Paths {
						// what iterations that go on do; the effects of those that end the loop come after the loop
						if p := &e.Loop.Paths[i]; p.Kind == "back" {
							for k := range p.Effects {
								cur = p.Effects[k]
								walk(p.Effects[k:k+1], p.Facts, func(g *absint.Facts) bool {
									for v, n := range p.Next {
										if v.Start.Typ != nil && isErr(v.Start.Typ) && g.Decide(u, u.Eq(n, u.Nil())) == absint.False {
											carry[e.Loop][v] = cur
											return true
										}
									}
									return false
								})
							}
						}
					}
				}
				// an error kept must neither be dropped by a later iteration nor after the loop
				for v, from := range carry[e.Loop] {
					err := *from
					err.Kind, err.Res = "err", []*T{v.Start}
					for i := range e.Loop.Paths {
						if p := &e.Loop.Paths[i]; p.Kind == "back" {
							judge(&err, nil, p.Facts, func(g *absint.Facts) bool { return g.Decide(u, u.Eq(p.Next[v], u.Nil())) == absint.False })
						}
					}
					judge(&err, nil, f, fails)
				}
			}
		}
	}
	is := errResults(fn.Signature)
	for _, o := range outs {
		walk(o.St.Effects, o.St.F, func(g *absint.Facts) bool {
			switch o.Kind {
			case "panic":
				return true
			case "exit":
				for _, e := range o.St.Effects {
					if e.Name == "os.Exit" && g.Decide(u, u.Eq(e.Args[0], u.Int(0))) != absint.False {
						return false
					}
				}
				return true
			}
			for _, i := range is {
				if i < len(o.Res) && g.Decide(u, u.Eq(o.Res[i], u.Nil())) == absint.False {
					return true
				}
			}
			return false
		})
	}
	return order
}

// entails reports whether everything in p holds under f.
func entails(in *absint.Interp, f, p *absint.Facts) bool {
	for _, x := range p.List() {
		if f.Decide(in.U, x) != absint.True {
			return false
		}
	}
	return true
}
