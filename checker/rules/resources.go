package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

// closer reports whether values of a type can be closed.
func closer(t types.Type) bool {
	if t == nil || strings.Contains(t.String(), "encoding/") {
		return false // encoders hold nothing to give back
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == "Close" {
				if s := f.Type().(*types.Signature); s.Params().Len() == 0 {
					return true
				}
			}
		}
	}
	return false
}

func closers(t *types.Tuple) bool {
	for i := 0; i < t.Len(); i++ {
		if closer(t.At(i).Type()) {
			return true
		}
	}
	return false
}

func runC22(c *Ctx) {
	r := c.R
	r.Rule("closed", "on every path, each file that a function opens is closed exactly once, or handed to the caller")
	r.Rule("use", "no file, or reader or writer made from it, is used after the file is closed")
	r.Rule("close errors", "a failure to close a file that was written to makes the function fail, as does any earlier error")
	// functions that are given a file are followed, others are judged on their own
	takes := func(fn *ssa.Function) bool {
		return closers(fn.Signature.Params()) || fn.Signature.Recv() != nil && closer(fn.Signature.Recv().Type())
	}
	cfg := absint.Config{NoMerge: true, ErrEvents: true, Opaque: func(fn *ssa.Function) bool { return fn.Parent() == nil && c.P.InModule(core.PkgPath(fn)) && !takes(fn) }}
	n := 0
	for _, fn := range c.units(opensFiles) {
		in := c.interpC(cfg)
		outs := c.run(in, "closed", fn)
		n++
		c.files(in, fn, outs)
		c.lost("close errors", fn, c.propagation(in, fn, outs, func(e *absint.Effect) bool {
			return strings.HasSuffix(e.Name, ").Close") && writable(e)
		}))
	}
	r.Count("functions that open files", n)
	if n == 0 {
		r.Undecided("closed", "module", "", "no function opens a file")
	}
}

// opensFiles reports whether a function (or a function literal in it) calls something that returns a thing to be closed.
func opensFiles(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && closers(ci.Common().Signature().Results()) {
				return true
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		if opensFiles(f) {
			return true
		}
	}
	return false
}

// files judges what a function does with the files it opens.
func (c *Ctx) files(in *absint.Interp, fn *ssa.Function, outs []absint.Outcome) {
	r, u := c.R, in.U
	bad := map[string]bool{}
	report := func(rule, pos, what string, f *absint.Facts) {
		k := rule + pos + what
		if !bad[k] {
			bad[k] = true
			r.Bad(rule, fn.String(), pos, "%s when %s", what, absint.FactStr(f, 0))
		}
	}
	sites := map[string]bool{}
	var judge func(effs []*absint.Effect, f *absint.Facts, res []*T, ends bool)
	// path lists the effects of one path, with those of the iterations that end loops
	var path func(effs []*absint.Effect, f *absint.Facts) (out []*absint.Effect)
	seen := map[*absint.Loop]bool{}
	path = func(effs []*absint.Effect, f *absint.Facts) (out []*absint.Effect) {
		for _, e := range effs {
			if e.Loop == nil {
				out = append(out, e)
				continue
			}
			for i := range e.Loop.Paths {
				p := &e.Loop.Paths[i]
				if p.Kind != "back" {
					if entails(in, f, p.Facts) {
						out = append(out, path(p.Effects, f)...)
					}
					continue
				}
				if !seen[e.Loop] {
					judge(p.Effects, p.Facts, nil, false)
				}
				// what an iteration does to files opened before
				for _, x := range path(p.Effects, p.Facts) {
					y := *x
					y.Kind = "repeated " + x.Kind
					out = append(out, &y)
				}
			}
			seen[e.Loop] = true
		}
		return out
	}
	judge = func(effs []*absint.Effect, f *absint.Facts, res []*T, ends bool) {
		es := path(effs, f)
		for i, e := range es {
			if e.Kind != "call" && e.Kind != "opaque" {
				continue
			}
			for k, t := range e.Res {
				if !closer(t.Typ) {
					continue
				}
				g := f
				for _, x := range e.Res {
					if isErr(x.Typ) {
						g = in.With(g, u.Eq(x, u.Nil()))
					}
					if g == nil {
						break
					}
				}
				if g == nil || g.Decide(u, u.Eq(t, u.Nil())) == absint.True {
					continue // not open on this path
				}
				_ = k
				sites[e.Pos+" "+e.Name] = true
				made := map[*T]bool{t: true}
				closed, handed := "", false
				for _, x := range es[i+1:] {
					base := strings.TrimPrefix(x.Kind, "repeated ")
					if base != "call" && base != "opaque" {
						continue
					}
					uses := false
					for _, a := range x.Args {
						uses = uses || mentions(a, made)
					}
					if !uses {
						continue
					}
					isClose := strings.HasSuffix(x.Name, ").Close") && unbox(x.Args[0]) == t
					switch {
					case isClose && closed != "":
						report("closed", e.Pos, "the file opened by "+e.Name+" is closed twice ("+closed+", "+x.Pos+")", f)
					case isClose && base != x.Kind:
						report("closed", e.Pos, "the file opened by "+e.Name+" is closed in a loop ("+x.Pos+")", f)
					case isClose:
						closed = x.Pos
					case closed != "":
						report("use", x.Pos, "the file opened by "+e.Name+" is used by "+x.Name+" after it is closed at "+closed, f)
					default:
						for _, y := range x.Res {
							if !isErr(y.Typ) {
								made[y] = true
							}
						}
					}
				}
				for _, y := range res {
					handed = handed || mentions(y, map[*T]bool{t: true})
				}
				switch {
				case closed == "" && !handed:
					report("closed", e.Pos, "the file opened by "+e.Name+" is never closed", f)
				case closed != "" && handed && ends:
					report("use", e.Pos, "the file opened by "+e.Name+" is returned after it is closed at "+closed, f)
				}
			}
		}
	}
	for _, o := range outs {
		if o.Kind != "return" {
			continue // the program ends
		}
		judge(o.St.Effects, o.St.F, o.Res, true)
	}
	for s := range sites {
		r.OK("closed", fn.String()+" "+s)
	}
}

// mentions reports whether a term is made of one of some others; errors do not count.
func mentions(t *T, ts map[*T]bool) bool {
	if ts[t] {
		return true
	}
	if t.Op != absint.OIface && t.Op != absint.OStruct && t.Op != absint.OList && t.Op != absint.OUnwrap && t.Op != absint.OTuple {
		return false
	}
	for _, a := range t.Args {
		if mentions(a, ts) {
			return true
		}
	}
	return false
}
