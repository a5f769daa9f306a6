package rules

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
)

// verdict of an error result under facts: "nil", "err" or "?".
func errState(in *absint.Interp, f *absint.Facts, e *T) string {
	if e.IsNil() {
		return "nil"
	}
	switch f.Decide(in.U, in.U.Eq(e, in.U.Nil())) {
	case absint.True:
		return "nil"
	case absint.False:
		return "err"
	}
	return "?"
}

// leaves lists the leaf fields of a struct type as index paths.
func leaves(t types.Type) (paths [][]int, typs []types.Type, names []string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return [][]int{nil}, []types.Type{t}, []string{""}
	}
	for i := 0; i < s.NumFields(); i++ {
		ps, ts, ns := leaves(s.Field(i).Type())
		for k := range ps {
			paths = append(paths, append([]int{i}, ps[k]...))
			typs = append(typs, ts[k])
			n := s.Field(i).Name()
			if ns[k] != "" {
				n += "." + ns[k]
			}
			names = append(names, n)
		}
	}
	return
}

// leaf selects a leaf of a struct value.
func leaf(u *absint.Universe, v *T, typ types.Type, path []int) *T {
	for _, i := range path {
		ft := typ.Underlying().(*types.Struct).Field(i).Type()
		v = u.Field(v, i, ft)
		typ = ft
	}
	return v
}

// tailPath reports whether an address ends in the given field path.
func tailPath(addr *T, path []int) bool {
	for k := len(path) - 1; k >= 0; k-- {
		if addr.Op != absint.OFieldAddr || addr.Idx != path[k] {
			return false
		}
		addr = addr.Args[0]
	}
	return true
}

// valueCases resolves a term that may be a loop variable to what it can be after the loop.
func valueCases(in *absint.Interp, f *absint.Facts, st *absint.State, t *T) ([]absint.Case, error) {
	if t.Op == absint.OLV && t.Loop != nil && t != t.Loop.K {
		return in.Last(f, t, t.Loop.K)
	}
	return []absint.Case{{F: f, Val: t, St: st}}, nil
}

// short renders a term for a message.
func short(t *T) string {
	if t == nil {
		return "nothing"
	}
	s := t.String()
	if len(s) > 160 {
		s = s[:157] + "..."
	}
	return s
}

// fnPos is the position of a function.
func (c *Ctx) fnPos(fn *ssa.Function) string {
	p := c.P.Prog.Fset.Position(fn.Pos())
	return fmt.Sprintf("%s:%d", c.P.Rel(p.Filename), p.Line)
}

// allEffects walks effects including those of loop iterations.
func allEffects(effs []*absint.Effect, f func(e *absint.Effect)) {
	seen := map[*absint.Effect]bool{}
	var walk func(es []*absint.Effect)
	walk = func(es []*absint.Effect) {
		for _, e := range es {
			if seen[e] {
				continue
			}
			seen[e] = true
			f(e)
			if e.Loop != nil {
				for _, p := range e.Loop.Paths {
					walk(p.Effects)
				}
			}
		}
	}
	walk(effs)
}

// callByResult finds the call whose result version is id.
func callByResult(effs []*absint.Effect, id string) (found *absint.Effect) {
	allEffects(effs, func(e *absint.Effect) {
		if len(e.Res) > 0 && e.Res[0].Aux == id {
			found = e
		}
	})
	return found
}

var intType = types.Typ[types.Int]

func derefType(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func elemOf(t types.Type) types.Type { return t.Underlying().(*types.Slice).Elem() }

// resolveElem resolves a term that is a loop variable or was read from a list that a loop built.
func resolveElem(in *absint.Interp, f *absint.Facts, st *absint.State, effs []*absint.Effect, t *T) ([]absint.Case, error) {
	if t.Op == absint.OInit {
		// &list[i].path
		var path []int
		a := t.Args[0]
		for a.Op == absint.OFieldAddr {
			path = append([]int{a.Idx}, path...)
			a = a.Args[0]
		}
		if a.Op == absint.OIndexAddr {
			l := a.Args[0]
			if l.Op == absint.OLV || l.Op == absint.OMake || l.Op == absint.OCat || l.Op == absint.OSub {
				et := derefType(a.Typ)
				cs, err := in.Elem(st, effs, f, l, a.Args[1], et)
				if err != nil {
					return nil, err
				}
				for i := range cs {
					cs[i].Val = leaf(in.U, cs[i].Val, et, path)
				}
				return cs, nil
			}
		}
	}
	return valueCases(in, f, st, t)
}

type absintType = types.Type

func pointerTo(t types.Type) (types.Type, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}
