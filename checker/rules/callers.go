package rules

import (
	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
)

// callsTo lists the static calls of a function in the module; whole is false if it is also used as a value
// or may be called through an interface or from outside.
func (c *Ctx) callsTo(f *ssa.Function) (calls []ssa.CallInstruction, whole bool) {
	if c.calls == nil {
		c.calls = map[*ssa.Function][]ssa.CallInstruction{}
		c.values = map[*ssa.Function]bool{}
		for _, g := range c.P.Funcs() {
			if core.IsSpec(core.PkgPath(g)) {
				continue
			}
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					ci, isCall := i.(ssa.CallInstruction)
					for n, op := range i.Operands(nil) {
						fn, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if isCall && n == 0 && ci.Common().Value == fn {
							c.calls[fn] = append(c.calls[fn], ci)
						} else {
							c.values[fn] = true
						}
					}
				}
			}
		}
	}
	whole = !c.values[f] && len(c.calls[f]) > 0
	if whole && f.Signature.Recv() != nil {
		if c.via == nil {
			c.via = c.interfaceMethods()
		}
		whole = !c.via[f.Name()]
	}
	return c.calls[f], whole
}

// servant reports whether a function satisfies the predicate, or is only ever called by functions that do.
func (c *Ctx) servant(f *ssa.Function, ok func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var is func(f *ssa.Function) bool
	is = func(f *ssa.Function) bool {
		if ok(f) || seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil {
			return is(f.Parent())
		}
		calls, whole := c.callsTo(f)
		if !whole {
			return false
		}
		for _, ci := range calls {
			if !is(ci.Parent()) {
				return false
			}
		}
		return true
	}
	return is(f)
}

// rootsOf finds what a pointer may point into, through helpers: it calls leaf on everything that is not a phi,
// a conversion, the parameter of a helper or what a helper gives back.
func (c *Ctx) rootsOf(v ssa.Value, leaf func(v ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	results := func(f *ssa.Function, k int) (ok, found bool) {
		ok = true
		for _, b := range f.Blocks {
			if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
				found = true
				ok = ok && walk(r.Results[k])
			}
		}
		return
	}
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if leaf(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Parameter:
			calls, whole := c.callsTo(x.Parent())
			if !whole {
				return false
			}
			for n, p := range x.Parent().Params {
				if p != x {
					continue
				}
				for _, ci := range calls {
					if !walk(ci.Common().Args[n]) {
						return false
					}
				}
			}
			return true
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || f.Blocks == nil {
				return false
			}
			ok, found := results(f, 0)
			return ok && found
		case *ssa.Extract:
			call, isCall := x.Tuple.(*ssa.Call)
			if !isCall {
				return false
			}
			f := call.Call.StaticCallee()
			if f == nil || f.Blocks == nil {
				return false
			}
			ok, found := results(f, x.Index)
			return ok && found
		case *ssa.UnOp:
			// a local variable that holds the pointer
			if al, isLocal := x.X.(*ssa.Alloc); isLocal {
				found := false
				for _, u := range *al.Referrers() {
					switch y := u.(type) {
					case *ssa.Store:
						if y.Addr != al || !walk(y.Val) {
							return false
						}
						found = true
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
				return found
			}
		}
		return false
	}
	return walk(v)
}
