package absint

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// globalUse follows the uses of a package-level variable.
type globalUse struct {
	seen    map[[2]any]bool
	escapes bool // handing out what the variable refers to counts as a change
	follow  func(f *ssa.Function) bool
}

// Changes reports how an instruction that uses the address of a package-level variable may change the variable, or
// something that only it refers to.
func Changes(i ssa.Instruction, g *ssa.Global, escapes bool) (string, token.Pos) {
	w := &globalUse{seen: map[[2]any]bool{}, escapes: escapes, follow: func(f *ssa.Function) bool { return len(f.Blocks) > 0 && (f.Pkg == nil || f.Pkg.Prog == g.Pkg.Prog) }}
	return w.changes(i, g)
}

var (
	onlyInits sync.Map
	allOnce   sync.Once
	all       map[*ssa.Function]bool
)

func allFuncs(p *ssa.Program) map[*ssa.Function]bool {
	allOnce.Do(func() { all = ssautil.AllFunctions(p) })
	return all
}

// onlyInit reports whether nothing outside package initialisation changes g or what it refers to, or hands that out.
func (in *Interp) onlyInit(g *ssa.Global) bool {
	if v, ok := onlyInits.Load(g); ok {
		return v.(bool)
	}
	ok := true
	for f := range allFuncs(in.C.Prog) {
		if f.Name() == "init" && f.Signature.Recv() == nil && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					if what, _ := Changes(i, g, true); what != "" {
						ok = false
					}
				}
			}
		}
	}
	onlyInits.Store(g, ok)
	return ok
}

// mutable reports whether what a value refers to can be changed through it.
func mutable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

// changes finds how an instruction that uses v (a variable's address, or something held in it) may change the variable.
func (w *globalUse) changes(i ssa.Instruction, v ssa.Value) (string, token.Pos) {
	k := [2]any{i, v}
	if w.seen[k] {
		return "", 0
	}
	w.seen[k] = true
	follow := func(x ssa.Value) (string, token.Pos) {
		if x.Referrers() == nil {
			return "", 0
		}
		for _, j := range *x.Referrers() {
			if what, pos := w.changes(j, x); what != "" {
				return what, pos
			}
		}
		return "", 0
	}
	switch i := i.(type) {
	case *ssa.Store:
		if i.Addr == v {
			return "is written", i.Pos()
		}
		if i.Val == v && w.escapes && mutable(v.Type()) {
			return "is kept elsewhere", i.Pos()
		}
		if _, ok := v.(*ssa.Global); ok {
			return "has its address taken", i.Pos()
		}
	case *ssa.MapUpdate:
		if i.Map == v {
			return "has entries written", i.Pos()
		}
	case *ssa.FieldAddr:
		return follow(i)
	case *ssa.IndexAddr:
		if i.X == v {
			return follow(i)
		}
	case *ssa.UnOp:
		if i.Op == token.MUL && mutable(i.Type()) {
			return follow(i)
		}
	case *ssa.Slice:
		return follow(i)
	case *ssa.Phi:
		return follow(i)
	case *ssa.Return, *ssa.MakeClosure, *ssa.MakeInterface:
		if w.escapes && mutable(v.Type()) {
			return "is handed out", i.Pos()
		}
	case ssa.CallInstruction:
		if b, ok := i.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear", "copy":
				if i.Common().Args[0] == v {
					return "is changed by " + b.Name(), i.Pos()
				}
			case "append":
				if i.Common().Args[0] == v {
					return "may have its elements overwritten by append", i.Pos()
				}
			}
			return "", 0
		}
		if _, ok := v.(*ssa.Global); ok {
			return "has its address handed to a call", i.Pos()
		}
		if f := i.Common().StaticCallee(); f != nil && len(f.Params) == len(i.Common().Args) && len(f.Blocks) > 0 && w.follow(f) {
			for k, a := range i.Common().Args {
				if a == v {
					if what, pos := follow(f.Params[k]); what != "" {
						return what + " in " + f.Name(), pos
					}
				}
			}
			return "", 0
		}
		if f := i.Common().StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "sort" || f.Pkg.Pkg.Path() == "slices") {
			return "may be reordered by " + f.Name(), i.Pos()
		}
	}
	return "", 0
}
