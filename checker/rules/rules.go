// Package rules holds one check per property.
package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

// Ctx is what a check works with.
type Ctx struct {
	P    *core.Program
	R    *core.Report
	Tier string
	// Followed are the functions interpreted while functions were compared with their references.
	Followed map[string]bool

	calls  map[*ssa.Function][]ssa.CallInstruction
	values map[*ssa.Function]bool
	via    map[string]bool
}

// Check decides one property.
type Check struct {
	Run     func(c *Ctx)
	Explain string
	Assume  []string
	Spec    bool // needs the reference functions
}

// All maps property identifiers to checks.
var All = map[string]Check{}

// IDs lists the checks.
func IDs() []string {
	var ids []string
	for id := range All {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// followed reports whether a function was interpreted while functions were compared with their references.
func (c *Ctx) followed(f *ssa.Function) bool {
	return c.Followed[f.String()] || c.Followed[absint.FuncName(f)]
}

// T abbreviates terms.
type T = absint.Term

// Mod is the analysed module.
const Mod = core.Mod

// interp makes an interpreter with the given functions (by full name) opaque.
func (c *Ctx) interp(opaque ...string) *absint.Interp {
	return c.interpC(absint.Config{}, opaque...)
}

func (c *Ctx) interpC(cfg absint.Config, opaque ...string) *absint.Interp {
	set := map[string]bool{}
	for _, o := range opaque {
		set[expandName(o)] = true
	}
	cfg.Prog, cfg.InModule, cfg.RepoDir = c.P.Prog, c.P.InModule, c.P.Dir
	more := cfg.Opaque
	cfg.Opaque = func(fn *ssa.Function) bool {
		return set[absint.FuncName(fn)] || more != nil && more(fn)
	}
	return absint.New(cfg)
}

// expandName expands "~" to the module's internal path.
func expandName(n string) string { return strings.ReplaceAll(n, "~", Mod+"/internal/") }

// run interprets a function on symbolic parameters.
func (c *Ctx) run(in *absint.Interp, rule string, fn *ssa.Function, args ...*T) []absint.Outcome {
	return c.runSt(in, in.NewState(), rule, fn, args...)
}

func (c *Ctx) runSt(in *absint.Interp, st *absint.State, rule string, fn *ssa.Function, args ...*T) []absint.Outcome {
	if fn == nil {
		c.R.Undecided(rule, "anchor", "", "the function this rule starts from does not exist any more")
		return nil
	}
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, in.U.Param(p.Name(), p.Type()))
		}
	}
	outs, err := in.Run(st, fn, args...)
	if err != nil {
		c.R.Undecided(rule, fn.String(), "", "%v", err)
		return nil
	}
	c.R.Count("functions interpreted", len(in.Stats.Funcs))
	c.R.Count("abstract paths", len(outs))
	c.R.Count("loops summarised", in.Stats.Loops)
	c.R.Count("calls resolved", in.Stats.Calls)
	return outs
}

// tryRun interprets a function that may turn out to be too much.
func (c *Ctx) tryRun(in *absint.Interp, fn *ssa.Function) ([]absint.Outcome, bool) {
	var args []*T
	for _, p := range fn.Params {
		args = append(args, in.U.Param(p.Name(), p.Type()))
	}
	outs, err := in.Run(in.NewState(), fn, args...)
	return outs, err == nil
}

// fn finds a package-level function, or reports that the anchor is gone.
func (c *Ctx) fn(path, name string) *ssa.Function {
	f := c.P.Func("internal/"+path, name)
	if f == nil {
		c.R.Undecided("anchor", path+"."+name, "", "function not found")
	}
	return f
}

// method finds a method, or reports that the anchor is gone.
func (c *Ctx) method(path, typ, name string) *ssa.Function {
	f := c.P.Method("internal/"+path, typ, name)
	if f == nil {
		c.R.Undecided("anchor", path+"."+typ+"."+name, "", "method not found")
	}
	return f
}

// field finds the index of a struct field by name.
func field(t types.Type, name string) (int, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	return -1, nil
}

// get reads a named field of a struct value.
func get(u *absint.Universe, v *T, typ types.Type, name string) *T {
	i, ft := field(typ, name)
	if i < 0 {
		panic(fmt.Sprintf("no field %s in %s", name, typ))
	}
	return u.Field(v, i, ft)
}

// faddr is the address of a named field.
func faddr(u *absint.Universe, p *T, typ types.Type, name string) (*T, types.Type) {
	i, ft := field(typ, name)
	if i < 0 {
		panic(fmt.Sprintf("no field %s in %s", name, typ))
	}
	return u.FieldAddr(p, i, ft), ft
}

// try runs part of a check with a report of its own.
func (c *Ctx) try(f func()) *core.Report {
	old := c.R
	defer func() { c.R = old }()
	c.R = core.NewReport(old.Prop)
	f()
	return c.R
}
