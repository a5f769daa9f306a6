package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
)

// refs is how a function is compared with its reference.
type refs struct {
	Impl   *ssa.Function
	Spec   string // name of the reference function
	Opaque []string
	Opt    absint.EquivOpts
	Cfg    absint.Config
	// Setup may prepare the state and the arguments.
	Setup func(in *absint.Interp, st *absint.State, args []*T)
	Merge bool
	// NoCrash: whether the function may crash on some input is not decided here.
	NoCrash bool
}

// spec finds a reference function.
func (c *Ctx) spec(name string) *ssa.Function {
	return c.P.Spec(name)
}

// same decides whether a function does what its reference says. The reference may be given in several forms
// ("A|B"), which say the same in different ways; the function has to match one of them.
func (c *Ctx) same(rule string, x refs) bool {
	r := c.R
	if x.Impl == nil {
		r.Undecided(rule, x.Spec, "", "the function to compare was not found %s", strings.Join(c.P.SpecErrs, "; "))
		return false
	}
	where, pos := x.Impl.String(), c.fnPos(x.Impl)
	var first []string
	for _, name := range strings.Split(x.Spec, "|") {
		sp := c.spec(name)
		if sp == nil {
			r.Undecided(rule, name, "", "reference not found %s", strings.Join(c.P.SpecErrs, "; "))
			return false
		}
		if !sameSignature(x.Impl, sp) {
			r.Undecided(rule, where, pos, "the parameters or results of %s have changed", where)
			return false
		}
		n, bad := c.compare(x, sp)
		if len(bad) == 0 {
			for i := 0; i < n; i++ {
				r.OK(rule, where)
			}
			return true
		}
		if first == nil {
			first = bad
		}
	}
	for i, d := range first {
		if i < 8 {
			r.Bad(rule, where, pos, "%s", d)
		}
	}
	return false
}

func (c *Ctx) compare(x refs, sp *ssa.Function) (n int, bad []string) {
	r := c.R
	x.Cfg.NoMerge = !x.Merge
	x.Cfg.NilChecks = !x.NoCrash
	in := c.interpC(x.Cfg, x.Opaque...)
	st := in.NewState()
	var args []*T
	for _, p := range x.Impl.Params {
		args = append(args, in.U.Param(p.Name(), p.Type()))
	}
	if rcv := x.Impl.Signature.Recv(); rcv != nil && len(args) > 0 {
		if _, ok := pointerTo(rcv.Type()); ok {
			st.F.Assume(in.U, in.U.Eq(args[0], in.U.Nil()), false)
		}
	}
	if x.Setup != nil {
		x.Setup(in, st, args)
	}
	mark := in.Mark()
	as, err := in.Run(st.Clone(), x.Impl, args...)
	if err != nil {
		return 0, []string{err.Error()}
	}
	certain := in.Certain
	if c.Followed == nil {
		c.Followed = map[string]bool{}
	}
	for f := range in.Stats.Funcs {
		c.Followed[f] = true
	}
	bs, err := in.Run(st.Clone(), sp, args...)
	if err != nil {
		return 0, []string{"reference: " + err.Error()}
	}
	if !x.NoCrash {
		bad = append(bad, in.Crashes(certain, as, bs)...)
	}
	opt := x.Opt
	opt.SetResults(x.Impl.Signature.Results())
	diffs, err := in.Equiv(as, bs, mark, &opt)
	r.Count("functions interpreted", len(in.Stats.Funcs))
	r.Count("abstract paths", len(as)+len(bs))
	r.Count("loops summarised", in.Stats.Loops)
	r.Count("calls resolved", in.Stats.Calls)
	r.Count("path pairs compared", opt.Pairs)
	r.Count("loop relations tried", opt.Loops)
	if err != nil {
		return 0, []string{err.Error()}
	}
	if opt.Pairs == 0 {
		return 0, []string{"no path of the function could be compared"}
	}
	for _, d := range diffs {
		bad = append(bad, d.What)
	}
	if len(bad) > 0 {
		bad = append(bad, opt.Why...)
	}
	return opt.Pairs, bad
}

func sameSignature(a, b *ssa.Function) bool {
	if len(a.Params) != len(b.Params) || a.Signature.Results().Len() != b.Signature.Results().Len() {
		return false
	}
	for i := range a.Params {
		if !types.Identical(a.Params[i].Type(), b.Params[i].Type()) {
			return false
		}
	}
	for i := 0; i < a.Signature.Results().Len(); i++ {
		if !types.Identical(a.Signature.Results().At(i).Type().Underlying(), b.Signature.Results().At(i).Type().Underlying()) {
			return false
		}
	}
	return true
}
