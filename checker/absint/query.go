package absint

import (
	"fmt"
	"go/types"
	"strings"
)

// Case is one possibility for the value of something, with what is then known.
type Case struct {
	F    *Facts
	Val  *Term
	St   *State    // memory in which Val is to be read (before substitution)
	Loop *Loop     // loop that made it, or nil
	Path *LoopPath // iteration path that made it
	At   *Term     // number of that iteration
}

// Subst replaces the loop counter of the case's loop by the iteration number.
func (in *Interp) Subst(t *Term, k, i *Term) *Term {
	if k == nil || i == nil || k == i {
		return t
	}
	return in.U.Map(t, func(x *Term) *Term {
		if x == k {
			return i
		}
		if (x.Op == ORes || x.Op == OUnk) && k.Loop != nil && in.bornAfter(x, k.Loop.mark) {
			// the result of a call that iteration i made
			n := *x
			n.Args = append(n.Args[:len(n.Args):len(n.Args)], in.U.App("iteration", types.Typ[types.Int], in.U.Int(int64(k.Loop.mark)), i))
			return in.U.mk(n)
		}
		return nil
	})
}

// In translates a term of the case's iteration into the context.
func (c *Case) In(in *Interp, t *Term) *Term {
	if c.Loop == nil {
		return t
	}
	return in.Subst(t, c.Loop.K, c.At)
}

// Load reads memory of the iteration that made the case, and translates the result; it forks as needed.
func (c *Case) Load(in *Interp, addr *Term, typ types.Type) []Case {
	var out []Case
	st := c.St.clone()
	for _, r := range in.Forks(st, func(st *State) *Term { return in.Load(st, addr, typ) }) {
		f := in.conj(c.F, c.Loop, c.At, r.St.F, nil)
		if f == nil {
			continue
		}
		out = append(out, Case{F: f, Val: c.In(in, r.Val), St: r.St, Loop: c.Loop, Path: c.Path, At: c.At})
	}
	return out
}

// Forked is a result of a forking computation.
type Forked struct {
	St  *State
	Val *Term
}

// Forks runs a computation that may need to fork.
func (in *Interp) Forks(st *State, f func(st *State) *Term) []Forked {
	var out []Forked
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		run := s.clone()
		var v *Term
		cond := in.try(func() { v = f(run) })
		if cond == nil {
			out = append(out, Forked{run, v})
			continue
		}
		if len(out)+len(work) > 256 {
			in.fail("query forks too much")
		}
		t, g := s.clone(), s
		if g.F.Assume(in.U, cond, false) {
			work = append(work, g)
		}
		if t.F.Assume(in.U, cond, true) {
			work = append(work, t)
		}
	}
	return out
}

// conj adds the facts of an iteration, translated, to the context; nil if contradictory.
func (in *Interp) conj(ctx *Facts, l *Loop, at *Term, fs *Facts, extra []*Term) *Facts {
	f := ctx.clone()
	for _, x := range fs.List() {
		if l != nil {
			x = in.Subst(x, l.K, at)
		}
		if !f.Assume(in.U, x, true) {
			return nil
		}
	}
	for _, x := range extra {
		if !f.Assume(in.U, x, true) {
			return nil
		}
	}
	if f.Infeasible(in.U) {
		return nil
	}
	return f
}

// With adds literals to facts; nil if contradictory.
func (in *Interp) With(f *Facts, lits ...*Term) *Facts { return in.conj(f, nil, nil, newFacts(), lits) }

// Conj adds the facts of a state, with the loop counter of l replaced by at.
func (in *Interp) Conj(ctx *Facts, l *Loop, at *Term, fs *Facts) *Facts {
	return in.conj(ctx, l, at, fs, nil)
}

// LoopVarOf finds the loop variable a term stands for.
func (in *Interp) LoopVarOf(t *Term) (*Loop, *LoopVar) {
	if t.Op != OLV || t.Loop == nil {
		return nil, nil
	}
	return t.Loop, t.Loop.Var(t)
}

// Backs lists the paths that go round the loop.
func (l *Loop) Backs() (ps []*LoopPath) {
	for i := range l.Paths {
		if l.Paths[i].Kind == "back" {
			ps = append(ps, &l.Paths[i])
		}
	}
	return ps
}

// Growth describes how iterations extend a list: each path adds elements at the end (or at the front).
type Growth struct {
	Loop  *Loop
	Var   *LoopVar
	Front bool
	Adds  map[*LoopPath][]*Term
	Each  int // number of elements every path adds, or -1 if it varies
}

// GrowthOf analyses a list that a loop builds.
func (in *Interp) GrowthOf(t *Term) (*Growth, error) {
	l, v := in.LoopVarOf(t)
	if v == nil {
		return nil, fmt.Errorf("%s is not built by a loop", t)
	}
	g := &Growth{Loop: l, Var: v, Adds: map[*LoopPath][]*Term{}, Each: -2}
	for _, p := range l.Backs() {
		n := p.Next[v]
		var add []*Term
		switch {
		case n == v.Start:
		case n.Op == OCat && n.Args[0] == v.Start:
			for _, s := range n.Args[1:] {
				es, ok := in.Elems(p.St, s)
				if !ok {
					return nil, fmt.Errorf("an iteration adds %s", s)
				}
				add = append(add, es...)
			}
		case n.Op == OCat && n.Args[len(n.Args)-1] == v.Start:
			g.Front = true
			for _, s := range n.Args[:len(n.Args)-1] {
				es, ok := in.Elems(p.St, s)
				if !ok {
					return nil, fmt.Errorf("an iteration adds %s", s)
				}
				add = append(add, es...)
			}
		default:
			return nil, fmt.Errorf("an iteration replaces the list by %s", n)
		}
		g.Adds[p] = add
		switch {
		case g.Each == -2:
			g.Each = len(add)
		case g.Each != len(add):
			g.Each = -1
		}
	}
	return g, nil
}

// LenOf is the length of a list, resolving lists built by loops.
func (in *Interp) LenOf(t *Term) *Term {
	u := in.U
	switch t.Op {
	case OCat:
		r := u.Int(0)
		for _, s := range t.Args {
			r = u.Add(r, in.LenOf(s), 1)
		}
		return r
	case OLV:
		if g, err := in.GrowthOf(t); err == nil && g.Each >= 0 {
			return u.Add(in.LenOf(g.Var.Init), g.Loop.K, int64(g.Each))
		}
	case OSub:
		return u.Add(t.Args[2], t.Args[1], -1)
	}
	return u.Len(t)
}

// ExpandLens replaces lengths of loop-built lists in a term by what they are.
func (in *Interp) ExpandLens(t *Term) *Term {
	return in.U.Map(t, func(x *Term) *Term {
		if x.Op == OLen {
			if y := in.LenOf(x.Args[0]); y != x {
				return y
			}
		}
		return nil
	})
}

// SolveFor solves idx(k) == j for the loop counter k.
func (in *Interp) SolveFor(idx, k, j *Term) *Term {
	l := toLinear(idx)
	a := l.m[k]
	if a != 1 && a != -1 {
		return nil
	}
	delete(l.m, k)
	rest := in.U.fromLinear(l, types.Typ[types.Int])
	// a*k + rest == j  =>  k == a*(j-rest)
	return in.U.Add(in.U.Int(0), in.U.Add(j, rest, -1), a)
}

// Elem finds the possibilities for element j of a list as it is in state st after effects effs.
func (in *Interp) Elem(st *State, effs []*Effect, f *Facts, l, j *Term, et types.Type) ([]Case, error) {
	u := in.U
	switch l.Op {
	case OConst:
		return nil, nil
	case OList:
		var out []Case
		for k, e := range l.Args {
			if g := in.With(f, u.Eq(j, u.Int(int64(k)))); g != nil {
				out = append(out, Case{F: g, Val: e, St: st})
			}
		}
		return out, nil
	case OCat:
		var out []Case
		off := u.Int(0)
		for _, s := range l.Args {
			rel := u.Add(j, off, -1)
			n := in.LenOf(s)
			if g := in.With(f, u.Less(u.Int(0), rel, false), u.Less(rel, n, true)); g != nil {
				cs, err := in.Elem(st, effs, g, s, rel, et)
				if err != nil {
					return nil, err
				}
				out = append(out, cs...)
			}
			off = u.Add(off, n, 1)
		}
		return out, nil
	case OSub:
		return in.Elem(st, effs, f, l.Args[0], u.Add(j, l.Args[1], 1), et)
	case OLV:
		g, err := in.GrowthOf(l)
		if err != nil {
			return nil, err
		}
		if p := in.elemsChanged(st, g, l, et); p != "" {
			return nil, fmt.Errorf("elements of the list built at %s are changed as well", p)
		}
		if g.Each != 1 {
			return nil, fmt.Errorf("iterations of the loop at %s add different numbers of elements", g.Loop.Pos)
		}
		n0 := in.LenOf(g.Var.Init)
		var out []Case
		i := u.Add(j, n0, -1)
		initial := []*Term{u.Less(j, n0, true)}
		iter := []*Term{u.Less(u.Int(0), i, false)}
		j0 := j
		if g.Front {
			i = u.Add(u.Add(g.Loop.K, u.Int(1), -1), j, -1)
			initial = []*Term{u.Less(g.Loop.K, j, false)}
			iter = []*Term{u.Less(u.Int(0), i, false)}
			j0 = u.Add(j, g.Loop.K, -1)
		}
		if h := in.With(f, initial...); h != nil && !g.Var.Init.IsNil() {
			cs, err := in.Elem(g.Loop.Entry, effs, h, g.Var.Init, j0, et)
			if err != nil {
				return nil, err
			}
			out = append(out, cs...)
		}
		for _, p := range g.Loop.Backs() {
			h := in.conj(f, g.Loop, i, p.Facts, iter)
			if h == nil {
				continue
			}
			out = append(out, Case{F: h, Val: in.Subst(g.Adds[p][0], g.Loop.K, i), St: p.St, Loop: g.Loop, Path: p, At: i})
		}
		return out, nil
	case OMake:
		if lp := in.fillLoop(st, effs, l); lp != nil {
			return in.filled(st, f, lp, l, j, et)
		}
	}
	var out []Case
	s := st.clone()
	s.F = f.clone()
	for _, r := range in.Forks(s, func(st *State) *Term { return in.Load(st, u.IndexAddr(l, j, et), et) }) {
		out = append(out, Case{F: r.St.F, Val: r.Val, St: r.St})
	}
	return out, nil
}

// elemsChanged reports where elements of a loop-built list are changed after they were added.
func (in *Interp) elemsChanged(st *State, g *Growth, l *Term, et types.Type) string {
	reg := "T:" + typeKey(et) + "/"
	for _, r := range g.Loop.Regions {
		if strings.HasPrefix(r, reg) {
			return g.Loop.Pos
		}
	}
	for k, v := range st.Ver {
		if !strings.HasPrefix(k, reg) && k != fmt.Sprintf("L:%d", l.ID) && !strings.HasPrefix(k, fmt.Sprintf("L:%d/", l.ID)) {
			continue
		}
		if g.Loop.Entry == nil || g.Loop.Entry.Ver[k] != v {
			return g.Loop.Pos
		}
	}
	for c := range st.Mem {
		if r, _ := rootOf(c); r.Op == OIndexAddr && r.Args[0] == l {
			return g.Loop.Pos
		}
	}
	return ""
}

// fillLoop finds the last loop that writes elements of a list.
func (in *Interp) fillLoop(st *State, effs []*Effect, l *Term) *Loop {
	pre := fmt.Sprintf("L:%d", l.ID)
	for k := len(effs) - 1; k >= 0; k-- {
		if lp := effs[k].Loop; lp != nil {
			for _, r := range lp.Regions {
				if r == pre || strings.HasPrefix(r, pre+"/") {
					return lp
				}
			}
		}
	}
	if st != nil && st.outer != nil {
		return in.fillLoop(st.outer, st.outer.Effects, l)
	}
	return nil
}

func (in *Interp) filled(st *State, f *Facts, lp *Loop, l, j *Term, et types.Type) ([]Case, error) {
	u := in.U
	var out []Case
	type wr struct {
		p   *LoopPath
		idx *Term
	}
	var ws []wr
	var idx0 *Term
	for _, p := range lp.Backs() {
		var idx *Term
		for c := range p.St.Mem {
			r, _ := rootOf(c)
			if r.Op == OIndexAddr && r.Args[0] == l {
				if idx != nil && idx != r.Args[1] {
					return nil, fmt.Errorf("an iteration of the loop at %s writes several elements", lp.Pos)
				}
				idx = r.Args[1]
			}
		}
		if idx != nil {
			if idx0 != nil && idx0 != idx {
				return nil, fmt.Errorf("iterations of the loop at %s write at %s and %s", lp.Pos, idx0, idx)
			}
			idx0 = idx
		}
		ws = append(ws, wr{p, idx})
	}
	if idx0 == nil {
		return nil, fmt.Errorf("no element write found in the loop at %s", lp.Pos)
	}
	i := in.SolveFor(idx0, lp.K, j)
	if i == nil {
		return nil, fmt.Errorf("the loop at %s writes at %s", lp.Pos, idx0)
	}
	iter := []*Term{u.Less(u.Int(0), i, false)}
	for _, w := range ws {
		h := in.conj(f, lp, i, w.p.Facts, iter)
		if h == nil {
			continue
		}
		if w.idx == nil {
			out = append(out, Case{F: h, Val: in.Zero(et), St: w.p.St, Loop: lp, Path: w.p, At: i})
			continue
		}
		for _, r := range in.Forks(w.p.St.clone(), func(s *State) *Term { return in.Load(s, u.IndexAddr(l, w.idx, et), et) }) {
			h := in.conj(f, lp, i, r.St.F, iter)
			if h == nil {
				continue
			}
			out = append(out, Case{F: h, Val: in.Subst(r.Val, lp.K, i), St: r.St, Loop: lp, Path: w.p, At: i})
		}
	}
	return out, nil
}

// Last finds the possibilities for the value of a loop variable after the loop has gone round n times (n a term).
// A path that leaves the variable alone passes on its earlier value; the analysis finds the iterations that can have
// set it last, provided they are pinned down by the facts of their path.
func (in *Interp) Last(f *Facts, t *Term, n *Term) ([]Case, error) {
	u := in.U
	l, v := in.LoopVarOf(t)
	if v == nil {
		return nil, fmt.Errorf("%s is not a loop variable", t)
	}
	var keeps, sets []*LoopPath
	for _, p := range l.Backs() {
		if p.Next[v] == v.Start {
			keeps = append(keeps, p)
		} else {
			sets = append(sets, p)
		}
	}
	if len(sets) == 0 {
		return []Case{{F: f, Val: v.Init, St: l.Entry}}, nil
	}
	var out []Case
	if h := in.With(f, u.Eq(n, u.Int(0))); h != nil {
		out = append(out, Case{F: h, Val: v.Init, St: l.Entry})
	}
	last := u.Add(n, u.Int(1), -1)
	pos := u.Less(u.Int(0), n, true)
	if len(keeps) == 0 {
		for _, p := range sets {
			if h := in.conj(f, l, last, p.Facts, []*Term{pos}); h != nil {
				out = append(out, Case{F: h, Val: in.Subst(p.Next[v], l.K, last), St: p.St, Loop: l, Path: p, At: last})
			}
		}
		return out, nil
	}
	// set only in iterations that are pinned down
	for _, p := range sets {
		at := in.Pinned(p, l)
		if at == nil {
			return nil, fmt.Errorf("the iteration of the loop at %s that sets %s is not determined", l.Pos, v.Name)
		}
		h := in.conj(f, l, at, p.Facts, []*Term{u.Less(u.Int(0), at, false), u.Less(at, n, true)})
		if h != nil {
			out = append(out, Case{F: h, Val: in.Subst(p.Next[v], l.K, at), St: p.St, Loop: l, Path: p, At: at})
		}
		// no later iteration may set it again: other setters must be pinned to the same iteration
		for _, q := range sets {
			if b := in.Pinned(q, l); b != at {
				return nil, fmt.Errorf("several iterations of the loop at %s set %s", l.Pos, v.Name)
			}
		}
		// iteration `at` never keeps
		for _, q := range keeps {
			if g := in.conj(f, l, at, q.Facts, []*Term{u.Less(u.Int(0), at, false), u.Less(at, n, true)}); g != nil {
				out = append(out, Case{F: g, Val: v.Init, St: l.Entry, Loop: l, Path: q, At: at})
			}
		}
		if g := in.With(f, pos, u.Less(n, at, false)); g != nil {
			out = append(out, Case{F: g, Val: v.Init, St: l.Entry})
		}
	}
	return out, nil
}

// Pinned finds the value that a path's facts force on the loop counter.
func (in *Interp) Pinned(p *LoopPath, l *Loop) *Term {
	u := in.U
	for _, x := range p.Facts.List() {
		if x.Op != OEq || x.Aux != "int" {
			continue
		}
		lin := toLinear(x.Args[0])
		a := lin.m[l.K]
		if a != 1 && a != -1 {
			continue
		}
		delete(lin.m, l.K)
		return u.Add(u.Int(0), u.fromLinear(lin, types.Typ[types.Int]), -a)
	}
	return nil
}

// Proves reports whether the facts prove c.
func (in *Interp) Proves(f *Facts, c *Term) bool {
	return f.Decide(in.U, c) == True || f.Decide(in.U, in.ExpandLens(c)) == True
}

// CallsIn lists the effects of kind "call" or "opaque" with the given name, looking into loops.
func CallsIn(effs []*Effect, name string) (out []*Effect) {
	for _, e := range effs {
		if e.Loop != nil {
			seen := map[*Effect]bool{}
			for _, p := range e.Loop.Paths {
				for _, x := range CallsIn(p.Effects, name) {
					if !seen[x] {
						seen[x] = true
						out = append(out, x)
					}
				}
			}
		}
		if (e.Kind == "call" || e.Kind == "opaque") && e.Name == name {
			out = append(out, e)
		}
	}
	return out
}

// Calls lists the calls on the top level only.
func Calls(effs []*Effect, name string) (out []*Effect) {
	for _, e := range effs {
		if (e.Kind == "call" || e.Kind == "opaque") && e.Name == name {
			out = append(out, e)
		}
	}
	return out
}

// VersionOf finds the single version (effect result id) from which all leaves of a value were read, with the address of
// the first leaf; ok is false if they differ.
func VersionOf(t *Term) (ver string, base *Term, ok bool) {
	ok = true
	first := true
	var walk func(x *Term)
	walk = func(x *Term) {
		switch x.Op {
		case OStruct:
			for _, a := range x.Args {
				walk(a)
			}
		case OInit:
			b, _ := rootOf(x.Args[0])
			if first {
				ver, base, first = x.Aux, b, false
			} else if ver != x.Aux || base != b {
				ok = false
			}
		default:
			ok = false
		}
	}
	walk(t)
	return ver, base, ok && !first
}
