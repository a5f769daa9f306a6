package absint

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
)

// Equivalence of two functions, decided on their abstract summaries: loops are related by a lockstep simulation found
// as a greatest fixpoint, lists are compared by length and symbolic element, objects by what they hold.

// Diff is a way in which two functions differ.
type Diff struct {
	Pos  string
	What string
}

// rel relates terms of run B to terms of run A.
type rel struct {
	in    *Interp
	sub   map[*Term]*Term
	ver   map[string]string
	loops map[*Loop]*Loop // B to A; nil value: could not be related
	memo  map[*Term]*Term
	mark  int
	opt   *EquivOpts
	depth int
	bound [][2]*Term // fresh objects of runs B and A that were passed to the same calls
}

// EquivOpts tunes a comparison.
type EquivOpts struct {
	IgnoreCalls map[string]bool // effects that do not matter
	// Arguments of calls that do not matter, by position.
	IgnoreArgs map[string][]int
	NilEmpty   bool // nil and empty lists are the same (always assumed)
	// Results compares only these results (nil: all).
	Results []int
	// Fields that do not matter, as "Type.Field".
	IgnoreFields map[string]bool
	// Pointers to these types lead to memory that does not matter.
	IgnoreTypes map[string]bool
	// Pairs is increased for each pair of feasible outcomes compared.
	Pairs, Loops int
	// ErrorsOnly: when both fail, other results do not matter.
	ErrorsOnly bool
	resTypes   []types.Type
	Why        []string // why loops could not be related
	cache      map[string]*relCache
}

// SetResults gives the result types.
func (o *EquivOpts) SetResults(t *types.Tuple) {
	for i := 0; i < t.Len(); i++ {
		o.resTypes = append(o.resTypes, t.At(i).Type())
	}
}

func (r *rel) clone() *rel {
	n := &rel{in: r.in, sub: map[*Term]*Term{}, ver: map[string]string{}, loops: map[*Loop]*Loop{}, memo: map[*Term]*Term{}, mark: r.mark, opt: r.opt, depth: r.depth, bound: r.bound[:len(r.bound):len(r.bound)]}
	for k, v := range r.sub {
		n.sub[k] = v
	}
	for k, v := range r.ver {
		n.ver[k] = v
	}
	for k, v := range r.loops {
		n.loops[k] = v
	}
	return n
}

func (r *rel) set(b, a *Term) {
	if a == b {
		return
	}
	r.sub[b] = a
	r.memo = map[*Term]*Term{}
}

func (r *rel) setVer(b, a string) {
	if a == b {
		return
	}
	r.ver[b] = a
	r.memo = map[*Term]*Term{}
}

func (r *rel) version(v string) string {
	if v == "" || len(r.ver) == 0 {
		return v
	}
	ps := strings.Split(v, ",")
	for i, p := range ps {
		qs := strings.Split(p, "@")
		for j, q := range qs {
			if n, ok := r.ver[q]; ok {
				qs[j] = n
			}
		}
		ps[i] = strings.Join(qs, "@")
	}
	return strings.Join(ps, ",")
}

// apply renames a term of run B.
func (r *rel) apply(t *Term) *Term {
	if t == nil {
		return nil
	}
	if len(r.sub) == 0 && len(r.ver) == 0 {
		return t
	}
	if x, ok := r.memo[t]; ok {
		return x
	}
	u := r.in.U
	x := u.Map(t, func(x *Term) *Term {
		if a, ok := r.sub[x]; ok {
			return a
		}
		if (x.Op == ORes || x.Op == OUnk) && len(x.Args) > 0 {
			// made in an iteration of a loop that has been related
			n := *x
			n.Args = nil
			b := u.mk(n)
			for k := 0; k <= len(x.Args); k++ {
				if a, ok := r.sub[b]; ok {
					n = *a
					break
				}
				if k < len(x.Args) {
					n.Args = x.Args[:k+1]
					b = u.mk(n)
				}
			}
			n.Args = nil
			for _, y := range x.Args {
				n.Args = append(n.Args, r.iteration(y))
			}
			return u.mk(n)
		}
		if (x.Op == OInit || x.Op == OMInit) && x.Aux != "" {
			if nv := r.version(x.Aux); nv != x.Aux {
				n := *x
				n.Aux = nv
				n.Args = []*Term{r.apply(x.Args[0])}
				return u.mk(n)
			}
		}
		return nil
	})
	r.memo[t] = x
	return x
}

// iteration renames an iteration of a loop of run B.
func (r *rel) iteration(t *Term) *Term {
	u := r.in.U
	if n, ok := t.Args[0].IntVal(); ok {
		for b, a := range r.loops {
			if a != nil && int64(b.mark) == n {
				return u.App("iteration", t.Typ, u.Int(int64(a.mark)), r.apply(t.Args[1]))
			}
		}
	}
	return u.App("iteration", t.Typ, t.Args[0], r.apply(t.Args[1]))
}

// view is a state in which terms are read; L and At translate a loop iteration's terms into the context.
type view struct {
	st *State
	l  *Loop
	at *Term
	f  *Facts // facts in the terms of this run
}

func (v view) tr(in *Interp, t *Term) *Term {
	if v.l == nil {
		return t
	}
	return in.Subst(t, v.l.K, v.at)
}

type loaded struct {
	val *Term
	f   *Facts // further facts, in the terms of this run
	v   view
}

// load reads memory in a view.
func (in *Interp) loadView(v view, addr *Term, typ types.Type) []loaded {
	var out []loaded
	st := v.st.clone()
	if v.l == nil && v.f != nil {
		st.F = v.f.clone()
	}
	for _, r := range in.Forks(st, func(st *State) *Term { return in.Load(st, addr, typ) }) {
		val := v.tr(in, r.Val)
		f := newFacts()
		ok := true
		for _, x := range r.St.F.List() {
			if !f.Assume(in.U, v.tr(in, x), true) {
				ok = false
			}
		}
		if ok {
			out = append(out, loaded{val, f, view{st: r.St, l: v.l, at: v.at, f: v.f}})
		}
	}
	return out
}

type eqKey struct{ a, b *Term }

type eqCtx struct {
	r    *rel
	seen map[eqKey]bool
	why  string
	cnt  int
}

func (c *eqCtx) no(format string, a ...any) bool {
	if c.why == "" {
		c.why = fmt.Sprintf(format, a...)
	}
	return false
}

// conjB adds facts of run B.
func (r *rel) conjB(f *Facts, fb *Facts) *Facts {
	g := f.clone()
	for _, x := range f.List() {
		if y := r.in.ExpandLens(x); y != x && !g.Assume(r.in.U, y, true) {
			return nil
		}
	}
	for _, x := range fb.List() {
		if !g.Assume(r.in.U, r.apply(x), true) {
			return nil
		}
		if y := r.in.ExpandLens(x); y != x && !g.Assume(r.in.U, r.apply(y), true) {
			return nil
		}
	}
	if g.Infeasible(r.in.U) {
		return nil
	}
	return g
}

func (r *rel) conjA(f *Facts, fa *Facts) *Facts {
	g := f.clone()
	for _, x := range fa.List() {
		if !g.Assume(r.in.U, x, true) {
			return nil
		}
	}
	if g.Infeasible(r.in.U) {
		return nil
	}
	return g
}

// eq compares a value of run A with one of run B under facts F (in A's terms).
func (c *eqCtx) eq(F *Facts, va view, a *Term, vb view, b *Term, typ types.Type) bool {
	r, in, u := c.r, c.r.in, c.r.in.U
	c.cnt++
	if c.cnt > 20000 {
		in.fail("comparison too large")
	}
	rb := r.apply(b)
	if a == rb {
		return true
	}
	if typ == nil {
		typ = a.Typ
	}
	if typ == nil {
		typ = b.Typ
	}
	if a.IsConst() && rb.IsConst() && !a.IsNil() && !rb.IsNil() {
		if a.Aux == rb.Aux {
			return true
		}
		return c.no("%s instead of %s", short(a), short(rb))
	}
	a2, b2 := in.ExpandLens(F.Canon(u, a)), in.ExpandLens(F.Canon(u, rb))
	if a2 == b2 || F.Runes(u, a2) == F.Runes(u, b2) {
		return true
	}
	if typ == nil {
		return c.no("%s instead of %s", short(a), short(rb))
	}
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.Typ, b.Typ) {
			return c.no("a %s instead of a %s", shortType(a.Typ), shortType(b.Typ))
		}
		if !isErrorType(typ) {
			return c.eq(F, va, a.Args[0], vb, b.Args[0], a.Typ)
		}
	}
	switch x := typ.Underlying().(type) {
	case *types.Basic:
		if a.Op != OStruct && F.Decide(u, u.Eq(a2, b2)) == True {
			return true
		}
		if x.Info()&types.IsBoolean != 0 {
			ok := true
			for _, val := range []bool{true, false} {
				g := F.clone()
				if !g.Assume(u, a, val) || g.Infeasible(u) {
					continue
				}
				h := g.clone()
				if h.Assume(u, rb, !val) && !h.Infeasible(u) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		if c.parts(F, va, a, vb, b, typ) {
			return true
		}
		// elements read from lists that loops built
		if ca, cb, ok := c.resolve(F, va, a, vb, b); ok {
			return c.cases(F, ca, cb, typ)
		}
		return c.no("%s instead of %s", short(a), short(rb))
	case *types.Struct:
		if n, ok := typ.(*types.Named); ok && r.opt != nil {
			_ = n
		}
		for i := 0; i < x.NumFields(); i++ {
			if r.opt != nil && r.opt.IgnoreFields[shortType(typ)+"."+x.Field(i).Name()] {
				continue
			}
			ft := x.Field(i).Type()
			if !c.eq(F, va, u.Field(a, i, ft), vb, u.Field(b, i, ft), ft) {
				c.why = "." + x.Field(i).Name() + " " + strings.TrimPrefix(c.why, " ")
				return false
			}
		}
		return true
	case *types.Pointer:
		na, nb := F.Decide(u, u.Eq(a, u.Nil())), F.Decide(u, u.Eq(rb, u.Nil()))
		if na == True && nb == True {
			return true
		}
		if na != False || nb != False {
			if ca, cb, ok := c.resolve(F, va, a, vb, b); ok {
				return c.cases(F, ca, cb, typ)
			}
			return c.no("%s instead of %s", short(a), short(rb))
		}
		if F.Decide(u, u.Eq(a, rb)) == True {
			return true
		}
		k := eqKey{a, b}
		if c.seen[k] {
			return true
		}
		if !in.freshObj(a) && !in.freshObj(b) && a.Op != OInit && rb.Op != OInit && a.Op != OUnwrap {
			return c.no("%s instead of %s", short(a), short(rb))
		}
		c.seen[k] = true
		ok := c.deref(F, va, a, vb, b, x.Elem())
		delete(c.seen, k)
		if ok && a.Op == OAlloc && b.Op == OAlloc && va.l == nil && vb.l == nil {
			if _, has := r.sub[b]; !has {
				r.set(b, a)
			}
		}
		return ok
	case *types.Slice:
		return c.lists(F, va, a, vb, b, x.Elem())
	case *types.Array:
		return c.lists(F, va, a, vb, b, x.Elem())
	case *types.Map:
		ca, cb := in.Contents(va.st, a), in.Contents(vb.st, b)
		ca, cb = va.tr(in, ca), vb.tr(in, cb)
		return c.mapContents(F, va, ca, vb, cb, x)
	case *types.Interface:
		if isErrorType(typ) {
			for _, val := range []bool{true, false} {
				g := F.clone()
				if !g.Assume(u, u.Eq(a, u.Nil()), val) || g.Infeasible(u) {
					continue
				}
				h := g.clone()
				if h.Assume(u, u.Eq(rb, u.Nil()), !val) && !h.Infeasible(u) {
					return c.no("error %s instead of %s", short(a), short(rb))
				}
			}
			return true
		}
		if a.Op == OIface && b.Op == OIface {
			if !types.Identical(a.Typ, b.Typ) {
				return c.no("a %s instead of a %s", shortType(a.Typ), shortType(b.Typ))
			}
			return c.eq(F, va, a.Args[0], vb, b.Args[0], a.Typ)
		}
		if F.Decide(u, u.Eq(a, rb)) == True {
			return true
		}
		if c.parts(F, va, a, vb, b, typ) {
			return true
		}
		if ca, cb, ok := c.resolve(F, va, a, vb, b); ok {
			return c.cases(F, ca, cb, typ)
		}
		return c.no("%s instead of %s", short(a), short(rb))
	}
	if c.parts(F, va, a, vb, b, typ) {
		return true
	}
	return c.no("%s instead of %s", short(a), short(rb))
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 220 {
		s = s[:217] + "..."
	}
	return s
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func (in *Interp) freshObj(t *Term) bool { r, _ := rootOf(t); return r.Op == OAlloc }

// parts compares applications of the same function argument by argument.
func (c *eqCtx) parts(F *Facts, va view, a *Term, vb view, b *Term, typ types.Type) bool {
	if a.Op != b.Op || a.Aux != b.Aux || a.Idx != b.Idx || len(a.Args) != len(b.Args) || len(a.Args) == 0 {
		return false
	}
	switch a.Op {
	case OApp, OConcat, OFmt, OUnwrap, OLen, OMGet:
	case OIndexAddr, OFieldAddr:
	default:
		return false
	}
	why := c.why
	for i := range a.Args {
		if !c.eq(F, va, a.Args[i], vb, b.Args[i], nil) {
			c.why = why
			return false
		}
	}
	return true
}

// resolve finds what values read from loop-built lists can be.
func (c *eqCtx) resolve(F *Facts, va view, a *Term, vb view, b *Term) (ca, cb []Case, ok bool) {
	r := c.r
	ca, oka := c.resolve1(va, a)
	cb, okb := c.resolve1(vb, b)
	if !oka && !okb {
		return nil, nil, false
	}
	if !oka {
		ca = []Case{{F: newFacts(), Val: a, St: va.st, Loop: va.l, At: va.at}}
	}
	if !okb {
		cb = []Case{{F: newFacts(), Val: b, St: vb.st, Loop: vb.l, At: vb.at}}
	}
	_ = r
	return ca, cb, true
}

func (c *eqCtx) resolve1(v view, t *Term) ([]Case, bool) {
	if t.Op != OInit || v.l != nil {
		return nil, false
	}
	in := c.r.in
	var path []int
	x := t.Args[0]
	for x.Op == OFieldAddr {
		path = append([]int{x.Idx}, path...)
		x = x.Args[0]
	}
	if x.Op != OIndexAddr {
		return nil, false
	}
	l := x.Args[0]
	if l.Op != OLV && l.Op != OMake && l.Op != OCat {
		return nil, false
	}
	et := derefT(x.Typ)
	f := v.f
	if f == nil {
		f = v.st.F
	}
	cs, err := in.Elem(v.st, v.st.Effects, f, l, x.Args[1], et)
	if err != nil || len(cs) == 0 {
		return nil, false
	}
	for i := range cs {
		vt := et
		for _, p := range path {
			ft := vt.Underlying().(*types.Struct).Field(p).Type()
			cs[i].Val = in.U.Field(cs[i].Val, p, ft)
			vt = ft
		}
		if cs[i].Val == t {
			return nil, false
		}
	}
	return cs, true
}

func (c *eqCtx) cases(F *Facts, ca, cb []Case, typ types.Type) bool {
	for _, x := range ca {
		g := c.r.conjA(F, x.F)
		if g == nil {
			continue
		}
		for _, y := range cb {
			h := c.r.conjB(g, y.F)
			if h == nil {
				continue
			}
			if !c.eq(h, view{x.St, x.Loop, x.At, nil}, x.Val, view{y.St, y.Loop, y.At, nil}, y.Val, typ) {
				return false
			}
		}
	}
	return true
}

func (c *eqCtx) deref(F *Facts, va view, a *Term, vb view, b *Term, et types.Type) bool {
	in := c.r.in
	if st, ok := et.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			if c.r.opt != nil && c.r.opt.IgnoreFields[shortType(et)+"."+st.Field(i).Name()] {
				continue
			}
			ft := st.Field(i).Type()
			if !c.deref(F, va, in.U.FieldAddr(a, i, ft), vb, in.U.FieldAddr(b, i, ft), ft) {
				c.why = "." + st.Field(i).Name() + " " + strings.TrimPrefix(c.why, " ")
				return false
			}
		}
		return true
	}
	for _, x := range in.loadView(va, a, et) {
		g := c.r.conjA(F, x.f)
		if g == nil {
			continue
		}
		for _, y := range in.loadView(vb, b, et) {
			h := c.r.conjB(g, y.f)
			if h == nil {
				continue
			}
			if !c.eq(h, x.v, x.val, y.v, y.val, et) {
				return false
			}
		}
	}
	return true
}

func (c *eqCtx) lists(F *Facts, va view, a *Term, vb view, b *Term, et types.Type) bool {
	r, in, u := c.r, c.r.in, c.r.in.U
	a, b = in.Resolve(va.st, a), in.Resolve(vb.st, b)
	rb := r.apply(b)
	if a == rb {
		return true
	}
	sa, sb := segs(a), segs(b)
	if len(sa) == len(sb) {
		ok := true
		why := c.why
		for i := range sa {
			x, y := sa[i], sb[i]
			if x == r.apply(y) {
				continue
			}
			if x.Op == OList && y.Op == OList && len(x.Args) == len(y.Args) {
				for k := range x.Args {
					if !c.eq(F, va, x.Args[k], vb, y.Args[k], et) {
						ok = false
					}
				}
				continue
			}
			ok = false
		}
		if ok {
			return true
		}
		c.why = why
	}
	la, lb := va.tr(in, in.LenOf(a)), r.apply(vb.tr(in, in.LenOf(b)))
	if !in.Proves(F, u.Eq(la, lb)) {
		return c.no("a list of length %s instead of %s", short(la), short(lb))
	}
	if in.Proves(F, u.Eq(la, u.Int(0))) {
		return true
	}
	// element J
	j := u.Param(fmt.Sprintf("J%d", r.depth), types.Typ[types.Int])
	lits := []*Term{u.Less(u.Int(0), j, false), u.Less(j, la, true)}
	G := in.With(F, lits...)
	if G == nil {
		return true
	}
	fa, fb := va.f, vb.f
	if fa == nil {
		fa = newFacts()
	}
	if fb == nil {
		fb = newFacts()
	}
	ga := in.With(fa, u.Less(u.Int(0), j, false), u.Less(j, va.tr(in, in.LenOf(a)), true))
	gb := in.With(fb, u.Less(u.Int(0), j, false), u.Less(j, vb.tr(in, in.LenOf(b)), true))
	if ga == nil || gb == nil {
		return true
	}
	if va.l != nil || vb.l != nil {
		return c.no("lists %s and %s inside an element cannot be compared", short(a), short(rb))
	}
	r.depth++
	defer func() { r.depth-- }()
	ca, err := in.Elem(va.st, va.st.Effects, ga, a, j, et)
	if err != nil {
		return c.no("%s instead of %s (%v)", short(a), short(rb), err)
	}
	cb, err := in.Elem(vb.st, vb.st.Effects, gb, b, j, et)
	if err != nil {
		return c.no("%s instead of %s (%v)", short(a), short(rb), err)
	}
	return c.cases(G, ca, cb, et)
}

func segs(l *Term) []*Term {
	if l.Op == OCat {
		return l.Args
	}
	if l.IsNil() {
		return nil
	}
	return []*Term{l}
}

func (c *eqCtx) mapContents(F *Facts, va view, a *Term, vb view, b *Term, mt *types.Map) bool {
	r := c.r
	if a == r.apply(b) {
		return true
	}
	if a.Op == OMStore && b.Op == OMStore {
		return c.eq(F, va, a.Args[1], vb, b.Args[1], mt.Key()) && c.eq(F, va, a.Args[2], vb, b.Args[2], mt.Elem()) && c.mapContents(F, va, a.Args[0], vb, b.Args[0], mt)
	}
	return c.no("map %s instead of %s", short(a), short(r.apply(b)))
}

// significant effects
func (r *rel) significant(effs []*Effect) (out []*Effect) {
	for _, e := range effs {
		switch e.Kind {
		case "call", "opaque":
			if r.opt != nil && r.opt.IgnoreCalls[e.Name] {
				continue
			}
			out = append(out, e)
		case "loop":
			out = append(out, e)
		}
	}
	return out
}

// quiet reports whether a loop has no calls.
func (r *rel) quietLoop(l *Loop) bool {
	for _, p := range l.Paths {
		for _, e := range r.significant(p.Effects) {
			if e.Loop == nil || !r.quietLoop(e.Loop) {
				return false
			}
		}
	}
	return true
}

// align pairs up the effects of two paths, extending the relation; it returns what could not be paired.
func (r *rel) align(F *Facts, ea, eb []*Effect) (why string) {
	a, b := r.significant(ea), r.significant(eb)
	var waitA, waitB []*Effect // loops not related yet
	var doneA []*Effect
	flush := func() {
		var restB []*Effect
		for _, y := range waitB {
			if la, known := r.loops[y.Loop]; known && la != nil {
				continue
			}
			done := false
			matched := map[*LoopVar]bool{}
			var rest []*Effect
			for i, x := range waitA {
				n := r.relate(x.Loop, y.Loop, matched)
				if n == nil || done && len(matched) == 0 {
					rest = append(rest, x)
					continue
				}
				if done {
					// a further loop that does part of the same
					n.set(y.Loop.K, r.apply(y.Loop.K))
					n.setVer(y.Loop.ID, r.version(y.Loop.ID))
				}
				*r = *n
				r.loops[y.Loop] = x.Loop
				doneA = append(doneA, x)
				done = true
				if !r.quietLoop(x.Loop) || r.allMatched(y.Loop, matched) {
					rest = append(rest, waitA[i+1:]...)
					break
				}
			}
			waitA = rest
			if r.quietLoop(y.Loop) && !r.allMatched(y.Loop, matched) {
				for _, x := range doneA {
					if !r.quietLoop(x.Loop) {
						continue
					}
					k, v := r.apply(y.Loop.K), r.version(y.Loop.ID)
					if n := r.relate(x.Loop, y.Loop, matched); n != nil {
						if done {
							n.set(y.Loop.K, k)
							n.setVer(y.Loop.ID, v)
						}
						*r = *n
						if !done {
							r.loops[y.Loop] = x.Loop
						}
						done = true
					}
				}
			}
			if !done {
				restB = append(restB, y)
			}
		}
		waitB = restB
	}
	for {
		for len(a) > 0 && a[0].Loop != nil {
			waitA = append(waitA, a[0])
			a = a[1:]
		}
		for len(b) > 0 && b[0].Loop != nil {
			waitB = append(waitB, b[0])
			b = b[1:]
		}
		flush()
		if len(a) == 0 || len(b) == 0 {
			break
		}
		x, y := a[0], b[0]
		if x.Name != y.Name || len(x.Args) != len(y.Args) {
			return fmt.Sprintf("calls %s (%s) instead of %s", x.Name, x.Pos, y.Name)
		}
		c := &eqCtx{r: r, seen: map[eqKey]bool{}}
		for i := range x.Args {
			va, vb := view{st: x.St, f: x.St.F}, view{st: y.St, f: y.St.F}
			if !r.ignoredArg(x.Name, i) && !c.eq(F, va, x.Args[i], vb, y.Args[i], nil) {
				return fmt.Sprintf("calls %s (%s) with other arguments: %s", x.Name, x.Pos, c.why)
			}
			ia, ib := x.Args[i], y.Args[i]
			if ia.Op == OIface && ib.Op == OIface {
				ia, ib = ia.Args[0], ib.Args[0]
			}
			if ia.Op == OAlloc && ib.Op == OAlloc {
				if was := r.apply(ib); was != ib && was != ia {
					if r.in.C.ReadOnly[x.Name] {
						continue // a copy with the same contents will do
					}
					return fmt.Sprintf("calls %s (%s) with another object", x.Name, x.Pos)
				}
				r.set(ib, ia)
				r.bound = append(r.bound, [2]*Term{ib, ia})
			}
		}
		if x.Ver != "" && y.Ver != "" {
			r.setVer(y.Ver, x.Ver)
		}
		for i := range x.Res {
			if i < len(y.Res) {
				r.set(y.Res[i], x.Res[i])
				if i == 0 {
					r.setVer(y.Res[0].Aux, x.Res[0].Aux)
				}
			}
		}
		a, b = a[1:], b[1:]
	}
	if len(a) > 0 {
		return fmt.Sprintf("also calls %s (%s)", a[0].Name, a[0].Pos)
	}
	if len(b) > 0 {
		return fmt.Sprintf("does not call %s", b[0].Name)
	}
	for _, x := range waitA {
		if !r.quietLoop(x.Loop) {
			return fmt.Sprintf("the loop at %s does something else", x.Loop.Pos)
		}
	}
	for _, x := range waitB {
		if !r.quietLoop(x.Loop) {
			return "a loop that is expected is missing or does something else"
		}
	}
	return ""
}

func (r *rel) ignoredArg(name string, i int) bool {
	if r.opt != nil {
		for _, k := range r.opt.IgnoreArgs[name] {
			if k == i {
				return true
			}
		}
	}
	return false
}

// allMatched reports whether every variable of a loop has been related.
func (r *rel) allMatched(l *Loop, matched map[*LoopVar]bool) bool {
	for _, v := range l.Vars {
		if v.Start.Op == OLV && v.Start.Loop == l && !matched[v] {
			return false
		}
	}
	return true
}

type relCache struct {
	sub     map[*Term]*Term
	ver     map[string]string
	loops   map[*Loop]*Loop
	matched []*LoopVar
	ok      bool
}

// key identifies what a relation says about the terms that exist so far.
func (r *rel) key(la, lb *Loop, matched map[*LoopVar]bool) string {
	var ss []string
	for b, a := range r.sub {
		ss = append(ss, fmt.Sprintf("%d=%d", b.ID, a.ID))
	}
	for b, a := range r.ver {
		ss = append(ss, b+"~"+a)
	}
	for b, a := range r.loops {
		if a != nil {
			ss = append(ss, "l"+b.ID+"="+a.ID)
		}
	}
	for v := range matched {
		ss = append(ss, fmt.Sprintf("m%d", v.Start.ID))
	}
	sort.Strings(ss)
	return la.ID + "|" + lb.ID + "|" + strings.Join(ss, ";")
}

// relate tries to show that two loops run in lockstep; variables already matched are left alone.
func (r *rel) relate(la, lb *Loop, matched map[*LoopVar]bool) *rel {
	if r.opt == nil {
		return r.relate1(la, lb, matched)
	}
	k := r.key(la, lb, matched)
	if c, ok := r.opt.cache[k]; ok {
		if !c.ok {
			return nil
		}
		n := r.clone()
		n.sub, n.ver, n.loops = map[*Term]*Term{}, map[string]string{}, map[*Loop]*Loop{}
		for b, a := range c.sub {
			n.sub[b] = a
		}
		for b, a := range c.ver {
			n.ver[b] = a
		}
		for b, a := range c.loops {
			n.loops[b] = a
		}
		for _, v := range c.matched {
			matched[v] = true
		}
		return n
	}
	had := map[*LoopVar]bool{}
	for v := range matched {
		had[v] = true
	}
	n := r.relate1(la, lb, matched)
	c := &relCache{}
	if n != nil {
		c.ok = true
		m := n.clone()
		c.sub, c.ver, c.loops = m.sub, m.ver, m.loops
		for v := range matched {
			if !had[v] {
				c.matched = append(c.matched, v)
			}
		}
	}
	if r.opt.cache == nil {
		r.opt.cache = map[string]*relCache{}
	}
	r.opt.cache[k] = c
	return n
}

func (r *rel) relate1(la, lb *Loop, matched map[*LoopVar]bool) *rel {
	debug := os.Getenv("EQUIV_DEBUG") != ""
	if why := r.entryMemory(la, lb); why != "" {
		r.note("before the loop at %s: %s", la.Pos, why)
		if debug {
			fmt.Fprintf(os.Stderr, "equiv: before loops %s / %s: %s\n", la.Pos, lb.Pos, why)
		}
		return nil
	}
	type cand struct {
		b  *LoopVar
		as []*LoopVar
	}
	var cs []*cand
	for _, vb := range lb.Vars {
		if matched[vb] {
			continue
		}
		k := &cand{b: vb}
		if vb.Start.Op == OLV && vb.Start.Loop == lb {
			for _, va := range la.Vars {
				if va.Start.Op != OLV || va.IsMap != vb.IsMap {
					continue
				}
				if (va.Start == la.K) != (vb.Start == lb.K) {
					continue // a variable that counts the iterations
				}
				if (va.Start.Typ == nil) != (vb.Start.Typ == nil) {
					continue
				}
				if va.Start.Typ != nil && !sameKind(va.Start.Typ, vb.Start.Typ) {
					continue
				}
				t := r.clone()
				c := &eqCtx{r: t, seen: map[eqKey]bool{}}
				wa, wb := view{st: la.Entry, f: la.Entry.F}, view{st: lb.Entry, f: lb.Entry.F}
				same := false
				if va.IsMap {
					same = c.mapContents(la.Entry.F, wa, va.Init, wb, vb.Init, va.Start.Typ.Underlying().(*types.Map))
				} else {
					same = c.eq(la.Entry.F, wa, va.Init, wb, vb.Init, va.Start.Typ)
				}
				if same {
					k.as = append(k.as, va)
				} else if debug {
					fmt.Fprintf(os.Stderr, "equiv: init of %s vs %s: %s\n", va.Name, vb.Name, c.why)
				}
			}
		}
		cs = append(cs, k)
	}
	for round := 0; round < 40; round++ {
		n := r.clone()
		n.set(lb.K, la.K)
		n.setVer(lb.ID, la.ID)
		n.loops[lb] = la
		for _, k := range cs {
			if len(k.as) > 0 {
				n.set(k.b.Start, k.as[0].Start)
				if k.b.Addr != nil && k.as[0].Addr != nil && k.b.Addr.Op == OMap {
					n.set(k.b.Addr, k.as[0].Addr)
				}
			}
		}
		if r.opt != nil {
			r.opt.Loops++
		}
		failed := false
		for i := range la.Paths {
			pa := &la.Paths[i]
			for j := range lb.Paths {
				pb := &lb.Paths[j]
				t := n.clone()
				why := t.align(pa.Facts, pa.Effects, pb.Effects)
				F := t.conjB(pa.Facts, pb.Facts)
				if F == nil {
					continue
				}
				if (pa.Kind == "back") != (pb.Kind == "back") {
					r.note("at %s the loop ends or goes on when it should not: %s", la.Pos, FactStr(pa.Facts, pa.NF))
					if debug {
						fmt.Fprintf(os.Stderr, "equiv: loops %s / %s: %s against %s\n  A %s\n  B %s\n", la.Pos, lb.Pos, pa.Kind, pb.Kind, FactStr(pa.Facts, pa.NF), r.factStrB(t, pb.Facts, pb.NF))
						for _, k := range cs {
							s := "nothing"
							if len(k.as) > 0 {
								s = k.as[0].Name
							}
							fmt.Fprintf(os.Stderr, "  %s ~ %s\n", k.b.Name, s)
						}
					}
					return nil
				}
				t.results(n, pa.Effects, pb.Effects)
				if pa.Kind != "back" {
					continue
				}
				if r.opt != nil && round == 0 {
					r.opt.Pairs++
				}
				if why != "" {
					r.note("in the loop at %s: %s", la.Pos, why)
					if debug {
						fmt.Fprintf(os.Stderr, "equiv: loops %s / %s: %s\n", la.Pos, lb.Pos, why)
					}
					return nil
				}
				if why := t.contents(F, len(n.bound), pa.St, pa.Facts, pb.St, pb.Facts); why != "" {
					r.note("in the loop at %s: %s", la.Pos, why)
					return nil
				}
				for _, k := range cs {
					if len(k.as) == 0 {
						continue
					}
					va := k.as[0]
					c := &eqCtx{r: t, seen: map[eqKey]bool{}}
					wa, wb := view{st: pa.St, f: pa.Facts}, view{st: pb.St, f: pb.Facts}
					same := false
					if va.IsMap {
						same = c.mapContents(F, wa, pa.Next[va], wb, pb.Next[k.b], va.Start.Typ.Underlying().(*types.Map))
					} else {
						same = c.eq(F, wa, pa.Next[va], wb, pb.Next[k.b], va.Start.Typ)
					}
					if !same {
						r.note("at %s each iteration makes %s: %s", la.Pos, va.Name, c.why)
						if debug {
							fmt.Fprintf(os.Stderr, "equiv: step of %s vs %s: %s\n", va.Name, k.b.Name, c.why)
						}
						k.as = k.as[1:]
						failed = true
					}
				}
				if failed {
					break
				}
				if why := t.memory(F, pa.St, pa.Facts, pb.St, pb.Facts, la.Start, lb.Start); why != "" {
					r.note("in the loop at %s: %s", la.Pos, why)
					if debug {
						fmt.Fprintf(os.Stderr, "equiv: loops %s / %s: %s\n", la.Pos, lb.Pos, why)
					}
					return nil
				}
			}
			if failed {
				break
			}
		}
		if !failed {
			for _, k := range cs {
				if len(k.as) > 0 {
					matched[k.b] = true
				}
			}
			return n
		}
	}
	return nil
}

// results keeps what is known about results of calls that iterations of related loops make.
func (t *rel) results(n *rel, ea, eb []*Effect) {
	var walk func(es []*Effect)
	walk = func(es []*Effect) {
		for _, e := range es {
			for _, y := range e.Res {
				x, ok := t.sub[y]
				if !ok {
					continue
				}
				if z, ok := n.sub[y]; ok && z != x {
					x = y // several: not known
				}
				n.set(y, x)
				if x == y {
					n.sub[y] = y
				}
			}
			if e.Loop != nil {
				for _, p := range e.Loop.Paths {
					walk(p.Effects)
				}
			}
		}
	}
	walk(eb)
}

func (r *rel) note(format string, a ...any) {
	if r.opt != nil && len(r.opt.Why) < 8 {
		w := fmt.Sprintf(format, a...)
		if len(w) > 500 {
			w = w[:497] + "..."
		}
		for _, x := range r.opt.Why {
			if x == w {
				return
			}
		}
		r.opt.Why = append(r.opt.Why, w)
	}
}

func (r *rel) factStrB(t *rel, f *Facts, n int) string {
	var ss []string
	for i, x := range f.List() {
		if i >= n {
			ss = append(ss, short(t.apply(x)))
		}
	}
	return strings.Join(ss, " && ")
}

// FactStr renders the facts learned after the first n.
func FactStr(f *Facts, n int) string {
	var ss []string
	for i, x := range f.List() {
		if i >= n {
			ss = append(ss, short(x))
		}
	}
	return strings.Join(ss, " && ")
}

func sameKind(a, b types.Type) bool {
	if ma, ok := a.Underlying().(*types.Map); ok {
		mb, ok := b.Underlying().(*types.Map)
		return ok && sameKind(ma.Key(), mb.Key()) && sameKind(ma.Elem(), mb.Elem())
	}
	if ba, ok := a.Underlying().(*types.Basic); ok {
		bb, ok := b.Underlying().(*types.Basic)
		return ok && (ba.Kind() == bb.Kind() || ba.Info()&types.IsInteger != 0 && bb.Info()&types.IsInteger != 0)
	}
	return types.Identical(a.Underlying(), b.Underlying()) || fmt.Sprintf("%T", a.Underlying()) == fmt.Sprintf("%T", b.Underlying())
}

// entryMemory compares the memory that two loops summarise as it is before they start.
func (r *rel) entryMemory(la, lb *Loop) string {
	if len(la.Regions) == 0 && len(lb.Regions) == 0 {
		return ""
	}
	pick := func(st *State, l *Loop, isB bool) *State {
		n := newState()
		n.F = st.F
		in := func(c *Term) bool {
			for _, x := range la.Regions {
				if coveredBy(c, x) {
					return true
				}
			}
			for _, x := range lb.Regions {
				if coveredBy(c, x) {
					return true
				}
			}
			return false
		}
		for c, v := range st.Mem {
			if in(c) {
				n.Mem[c] = v
			}
		}
		for _, x := range append(append([]string{}, la.Regions...), lb.Regions...) {
			if v := st.Ver[x]; v != "" {
				n.Ver[x] = v
			}
		}
		return n
	}
	t := r.clone()
	F := t.conjB(la.Entry.F, lb.Entry.F)
	if F == nil {
		return ""
	}
	return t.memory(F, pick(la.Entry, la, false), la.Entry.F, pick(lb.Entry, lb, true), lb.Entry.F, nil, nil)
}

// memory compares what two paths have written to objects that exist outside them.
func (r *rel) memory(F *Facts, sa *State, fa *Facts, sb *State, fb *Facts, a0, b0 *State) string {
	in := r.in
	had := func(st0, st *State, c *Term) bool {
		if st0 == nil {
			return false
		}
		v, ok := st0.Mem[c]
		return ok && v == st.Mem[c]
	}
	hadMap := func(st0, st *State, c *Term) bool {
		if st0 == nil {
			return false
		}
		v, ok := st0.Maps[c]
		return ok && v == st.Maps[c]
	}
	type cell struct{ a, b *Term }
	cells := map[*Term]*cell{}
	for c := range sa.Mem {
		if in.outside(c, r.mark) && !had(a0, sa, c) {
			cells[c] = &cell{a: c}
		}
	}
	for c := range sb.Mem {
		if in.outside(c, r.mark) && !had(b0, sb, c) {
			k := r.apply(c)
			if cells[k] == nil {
				cells[k] = &cell{}
			}
			cells[k].b = c
		}
	}
	var ks []*Term
	for k := range cells {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		x := cells[k]
		if x.a == nil {
			x.a = k
		}
		if x.b == nil {
			x.b = k
		}
		root, _ := rootOf(k)
		if r.opt != nil && k.Op == OFieldAddr && r.opt.IgnoreFields[shortType(derefT(k.Args[0].Typ))+"."+fieldName(derefT(k.Args[0].Typ), k.Idx)] {
			continue
		}
		if r.opt != nil && root.Typ != nil && r.opt.IgnoreTypes[shortType(derefOr(root.Typ))] {
			continue
		}
		c := &eqCtx{r: r, seen: map[eqKey]bool{}}
		if !c.deref(F, view{st: sa, f: fa}, x.a, view{st: sb, f: fb}, x.b, derefT(x.a.Typ)) {
			return fmt.Sprintf("%s becomes %s", short(k), c.why)
		}
	}
	maps := map[*Term]*cell{}
	for m := range sa.Maps {
		if in.outside(m, r.mark) && !hadMap(a0, sa, m) {
			maps[m] = &cell{a: m}
		}
	}
	for m := range sb.Maps {
		if in.outside(m, r.mark) && !hadMap(b0, sb, m) {
			k := r.apply(m)
			if maps[k] == nil {
				maps[k] = &cell{a: k}
			}
			maps[k].b = m
		}
	}
	var ms []*Term
	for m := range maps {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
	for _, m := range ms {
		x := maps[m]
		if x.b == nil {
			x.b = m
		}
		c := &eqCtx{r: r, seen: map[eqKey]bool{}}
		if !c.mapContents(F, view{st: sa, f: fa}, in.Contents(sa, x.a), view{st: sb, f: fb}, in.Contents(sb, x.b), m.Typ.Underlying().(*types.Map)) {
			return fmt.Sprintf("the map %s becomes %s", short(m), c.why)
		}
	}
	// regions that loops have changed
	ra, rb := r.regions(F, sa, a0, false), r.regions(F, sb, b0, true)
	var rk []string
	for k := range ra {
		rk = append(rk, k)
	}
	for k := range rb {
		if _, ok := ra[k]; !ok {
			rk = append(rk, k)
		}
	}
	sort.Strings(rk)
	for _, k := range rk {
		if ra[k] != rb[k] {
			return fmt.Sprintf("what %s holds is changed by other loops (%s, %s)", r.regionName(k), ra[k], rb[k])
		}
	}
	return ""
}

// regions lists the changed regions of a state under common names.
func (r *rel) regions(F *Facts, st, st0 *State, isB bool) map[string]string {
	out := map[string]string{}
	var ks []string
	for k := range st.Ver {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if r.ignoredRegion(k) || st0 != nil && st0.Ver[k] == st.Ver[k] {
			continue
		}
		v := st.Ver[k]
		if isB {
			v = r.version(v)
		}
		if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "P:") {
			if t := r.in.termByID(serial(k[2:])); t != nil {
				u := t
				if isB {
					u = r.apply(t)
				}
				k = k[:2] + fmt.Sprint(F.Canon(r.in.U, u).ID) + strings.TrimPrefix(k[2:], fmt.Sprint(t.ID))
			}
		}
		if o, ok := out[k]; ok && o != v {
			v = o + "," + v
		}
		out[k] = v
	}
	return out
}

func (r *rel) regionName(k string) string {
	if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "P:") {
		if t := r.in.termByID(serial(k[2:])); t != nil {
			return short(t)
		}
	}
	return strings.TrimPrefix(k, "T:")
}

// ignoredRegion reports whether a changed region is of no concern: it belongs to something new, or is to be ignored.
func (r *rel) ignoredRegion(k string) bool {
	switch k[:2] {
	case "A:":
		var n int
		fmt.Sscan(k[2:], &n)
		return n > r.mark
	case "L:", "P:":
		t := r.in.termByID(serial(k[2:]))
		return t != nil && !r.in.outside(r.in.U.IndexAddr(t, r.in.U.Int(0), types.Typ[types.Int]), r.mark)
	case "T:":
		if r.opt != nil {
			for t := range r.opt.IgnoreTypes {
				if strings.HasPrefix(k, "T:"+t+"/") || strings.Contains(k, "/"+strings.Replace(t, ".", "/", 1)+"/") {
					return true
				}
			}
		}
	}
	return false
}

func derefOr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// outside reports whether a cell or map belongs to something that exists outside the functions compared.
func (in *Interp) outside(t *Term, mark int) bool {
	r, _ := rootOf(t)
	for r.Op == OIndexAddr {
		r, _ = rootOf(r.Args[0])
		if r.Op == OMake && r.Idx == 1 {
			if a := in.termByID(serial(strings.TrimPrefix(r.Aux, "arr:"))); a != nil {
				r, _ = rootOf(a)
			}
		}
	}
	if r.Op == OLV && r.Typ != nil {
		if _, ok := r.Typ.Underlying().(*types.Slice); ok {
			return true // a list built by a loop: its elements are changed
		}
	}
	switch r.Op {
	case OAlloc, OMap, OMake, OList, OCat:
		return false
	}
	return !in.bornInside(r, mark) || r.Op == OInit || r.Op == OLV
}

// contents compares what is in the fresh objects that were passed to the same calls.
func (r *rel) contents(F *Facts, from int, sa *State, fa *Facts, sb *State, fb *Facts) string {
	for _, p := range r.bound[from:] {
		b, a := p[0], p[1]
		pt, ok := a.Typ.Underlying().(*types.Pointer)
		if !ok || r.opt != nil && r.opt.IgnoreTypes[shortType(pt.Elem())] {
			continue
		}
		c := &eqCtx{r: r, seen: map[eqKey]bool{}}
		if !c.deref(F, view{st: sa, f: fa}, a, view{st: sb, f: fb}, b, pt.Elem()) {
			return "leaves something else in an object: " + c.why
		}
	}
	return ""
}

// Equiv compares two functions run from the same state on the same arguments: fa is judged against fb.
func (in *Interp) Equiv(outsA, outsB []Outcome, mark int, opt *EquivOpts) (diffs []Diff, err error) {
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(Fail); ok {
				err = fmt.Errorf("%s", f.Msg)
				return
			}
			panic(x)
		}
	}()
	base := &rel{in: in, sub: map[*Term]*Term{}, ver: map[string]string{}, loops: map[*Loop]*Loop{}, memo: map[*Term]*Term{}, mark: mark, opt: opt}
	seen := map[string]bool{}
	add := func(pos, what string) {
		if !seen[what] {
			seen[what] = true
			diffs = append(diffs, Diff{pos, what})
		}
	}
	for _, a := range outsA {
		for _, b := range outsB {
			r := base.clone()
			why := r.align(a.St.F, a.St.Effects, b.St.Effects)
			F := r.conjB(a.St.F, b.St.F)
			if F == nil {
				continue
			}
			opt.Pairs++
			cond := "when " + FactStr(a.St.F, 0)
			if len(cond) > 400 {
				cond = cond[:397] + "..."
			}
			if why != "" {
				add("", why+" "+cond)
				continue
			}
			if a.Kind != b.Kind {
				add("", fmt.Sprintf("ends in a %s, not a %s %s", a.Kind, b.Kind, cond))
				continue
			}
			if len(a.Res) != len(b.Res) {
				add("", "other results")
				continue
			}
			errs := false
			for i := range a.Res {
				if i < len(opt.resTypes) && isErrorType(opt.resTypes[i]) && F.Decide(in.U, in.U.Eq(a.Res[i], in.U.Nil())) == False && F.Decide(in.U, in.U.Eq(r.apply(b.Res[i]), in.U.Nil())) == False {
					errs = true
				}
			}
			if errs && opt.ErrorsOnly {
				continue
			}
			for i := range a.Res {
				if opt.Results != nil {
					use := false
					for _, k := range opt.Results {
						use = use || k == i
					}
					if !use {
						continue
					}
				}
				c := &eqCtx{r: r, seen: map[eqKey]bool{}}
				typ := b.Res[i].Typ
				if opt.resTypes != nil && i < len(opt.resTypes) {
					typ = opt.resTypes[i]
				}
				if !c.eq(F, view{st: a.St, f: a.St.F}, a.Res[i], view{st: b.St, f: b.St.F}, b.Res[i], typ) {
					add("", fmt.Sprintf("result %d: %s %s", i, c.why, cond))
				}
			}
			if why := r.contents(F, 0, a.St, a.St.F, b.St, b.St.F); why != "" {
				add("", why+" "+cond)
			}
			if why := r.memory(F, a.St, a.St.F, b.St, b.St.F, nil, nil); why != "" {
				add("", why+" "+cond)
			}
		}
	}
	return diffs, nil
}

var lvNames = regexp.MustCompile(`lv\d+(\.\w+)?|#\d+`)

// Crashes lists what run A may do that would crash it, unless run B (its reference) presupposes the same.
func (in *Interp) Crashes(certain []*Effect, outsA, outsB []Outcome) (ws []string) {
	norm := func(e *Effect) string {
		s := e.Kind + " " + e.Name
		for _, a := range e.Args {
			s += " " + lvNames.ReplaceAllString(a.String(), "lv")
		}
		return s
	}
	have := map[string]bool{}
	each := func(outs []Outcome, f func(e *Effect)) {
		seen := map[*Effect]bool{}
		var walk func(es []*Effect)
		walk = func(es []*Effect) {
			for _, e := range es {
				if seen[e] {
					continue
				}
				seen[e] = true
				f(e)
				if e.Loop != nil {
					for _, p := range e.Loop.Paths {
						walk(p.Effects)
					}
				}
			}
		}
		for _, o := range outs {
			walk(o.St.Effects)
		}
	}
	each(outsB, func(e *Effect) {
		if strings.HasPrefix(e.Kind, "may-") {
			have[norm(e)] = true
		}
	})
	done := map[string]bool{}
	outsA = append(outsA[:len(outsA):len(outsA)], Outcome{St: &State{Effects: certain}})
	each(outsA, func(e *Effect) {
		if !strings.HasPrefix(e.Kind, "may-") || have[norm(e)] {
			return
		}
		w := fmt.Sprintf("may crash at %s: %s", e.Pos, norm(e))
		if !done[w] {
			done[w] = true
			ws = append(ws, w)
		}
	})
	return ws
}
