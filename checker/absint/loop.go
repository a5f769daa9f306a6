package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopForest struct{ byHeader map[*ssa.BasicBlock]*natLoop }

func (f *loopForest) at(b *ssa.BasicBlock) *natLoop { return f.byHeader[b] }

func (in *Interp) forest(fn *ssa.Function) *loopForest {
	if f, ok := in.loops[fn]; ok {
		return f
	}
	f := &loopForest{byHeader: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := f.byHeader[h]
			if l == nil {
				l = &natLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				f.byHeader[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	in.loops[fn] = f
	return f
}

// Loop is the summary of a loop: what one generic iteration does.
type Loop struct {
	ID      string
	Fn      string
	Pos     string
	K       *Term // iteration counter, from 0
	Vars    []*LoopVar
	Paths   []LoopPath // every way through one iteration
	Start   *State     // state in which a generic iteration starts
	Entry   *State     // state in which the loop is entered
	Regions []string   // summarised memory regions that iterations change
	Bound   *Term      // the loop runs at most this many full iterations (if known)
	mark    int
}

// LoopVar is a value or memory cell that iterations change.
type LoopVar struct {
	Name  string
	Addr  *Term // address of the cell, or map identity, or nil for a value
	IsMap bool
	Init  *Term
	Start *Term // value at the start of a generic iteration
	Step  int64 // increment per iteration, if it is an induction variable
	phi   *ssa.Phi
	path  []int // leaf of a struct value
}

// LoopPath is one way through one iteration.
type LoopPath struct {
	Kind    string // "back", "exit", "return", "panic"
	Facts   *Facts
	St      *State
	Effects []*Effect // those of the iteration only
	Next    map[*LoopVar]*Term
	Res     []*Term // for returns
	NF      int     // literals known at the start of the iteration
}

// Var finds the loop variable whose start value is t.
func (l *Loop) Var(t *Term) *LoopVar {
	for _, v := range l.Vars {
		if v.Start == t {
			return v
		}
	}
	return nil
}

// CellVar finds the loop variable for a memory cell.
func (l *Loop) CellVar(addr *Term) *LoopVar {
	for _, v := range l.Vars {
		if v.Addr == addr {
			return v
		}
	}
	return nil
}

const maxUnroll = 24

// loop handles arrival at a loop header from outside the loop.
func (in *Interp) loop(fn *ssa.Function, l *natLoop, a arrival) []exit {
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		if es, ok := in.unroll(fn, l, a); ok {
			return es
		}
	}
	return in.summarise(fn, l, a)
}

// unroll executes a loop whose header condition is decided in every iteration.
func (in *Interp) unroll(fn *ssa.Function, l *natLoop, a arrival) (res []exit, ok bool) {
	n, savePaths := len(in.stack), in.paths
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(abandon); is {
				in.stack = in.stack[:n]
				in.paths = savePaths
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	work := []arrival{{to: a.to, from: a.from, fr: a.fr.clone(), st: a.st.clone()}}
	for iter := 0; len(work) > 0; iter++ {
		if iter > maxUnroll || len(work) > 64 {
			return nil, false
		}
		var next []arrival
		for _, w := range work {
			in.setPhis(w)
			w.phisSet = true
			for _, e := range in.region(fn, l, []arrival{w}, &regionOpts{mustDecide: l.header}) {
				if e.kind == "back" {
					next = append(next, arrival{to: e.to, from: e.from, fr: e.fr, st: e.st})
				} else {
					res = append(res, e)
				}
			}
		}
		work = next
	}
	return res, true
}

type cellKey struct {
	addr  *Term
	isMap bool
}

// summarise computes the effect of a loop by a fixpoint over one generic iteration.
func (in *Interp) summarise(fn *ssa.Function, nl *natLoop, a arrival) []exit {
	u := in.U
	in.Stats.Loops++
	lp := &Loop{ID: u.Fresh(), Fn: fn.String(), Pos: in.pos(headerPos(nl)), Entry: a.st.clone()}
	fmt.Sscan(lp.ID, &lp.mark)
	lp.K = u.mk(Term{Op: OLV, Aux: lp.ID + ".k", Typ: types.Typ[types.Int], Loop: lp})
	var phis []*ssa.Phi
	for _, i := range nl.header.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	phiVar := map[*ssa.Phi][]*LoopVar{} // one per leaf of the type; nil entries do not change
	phiLeaves := map[*ssa.Phi][]leafPath{}
	inits := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		inits[p] = in.phiVal(a, p)
		phiLeaves[p] = leafPaths(p.Type())
		phiVar[p] = make([]*LoopVar, len(phiLeaves[p]))
	}
	cells := map[cellKey]*LoopVar{}
	regions := map[string]bool{}
	var invariants []*Term // literals about the start of an iteration
	noInd := map[*LoopVar]bool{}
	subst := map[*LoopVar]*Term{} // variables equal to a term over others
	var paths []exit
	var startFr *frame
	var startSt *State

	mkStart := func(v *LoopVar, typ types.Type, tag string) {
		v.Start = u.mk(Term{Op: OLV, Aux: lp.ID + "." + tag, Typ: typ, Loop: lp})
	}
	startVal := func(v *LoopVar) *Term {
		if s := subst[v]; s != nil {
			return s
		}
		if v.Step != 0 {
			return u.Add(v.Init, lp.K, v.Step)
		}
		return v.Start
	}
	pass := func() {
		startFr, startSt = a.fr.clone(), a.st.clone()
		startSt.Effects, startSt.outer = nil, lp.Entry
		for r := range regions {
			startSt.Ver[r] = addVer(startSt.Ver[r], "@"+lp.ID)
			in.dropRegion(startSt, r)
		}
		for k, v := range cells {
			if k.isMap {
				startSt.Maps[k.addr] = startVal(v)
			} else {
				startSt.Mem[k.addr] = startVal(v)
			}
		}
		for _, p := range phis {
			k := 0
			startFr.env[p] = in.build(p.Type(), func(path []int, typ types.Type) *Term {
				v := phiVar[p][k]
				k++
				if v != nil {
					return startVal(v)
				}
				return in.leafOf(inits[p], p.Type(), path)
			})
		}
		startSt.F.Assume(u, u.Less(u.Int(0), lp.K, false), true)
		for _, c := range invariants {
			startSt.F.Assume(u, c, true)
		}
		paths = in.region(fn, nl, []arrival{{to: nl.header, fr: startFr.clone(), st: startSt.clone(), phisSet: true}}, nil)
		all := paths
		paths = nil
		for _, e := range all {
			if e.kind == "back" {
				paths = append(paths, in.thread(nl, e)...)
			} else {
				paths = append(paths, e)
			}
		}
	}
	variant := func(t *Term) bool {
		return t.Any(func(x *Term) bool {
			if x.Loop != nil && serial(x.Loop.ID) >= lp.mark {
				return true
			}
			return in.bornAfter(x, lp.mark)
		})
	}
	nextOf := func(e exit, v *LoopVar) *Term {
		var t *Term
		switch {
		case v.phi != nil:
			t = in.leafOf(in.phiVal(arrival{to: nl.header, from: e.from, fr: e.fr, st: e.st}, v.phi), v.phi.Type(), v.path)
		case v.IsMap:
			t = e.st.Maps[v.Addr]
			if t == nil {
				t = in.Contents(e.st, v.Addr)
			}
		default:
			t = e.st.Mem[v.Addr]
			if t == nil {
				t = in.defaultAt(e.st, v.Addr, derefT(v.Addr.Typ))
			}
		}
		return e.st.F.Canon(u, t)
	}

	stable := func() {
		for round := 0; ; round++ {
			if round > 20 {
				in.fail("loop at %s does not stabilise", lp.Pos)
			}
			pass()
			changed := false
			for _, e := range paths {
				if e.kind != "back" {
					continue
				}
				ea := arrival{to: nl.header, from: e.from, fr: e.fr, st: e.st}
				for _, p := range phis {
					whole := in.phiVal(ea, p)
					for k, lf := range phiLeaves[p] {
						if phiVar[p][k] != nil {
							continue
						}
						nv, iv := in.leafOf(whole, p.Type(), lf.path), in.leafOf(inits[p], p.Type(), lf.path)
						if nv != iv && e.st.F.Canon(u, nv) != e.st.F.Canon(u, iv) {
							v := &LoopVar{Name: p.Comment, Init: iv, phi: p, path: lf.path}
							if v.Name == "" {
								v.Name = p.Name()
							}
							tag := p.Name()
							for _, i := range lf.path {
								tag += fmt.Sprintf(".%d", i)
							}
							mkStart(v, lf.typ, tag)
							phiVar[p][k] = v
							changed = true
						}
					}
				}
				for c, nv := range e.st.Mem {
					if _, ok := cells[cellKey{c, false}]; ok {
						continue
					}
					root, path := rootOf(c)
					if in.bornAfter(root, lp.mark) {
						continue
					}
					if root.Op == OIndexAddr && in.bornAfter(root.Args[0], lp.mark) {
						continue
					}
					ov, had := startSt.Mem[c]
					if had && (ov == nv || e.st.F.Canon(u, ov) == e.st.F.Canon(u, nv)) {
						continue
					}
					if variant(c) {
						if !had {
							// unchanged contents written back?
							if d := in.tryDefault(startSt, c); d != nil && d == nv {
								continue
							}
						}
						r := typeVerKey(root, path)
						if root.Op == OIndexAddr && !variant(root.Args[0]) {
							r = fmt.Sprintf("L:%d/%s", root.Args[0].ID, path)
						}
						if !regions[r] {
							regions[r] = true
							changed = true
							for k := range cells {
								if !k.isMap && coveredBy(k.addr, r) {
									delete(cells, k)
								}
							}
						}
						continue
					}
					covered := false
					for r := range regions {
						covered = covered || coveredBy(c, r)
					}
					if covered {
						continue
					}
					if !had {
						ov = in.tryDefault(startSt, c)
						if ov == nv {
							continue
						}
					}
					iv := in.Load(a.st.clone(), c, derefT(c.Typ))
					v := &LoopVar{Name: c.String(), Addr: c, Init: iv}
					mkStart(v, derefT(c.Typ), "c"+fmt.Sprint(c.ID))
					cells[cellKey{c, false}] = v
					changed = true
				}
				for m, nv := range e.st.Maps {
					if _, ok := cells[cellKey{m, true}]; ok || in.bornAfter(m, lp.mark) {
						continue
					}
					ov, had := startSt.Maps[m]
					if !had {
						ov = in.Contents(startSt, m)
					}
					if ov == nv {
						continue
					}
					if variant(m) {
						r := "M:" + typeKey(m.Typ)
						if !regions[r] {
							regions[r] = true
							changed = true
						}
						continue
					}
					v := &LoopVar{Name: "map " + m.String(), Addr: m, IsMap: true, Init: in.Contents(a.st, m)}
					mkStart(v, m.Typ, "m"+fmt.Sprint(m.ID))
					cells[cellKey{m, true}] = v
					changed = true
				}
				for r, nv := range e.st.Ver {
					if strings.HasPrefix(r, "L:") {
						// a list of this iteration only
						if l := in.termByID(serial(r[2:])); l != nil && in.bornInside(l, lp.mark) {
							continue
						}
					}
					if strings.HasPrefix(r, "A:") {
						// an object of an earlier iteration: not visible here
						var n int
						fmt.Sscan(r[2:], &n)
						if n > lp.mark && !strings.Contains(r, "/") && !strings.Contains(r[2:], ".") {
							continue
						}
					}
					if startSt.Ver[r] == nv {
						continue
					}
					rs := []string{r}
					if strings.HasPrefix(r, "L:") || strings.HasPrefix(r, "P:") {
						if l := in.termByID(serial(r[2:])); l != nil && variant(l) {
							// a different list in every iteration
							rs = in.typeRegions(l, r)
						}
					}
					for _, r := range rs {
						if !regions[r] {
							regions[r] = true
							changed = true
							for k := range cells {
								if !k.isMap && coveredBy(k.addr, r) {
									delete(cells, k)
								}
							}
						}
					}
				}
			}
			if !changed {
				return
			}
		}
	}
	allVars := func() []*LoopVar {
		var vs []*LoopVar
		for _, p := range phis {
			for _, v := range phiVar[p] {
				if v != nil {
					vs = append(vs, v)
				}
			}
		}
		var cs []*LoopVar
		for _, v := range cells {
			cs = append(cs, v)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].Addr.ID < cs[j].Addr.ID })
		return append(vs, cs...)
	}

	stable()
	// induction variables, equalities and bounds; each improvement restarts from a stable state
	for round := 0; round < 8; round++ {
		improved := false
		for _, v := range allVars() {
			if v.Step != 0 || noInd[v] || subst[v] != nil || v.IsMap || v.Start.Typ == nil || !isInt(v.Start.Typ) {
				continue
			}
			var step int64
			okAll, n := true, 0
			for _, e := range paths {
				if e.kind != "back" {
					continue
				}
				d := toLinear(nextOf(e, v))
				d.add(v.Start, -1)
				if len(d.m) != 0 || d.c == 0 || n > 0 && d.c != step {
					okAll = false
					break
				}
				step = d.c
				n++
			}
			if okAll && n > 0 {
				v.Step = step
				improved = true
			} else {
				noInd[v] = true
			}
		}
		if improved {
			stable()
			continue
		}
		if in.findEqualities(allVars(), subst, paths, nextOf, startVal, a) {
			stable()
			continue
		}
		if c := in.findBound(lp, startSt, a, paths, variant, invariants); c != nil {
			invariants = append(invariants, c)
			stable()
			continue
		}
		if c := in.findNonNeg(allVars(), subst, a, paths, nextOf, invariants); c != nil {
			invariants = append(invariants, c)
			stable()
			continue
		}
		if c := in.findConstDisj(allVars(), subst, a, paths, nextOf, invariants); c != nil {
			invariants = append(invariants, c)
			stable()
			continue
		}
		break
	}

	lp.Vars = allVars()
	for r := range regions {
		lp.Regions = append(lp.Regions, r)
	}
	sort.Strings(lp.Regions)
	lp.Start = startSt
	for _, v := range lp.Vars {
		v.Start = startVal(v)
	}
	in.done[lp.ID] = lp
	eff := &Effect{Kind: "loop", Name: lp.ID, Loop: lp, Pos: lp.Pos, Fn: fn.String()}
	le := *eff
	le.NF = len(a.st.F.seq)
	var out []exit
	for _, e := range paths {
		p := LoopPath{Kind: e.kind, Facts: e.st.F, Effects: e.st.Effects, Res: e.res, NF: len(startSt.F.seq)}
		if e.kind == "edge" {
			p.Kind = "exit"
		}
		if e.kind == "exit" {
			p.Kind = "panic"
		}
		p.St = e.st.clone()
		p.Next = map[*LoopVar]*Term{}
		if e.kind == "back" {
			for _, v := range lp.Vars {
				p.Next[v] = nextOf(e, v)
			}
		}
		lp.Paths = append(lp.Paths, p)
		if e.kind != "back" {
			st := e.st
			effs := append([]*Effect{}, a.st.Effects...)
			effs = append(effs, &le)
			effs = append(effs, e.st.Effects...)
			st.Effects, st.outer = effs, lp.Entry.outer
			ne := e
			ne.st = st
			out = append(out, ne)
		}
	}
	if os.Getenv("ABSINT_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "loop", fn, lp.Pos, "vars", len(lp.Vars), "paths", len(lp.Paths))
	}
	return out
}

// typeRegions gives the regions of all objects of the type that a list's elements, or the object pointed to, have.
func (in *Interp) typeRegions(l *Term, r string) (out []string) {
	var et types.Type
	switch x := l.Typ.Underlying().(type) {
	case *types.Slice:
		et = x.Elem()
	case *types.Pointer:
		et = x.Elem()
	default:
		return []string{r}
	}
	if _, path, ok := strings.Cut(r[2:], "/"); ok {
		return []string{"T:" + typeKey(et) + "/" + path}
	}
	for _, lf := range leafPaths(et) {
		var ps []string
		for _, i := range lf.path {
			ps = append(ps, fmt.Sprint(i))
		}
		out = append(out, "T:"+typeKey(et)+"/"+strings.Join(ps, "."))
	}
	return out
}

func headerPos(nl *natLoop) (p token.Pos) {
	for _, i := range nl.header.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for b := range nl.blocks {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() && (!p.IsValid() || i.Pos() < p) {
				p = i.Pos()
			}
		}
	}
	return p
}

func serial(id string) int {
	n := 0
	fmt.Sscan(id, &n)
	return n
}

// visited decides whether part of a list element is a constant after the iteration of a loop that visits the element.
func (in *Interp) visited(f *Facts, t, c *Term) Tri {
	root, path := rootOf(t.Args[0])
	if root.Op != OIndexAddr {
		return Unknown
	}
	for _, id := range strings.Split(t.Aux, ",") {
		// the last of the loops that changed it is the one before which the others had
		if lp := in.done[strings.TrimPrefix(id, "@")]; lp != nil && in.version(lp.Start, t.Args[0]) == t.Aux {
			if r := in.visitedBy(lp, f, t, c, root, path); r != Unknown {
				return r
			}
		}
	}
	return Unknown
}

func (in *Interp) visitedBy(lp *Loop, f *Facts, t, c, root *Term, path string) Tri {
	u := in.U
	l, j := root.Args[0], root.Args[1]
	if j == lp.K || f.Decide(u, u.Less(u.Int(0), j, false)) != True || f.Decide(u, u.Less(j, lp.K, true)) != True {
		return Unknown
	}
	own := fmt.Sprintf("L:%d/%s", l.ID, path)
	found := false
	for _, r := range lp.Regions {
		found = found || r == own
	}
	if !found {
		return Unknown
	}
	at := u.IndexAddr(l, lp.K, derefT(root.Typ))
	res := Unknown
	for _, p := range lp.Backs() {
		if p.St.Ver[own] != lp.Start.Ver[own] {
			return Unknown
		}
		var v *Term
		for cell, x := range p.St.Mem {
			r, q := rootOf(cell)
			if r.Op != OIndexAddr || q != path {
				continue
			}
			if r != at {
				return Unknown
			}
			v = x
		}
		if v == nil {
			var move func(a *Term) *Term
			move = func(a *Term) *Term {
				if a == root {
					return at
				}
				return u.FieldAddr(move(a.Args[0]), a.Idx, derefT(a.Typ))
			}
			v = in.Init(move(t.Args[0]), t.Typ, t.Aux)
		}
		switch r := p.Facts.Decide(u, u.Eq(v, c)); {
		case r == Unknown || res != Unknown && r != res:
			return Unknown
		default:
			res = r
		}
	}
	return res
}

func addVer(v, x string) string {
	if strings.HasSuffix(v, x) {
		return v
	}
	return v + x
}

// coveredBy reports whether a cell is in a summarised region.
func coveredBy(c *Term, r string) bool {
	root, path := rootOf(c)
	switch {
	case strings.HasPrefix(r, "T:"):
		return typeVerKey(root, path) == r && root.Op != OAlloc && root.Op != OGlobal
	case strings.HasPrefix(r, "L:"):
		return root.Op == OIndexAddr && (fmt.Sprintf("L:%d/%s", root.Args[0].ID, path) == r || fmt.Sprintf("L:%d", root.Args[0].ID) == r)
	case strings.HasPrefix(r, "A:"):
		return (root.Op == OAlloc || root.Op == OGlobal) && "A:"+root.Aux == r
	}
	return false
}

// bornInside reports whether a list came into being after the mark.
func (in *Interp) bornInside(t *Term, mark int) bool {
	return t.Any(func(x *Term) bool { return in.bornAfter(x, mark) })
}

// bornAfter reports whether t denotes something that came into being after the mark.
func (in *Interp) bornAfter(t *Term, mark int) bool {
	switch t.Op {
	case OAlloc, OMap, OMake:
		if t.Op == OMake && t.Idx == 1 {
			// array: born with its object
			id := serial(strings.TrimPrefix(t.Aux, "arr:"))
			if o := in.termByID(id); o != nil {
				r, _ := rootOf(o)
				return in.bornAfter(r, mark)
			}
			return false
		}
		return serial(t.Aux) > mark
	case OUnk, ORes:
		k := strings.LastIndex(t.Aux, "#")
		return k >= 0 && serial(t.Aux[k+1:]) > mark
	}
	return false
}

func (in *Interp) termByID(id int) *Term {
	if in.U.byID == nil {
		return nil
	}
	return in.U.byID[id]
}

func (in *Interp) tryDefault(st *State, c *Term) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(split); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return in.Load(st, c, derefT(c.Typ))
}

// dropRegion removes the cells of a summarised region.
func (in *Interp) dropRegion(st *State, r string) {
	for c := range st.Mem {
		if coveredBy(c, r) {
			delete(st.Mem, c)
		}
	}
	if strings.HasPrefix(r, "M:") {
		for m := range st.Maps {
			if m.Op != OMap && "M:"+typeKey(m.Typ) == r {
				delete(st.Maps, m)
			}
		}
	}
}

// findEqualities looks for integer variables that always equal the length of a list variable plus a constant, and for
// variables that always equal another variable.
func (in *Interp) findEqualities(vs []*LoopVar, subst map[*LoopVar]*Term, paths []exit, nextOf func(exit, *LoopVar) *Term, startVal func(*LoopVar) *Term, a arrival) bool {
	u := in.U
	holds := func(f func(get func(*LoopVar) *Term) *Term) bool {
		// initially
		if !in.Proves(a.st.F, f(func(v *LoopVar) *Term { return v.Init })) {
			return false
		}
		n := 0
		start := f(startVal)
		for _, e := range paths {
			if e.kind != "back" {
				continue
			}
			n++
			fs := e.st.F.clone()
			fs.Assume(u, start, true)
			if !in.Proves(fs, f(func(v *LoopVar) *Term { return nextOf(e, v) })) {
				return false
			}
		}
		return n > 0
	}
	isList := func(t types.Type) bool {
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Slice)
		return ok
	}
	for _, v := range vs {
		if subst[v] != nil || v.Step != 0 || v.IsMap || !isInt(v.Start.Typ) {
			continue
		}
		for _, w := range vs {
			if w.IsMap || subst[w] != nil || !isList(w.Start.Typ) {
				continue
			}
			d := u.Add(v.Init, u.Len(w.Init), -1)
			k, ok := d.IntVal()
			if !ok {
				continue
			}
			w, v := w, v
			if holds(func(get func(*LoopVar) *Term) *Term {
				return u.Eq(get(v), u.Add(u.Len(get(w)), u.Int(k), 1))
			}) {
				subst[v] = u.Add(u.Len(startVal(w)), u.Int(k), 1)
				return true
			}
		}
	}
	for i, v := range vs {
		if subst[v] != nil || v.Step != 0 || v.IsMap {
			continue
		}
		for j, w := range vs {
			if j >= i || subst[w] != nil || w.IsMap || w.Init != v.Init || w.Step != 0 {
				continue
			}
			ok, n := true, 0
			for _, e := range paths {
				if e.kind != "back" {
					continue
				}
				n++
				nv := in.U.Map(nextOf(e, v), func(t *Term) *Term {
					if t == v.Start {
						return w.Start
					}
					return nil
				})
				nw := in.U.Map(nextOf(e, w), func(t *Term) *Term {
					if t == v.Start {
						return w.Start
					}
					return nil
				})
				if nv != nw {
					ok = false
				}
			}
			if ok && n > 0 {
				subst[v] = w.Start
				return true
			}
		}
	}
	return false
}

// findBound looks for an upper bound on the iteration counter.
func (in *Interp) findBound(lp *Loop, startSt *State, a arrival, paths []exit, variant func(*Term) bool, have []*Term) *Term {
	u := in.U
	var backs []exit
	for _, e := range paths {
		if e.kind == "back" {
			backs = append(backs, e)
		}
	}
	if len(backs) == 0 {
		return nil
	}
	for _, l := range backs[0].st.F.le {
		k := l.m[lp.K]
		if k <= 0 {
			continue
		}
		ok := true
		for t := range l.m {
			if t != lp.K && variant(t) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for _, e := range backs[1:] {
			if !e.st.F.proveLe(u, l) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		// k*K + rest <= 0 on every completed iteration, so k*(K-1) + rest <= 0 at the start of each but the first
		n := linear{m: map[*Term]int64{}, c: l.c - k}
		init := linear{m: map[*Term]int64{}, c: l.c - k}
		for t, c := range l.m {
			n.m[t] = c
			if t != lp.K {
				init.m[t] = c
			}
		}
		c := u.leZ(n)
		if startSt.F.Decide(u, c) == True {
			continue
		}
		if !a.st.F.proveLe(u, init) {
			continue
		}
		if k == 1 {
			b := neg(n)
			delete(b.m, lp.K)
			lp.Bound = u.fromLinear(b, types.Typ[types.Int])
		}
		return c
	}
	return nil
}

// findNonNeg looks for integer variables that never go below their constant start.
func (in *Interp) findNonNeg(vs []*LoopVar, subst map[*LoopVar]*Term, a arrival, paths []exit, nextOf func(exit, *LoopVar) *Term, have []*Term) *Term {
	u := in.U
	for _, v := range vs {
		if subst[v] != nil || v.Step != 0 || v.IsMap || !isInt(v.Start.Typ) || isUnsigned(v.Start.Typ) {
			continue
		}
		if _, ok := v.Init.IntVal(); !ok {
			continue
		}
		c := u.Less(v.Init, v.Start, false)
		dup := false
		for _, h := range have {
			dup = dup || h == c
		}
		if dup {
			continue
		}
		ok, n := true, 0
		for _, e := range paths {
			if e.kind != "back" {
				continue
			}
			n++
			fs := e.st.F.clone()
			fs.Assume(u, c, true)
			if fs.Decide(u, u.Less(v.Init, nextOf(e, v), false)) != True {
				ok = false
				break
			}
		}
		if ok && n > 0 {
			return c
		}
	}
	return nil
}

// findConstDisj looks for pointer variables that are never nil, and lists that never become empty.
func (in *Interp) findConstDisj(vs []*LoopVar, subst map[*LoopVar]*Term, a arrival, paths []exit, nextOf func(exit, *LoopVar) *Term, have []*Term) *Term {
	u := in.U
	for _, v := range vs {
		if subst[v] != nil || v.IsMap || v.Start.Typ == nil {
			continue
		}
		switch v.Start.Typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		default:
			continue
		}
		c := u.Not(u.Eq(v.Start, u.Nil()))
		dup := false
		for _, h := range have {
			dup = dup || h == c
		}
		if dup || a.st.F.Decide(u, u.Eq(v.Init, u.Nil())) != False {
			continue
		}
		ok, n := true, 0
		for _, e := range paths {
			if e.kind != "back" {
				continue
			}
			n++
			fs := e.st.F.clone()
			fs.Assume(u, c, true)
			if fs.Decide(u, u.Eq(nextOf(e, v), u.Nil())) != False {
				ok = false
				break
			}
		}
		if ok && n > 0 {
			return c
		}
	}
	return nil
}

type leafPath struct {
	path []int
	typ  types.Type
}

// leafPaths lists the leaves of a type: the fields of structs, down to what is not a struct.
func leafPaths(t types.Type) []leafPath {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return []leafPath{{nil, t}}
	}
	var out []leafPath
	for i := 0; i < s.NumFields(); i++ {
		for _, l := range leafPaths(s.Field(i).Type()) {
			out = append(out, leafPath{append([]int{i}, l.path...), l.typ})
		}
	}
	return out
}

func (in *Interp) leafOf(v *Term, typ types.Type, path []int) *Term {
	for _, i := range path {
		ft := typ.Underlying().(*types.Struct).Field(i).Type()
		v = in.U.Field(v, i, ft)
		typ = ft
	}
	return v
}

// build makes a value of a type from its leaves.
func (in *Interp) build(t types.Type, leaf func(path []int, typ types.Type) *Term) *Term {
	var rec func(t types.Type, path []int) *Term
	rec = func(t types.Type, path []int) *Term {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return leaf(path, t)
		}
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = rec(s.Field(i).Type(), append(append([]int{}, path...), i))
		}
		return in.U.Struct(t, fs...)
	}
	return rec(t, nil)
}

// thread follows a path that goes back to a loop header whose condition is whether a variable is set, or is nil, and
// ends the loop there and then if it has to; the path may have to be split for that.
func (in *Interp) thread(nl *natLoop, e exit) []exit {
	same := []exit{e}
	h := nl.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return same
	}
	var flag *ssa.Phi
	var typ types.Type
	neg, null := false, false
	switch x := iff.Cond.(type) {
	case *ssa.Phi:
		flag = x
	case *ssa.UnOp:
		if p, ok := x.X.(*ssa.Phi); ok && x.Op == token.NOT {
			flag, neg = p, true
		}
	case *ssa.BinOp:
		p, k := x.X, x.Y
		if _, ok := p.(*ssa.Const); ok {
			p, k = k, p
		}
		ph, ok1 := p.(*ssa.Phi)
		c, ok2 := k.(*ssa.Const)
		if ok1 && ok2 && c.IsNil() && types.IsInterface(ph.Type()) && (x.Op == token.EQL || x.Op == token.NEQ) {
			flag, neg, null, typ = ph, x.Op == token.NEQ, true, ph.Type()
		}
	}
	if flag == nil || flag.Block() != h {
		return same
	}
	for _, i := range h.Instrs {
		switch i.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		default:
			if i != iff.Cond.(ssa.Instruction) {
				return same
			}
		}
	}
	a := arrival{to: h, from: e.from, fr: e.fr, st: e.st}
	end := func(st *State, v bool) (exit, bool) {
		to := h.Succs[1]
		if v != neg {
			to = h.Succs[0]
		}
		if nl.blocks[to] {
			return exit{}, false
		}
		fr := e.fr.clone()
		in.setPhis(arrival{to: h, from: e.from, fr: fr, st: st})
		fr.env[iff.Cond] = in.U.Bool(v != neg)
		return exit{kind: "edge", to: to, from: h, fr: fr, st: st}, true
	}
	t := e.st.F.Canon(in.U, in.phiVal(a, flag))
	if null {
		t = e.st.F.Canon(in.U, in.eq(e.st, t, in.U.Nil(), typ))
		if _, ok := t.BoolVal(); !ok {
			var out []exit
			for _, v := range []bool{true, false} {
				st := e.st.clone()
				if !st.F.Assume(in.U, t, v) {
					continue
				}
				x := e
				x.fr, x.st = e.fr.clone(), st
				if y, ok := end(st, v); ok {
					x = y
				}
				out = append(out, x)
			}
			return out
		}
	}
	v, ok := t.BoolVal()
	if !ok {
		return same
	}
	if x, ok := end(e.st, v); ok {
		return []exit{x}
	}
	return same
}
