package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Known mode: shapes (lengths of lists, entries of maps) are given, only the contents are symbolic. Maps are stepped
// through entry by entry, and calls outside the module do not fail.

// entries lists the entries of contents made of writes to an empty map, oldest first.
func entries(c *Term) (ks, vs []*Term, ok bool) {
	for ; c.Op == OMStore; c = c.Args[0] {
		ks = append(ks, c.Args[1])
		vs = append(vs, c.Args[2])
	}
	if c.Op != OMEmpty {
		return nil, nil, false
	}
	for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
		ks[i], ks[j] = ks[j], ks[i]
		vs[i], vs[j] = vs[j], vs[i]
	}
	return ks, vs, true
}

// Entries lists the entries of a map whose keys are known.
func (in *Interp) Entries(st *State, m *Term) (ks, vs []*Term, ok bool) {
	return entries(in.Contents(st, m))
}

// mapPut writes an entry; with known entries, each key occurs once.
func (in *Interp) mapPut(st *State, c, k, v *Term) *Term {
	if !in.C.Known {
		return in.mapStore(c, k, v)
	}
	ks, vs, ok := entries(c)
	if !ok {
		return in.mapStore(c, k, v)
	}
	for i, x := range ks {
		if in.decide(st, in.U.Eq(x, k)) {
			vs[i] = v
			return in.knownMap(ks, vs, c)
		}
	}
	return in.knownMap(append(ks, k), append(vs, v), c)
}

func (in *Interp) knownMap(ks, vs []*Term, like *Term) *Term {
	c := in.U.mk(Term{Op: OMEmpty})
	for i := range ks {
		c = in.U.mk(Term{Op: OMStore, Args: []*Term{c, ks[i], vs[i]}, Typ: like.Typ})
	}
	return c
}

// mapDelete takes out an entry.
func (in *Interp) mapDelete(st *State, m, k *Term) *Term {
	c := in.Contents(st, m)
	if in.C.Known {
		if ks, vs, ok := entries(c); ok {
			for i, x := range ks {
				if in.decide(st, in.U.Eq(x, k)) {
					return in.knownMap(append(append([]*Term{}, ks[:i]...), ks[i+1:]...), append(append([]*Term{}, vs[:i]...), vs[i+1:]...), c)
				}
			}
			return c
		}
	}
	return in.U.mk(Term{Op: OMDel, Args: []*Term{c, k}, Typ: m.Typ})
}

// mapSize is the number of entries of contents, if they are known.
func (in *Interp) mapSize(c *Term) (n int, ok bool) {
	if c.Op == OMEmpty {
		return 0, true
	}
	if !in.C.Known {
		return 0, false
	}
	ks, _, ok := entries(c)
	return len(ks), ok
}

// Apply calls a function value.
func (in *Interp) Apply(st *State, f *Term, sig *types.Signature, args ...*Term) (out []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(Fail); ok {
				err = fmt.Errorf("%s", f.Msg)
				return
			}
			err = fmt.Errorf("analysis crashed: %v", r)
		}
	}()
	in.paths = 0
	in.stack = nil
	cc := &callCtx{in: in, st: st, args: args, pos: "template", fn: "template", res: sig.Results()}
	switch f.Op {
	case OFunc:
		return in.static(cc, f.Fn, nil), nil
	case OClosure:
		return in.static(cc, f.Fn, f.Args), nil
	}
	return nil, fmt.Errorf("not a known function: %s", f)
}

// Lookup reads a map entry.
func (in *Interp) Lookup(st *State, m, k *Term, vt types.Type) (v, ok *Term) {
	return in.mapLookup(st, in.Contents(st, m), k, vt)
}

// Decide tells whether a condition is known.
func (in *Interp) Decide(st *State, c *Term) Tri { return st.F.Decide(in.U, c) }

// TypeKey names a type.
func TypeKey(t types.Type) string { return typeKey(t) }

// EqualValues compares two values of a type.
func (in *Interp) EqualValues(st *State, a, b *Term, t types.Type) (r *Term, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("cannot compare: %v", x)
		}
	}()
	return in.eq(st, a, b, t), nil
}

// Func is a function value.
func (u *Universe) Func(fn *ssa.Function) *Term {
	return u.mk(Term{Op: OFunc, Fn: fn, Typ: fn.Signature})
}

// knownSort sorts a list of known length by the samples of its elements.
func (in *Interp) knownSort(c *callCtx, l *Term) bool {
	u := in.U
	es, ok := in.Elems(c.st, l)
	if !ok || in.C.Sample == nil || l.Typ == nil && len(es) > 0 {
		return false
	}
	if len(es) < 2 {
		return true
	}
	et := elemType(l.Typ)
	before := func(i, j int) (bool, bool) {
		var t *Term
		switch c.name {
		case "sort.Strings", "sort.Ints", "slices.Sort":
			t = in.binop(c.st, token.LSS, es[i], es[j], types.Typ[types.Bool], et)
		case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			f := c.args[1]
			if f.Op != OClosure && f.Op != OFunc || f.Fn == nil || len(f.Fn.Params) != 2 {
				return false, false
			}
			as := []*Term{es[i], es[j]}
			if strings.HasPrefix(c.name, "sort.") {
				as = []*Term{u.Int(int64(i)), u.Int(int64(j))}
			}
			os := in.execFunc(c.st.clone(), f.Fn, as, f.Args)
			if len(os) != 1 || os[0].Kind != "return" || len(os[0].Res) != 1 {
				return false, false
			}
			if t = os[0].Res[0]; strings.HasPrefix(c.name, "slices.") {
				v, err := in.C.Sample(t)
				n, ok := v.(int64)
				return n < 0, ok && err == nil
			}
		default:
			return false, false
		}
		v, err := in.C.Sample(t)
		b, ok := v.(bool)
		return b, ok && err == nil
	}
	order := make([]int, len(es))
	less := make([][]bool, len(es))
	for i := range es {
		order[i] = i
		less[i] = make([]bool, len(es))
		for j := range es {
			if i != j {
				b, ok := before(i, j)
				if !ok {
					return false
				}
				less[i][j] = b
			}
		}
	}
	sort.SliceStable(order, func(a, b int) bool { return less[order[a]][order[b]] })
	var cells []*Term
	for k := range es {
		cells = append(cells, u.IndexAddr(l, u.Int(int64(k)), et))
	}
	for k, i := range order {
		if i != k {
			for k, i := range order {
				if l.Op == OList {
					c.st.Mem[cells[k]] = es[i]
				} else {
					in.Store(c.st, cells[k], es[i], et)
				}
			}
			break
		}
	}
	return true
}

// permuted lists the elements of a literal list that was sorted.
func (in *Interp) permuted(st *State, l *Term) []*Term {
	if !in.C.Known || in.C.Sample == nil || l.Typ == nil || len(l.Args) < 2 {
		return nil
	}
	et := elemType(l.Typ)
	if et == nil {
		return nil
	}
	var es []*Term
	for k := range l.Args {
		v := st.Mem[in.U.IndexAddr(l, in.U.Int(int64(k)), et)]
		if v == nil {
			return nil
		}
		es = append(es, v)
	}
	return es
}
